from .. import emit, gen, judge, profiles, refproc, spec

ID = "C09"
RULE = ("random documents stating access, protection, reset value and mask, write constraints and descriptive members at "
        "any subset of levels (0 and false included), inherited by containment, derivation and dimension; these "
        "attributes of all processed elements, of the device and of the processor are compared with the reference; "
        "non-trivial: at least one attribute was inherited")
CASES = {"quick": 4000, "thorough": 80000}
REQUIRED = ["from:peripheral:access", "from:cluster:access", "from:device:access", "default:access",
            "from:register:access", "from:register:write_constraint", "from:derivation", "zero:reset_value",
            "zero:reset_mask", "cpu", "cpu-default", "sauregion", "false", "processed", "from:cluster:reset_value",
            "from:peripheral:protection", "from:device:reset_mask"]
KEEP = {"access", "protection", "reset_value", "reset_mask", "write_constraint", "modified_write_values", "read_action",
        "data_type", "description", "display_name", "version", "group_name", "prepend_to_name", "append_to_name",
        "header_struct_name", "disable_condition", "alternate_peripheral", "alternate_cluster", "alternate_register",
        "alternate_group", "vendor", "vendor_id", "series", "license_text", "cpu", "header_system_filename",
        "header_definitions_prefix", "address_unit_bits", "width", "address_blocks", "interrupts",
        ("device", "size")}
PROFILES = [dict(p_prop=0.5, p_misc=0.5, p_wc=0.4, depth=3, p_cluster=0.4, p_derive=0.0),
            dict(p_prop=0.2, p_misc=0.3, p_wc=0.4, depth=3, p_cluster=0.4, p_derive=0.5),
            dict(p_prop=0.8, p_misc=0.8, p_desc=0.9, p_cpu=0.9, p_derive=0.3, text="nasty"),
            dict(p_prop=0.1, p_misc=0.1, p_desc=0.1, p_cpu=0.9, p_field_access=0.6, p_derive=0.3),
            {**profiles.FIELD_DERIVE, "p_wc": 0.6, "p_field_access": 0.4},
            {**profiles.DIMS, "p_prop": 0.5, "p_wc": 0.5}]


def case(rng, ctx):
    doc, _ = gen.make(rng, **rng.choice(PROFILES))
    xml = emit.to_xml(doc).encode()
    r = judge.judge(ctx, doc, keep=KEEP, xml=xml, error=False)
    if r is None or r[0].error is not None:
        return
    for n in spec.walk(doc):
        if n["kind"] in ("cpu", "sauregion"):
            ctx.count(n["kind"])
        if n["kind"] == "cpu" and n.get("vtor_present") is None:
            ctx.count("cpu-default")
        if any(v is False for v in n.values()):
            ctx.count("false")
        for a in ("reset_value", "reset_mask"):
            if n.get(a) == 0:
                ctx.count("zero:" + a)
        if n.get("derived_from") and n["kind"] != "enumcontainer":
            ctx.count("from:derivation")
    plain = refproc.expand(doc)
    if plain is not None:
        sources(ctx, plain, [])
    ctx.seen(judge.shape(doc), [tuple(str(n.get(a)) for a in ("access", "protection", "reset_value")) for n in spec.walk(doc)])
    ctx.sample(xml.decode())


def sources(ctx, n, above):
    attrs = ("access", "write_constraint") if n["kind"] == "field" else ("access", "protection", "reset_value", "reset_mask")
    if above:
        for a in attrs:
            if n.get(a) is None:
                src = next((x for x in above if x.get(a) is not None), None)
                ctx.count(f"from:{src['kind']}:{a}" if src else f"default:{a}")
    for a in ("peripherals", "registers_clusters", "fields"):
        for c in n.get(a) or []:
            sources(ctx, c, [n, *above])
