from .. import emit, gen, judge, observe, profiles, refproc, spec

ID = "C05"
RULE = ("random documents dense in derivations (by sibling name, by path, into dimensioned elements, through derived "
        "containers, chained, at every level, partly stated properties); the processed device is compared with the "
        "reference and with what the library makes of the same device written without derivations; non-trivial: at "
        "least one derivation, accepted")
CASES = {"quick": 7200, "thorough": 60000}
REQUIRED = ["derived:peripheral", "derived:cluster", "derived:register", "derived:field", "derived:enumcontainer",
            "derived:by-path", "derived:of-dimensioned", "chain:2", "chain:3", "dim:register", "processed",
            "inherited-children", "base-elsewhere", "inherited-dim:register", "inherited-dim:cluster", "inherited-dim:peripheral",
            "inherited-dim:field", "inherited-dim:twice", "own-values", "rejected:enum-usage-twice"]
PROFILES = [dict(p_derive=0.7, depth=2, derive_tries=6, p_dim=0.0), profiles.DENSE_DERIVE, profiles.FIELD_DERIVE,
            dict(p_derive=0.8, peripherals=(3, 6), rcs=(1, 3), derive_tries=8, p_dim=0.1, p_misc=0.6, p_prop=0.5),
            dict(p_derive=0.6, p_enum=0.8, fields=(1, 4), p_dim=0.1), dict(p_derive=0.6, p_group=0.3, p_alt=0.2),
            dict(p_derive=0.8, depth=4, p_cluster=0.5, rcs=(1, 2), derive_tries=8), profiles.DIMLESS]


def verdict(ctx, doc, xml=None, feature="derivation"):
    """Deviates from the reference, and not only because the plain description is processed differently too."""
    try:
        ref = refproc.process(doc)
    except refproc.Unmodelled as e:
        ctx.count("skipped:" + str(e))
        return None
    xml = xml or emit.to_xml(doc).encode()
    call = judge.run_xml(xml)
    got = observe.processed(call.value) if call.exc is None else call.exc_name
    if ref.error is not None:
        ctx.count("rejected:" + ref.error)
        if call.exc_name == "ProcessException":
            return ref, call
        d = [f"must be rejected ({ref.error} {ref.names}), got {call!r}"]
    elif call.exc is not None:
        d = [f"must be accepted, got {call!r}"]
    else:
        d = observe.diff(ref.device, got)
    if not d:
        if ref.error is None:
            ctx.count("processed")
        return ref, call
    plain = refproc.expand(doc)
    if plain is not None:
        other = judge.run_xml(emit.to_xml(plain).encode())
        if (observe.processed(other.value) if other.exc is None else other.exc_name) == got:
            ctx.count(f"deviates-without-{feature}-too")
            return None
        d += [f"without {feature}: {other!r}"] if other.exc is not None else []
    ctx.fail("; ".join(d[:4]), xml=xml, differences="\n".join(d))
    return None


def chains(doc):
    """Longest derivation chain by following plain sibling names."""
    best = 0
    by = {}
    for n in spec.walk(doc):
        if n["kind"] in ("peripheral", "cluster", "register", "field"):
            by.setdefault((n["kind"], n["name"]), n)
    for n in by.values():
        k, m, seen = 0, n, set()
        while m is not None and m.get("derived_from") and id(m) not in seen:
            seen.add(id(m))
            k += 1
            m = by.get((m["kind"], m["derived_from"].split(".")[-1]))
        best = max(best, k)
    return best


def inherited_dims(doc, ctx):
    """Elements whose dimension is (partly) that of what they derive from."""
    nodes = [n for n in spec.walk(doc) if n["kind"] in gen.DIMABLE]
    takes = {n["name"]: n for n in nodes if n.get("derived_from") and "%s" in n["name"]
             and "%s" in n["derived_from"] and not all(n.get(a) for a in ("dim", "dim_increment"))}
    for n in takes.values():
        ctx.count("inherited-dim:" + n["kind"])
        if n["derived_from"].split(".")[-1] in takes:
            ctx.count("inherited-dim:twice")


def more_values(rng, doc, ctx):
    """Derived fields with enumerated values of their own, besides those they take over."""
    fs = [n for n in spec.walk(doc) if n["kind"] == "field" and n.get("derived_from")]
    for f in rng.sample(fs, min(len(fs), rng.randint(1, 2))):
        for _ in range(rng.choice([1, 1, 2])):
            c = {"kind": "enumcontainer", "name": f"Own{rng.randrange(10 ** 6)}",
                 "enumerated_values": [{"kind": "enumvalue", "name": "own", "value": "0"}]}
            u = rng.choice([None, "read", "write", "read-write"])
            if u:
                c["usage"] = u
            f["enumerated_value_containers"] = [*(f.get("enumerated_value_containers") or []), c]
            ctx.count("own-values")


def case(rng, ctx):
    doc, derived = gen.make(rng, **rng.choice(PROFILES))
    if not derived:
        return ctx.count("no-derivation")
    if rng.random() < 0.15:
        more_values(rng, doc, ctx)
    xml = emit.to_xml(doc, emit.Lex(rng, shuffle=True) if rng.random() < 0.2 else None).encode()
    r = verdict(ctx, doc, xml)
    if r is None or r[0].error is not None:
        return
    judge.count_features(ctx, doc)
    names = {n["name"] for n in spec.walk(doc) if n.get("dim")}
    for n in spec.walk(doc):
        path = n.get("derived_from")
        if path:
            last = path.split(".")[-1]
            if any(refproc._could_be_called(x, last) for x in names):
                ctx.count("derived:of-dimensioned")
            if "." in path:
                ctx.count("base-elsewhere")
            if n["kind"] in ("peripheral", "cluster", "register") and not (n.get("registers_clusters") or n.get("fields")):
                ctx.count("inherited-children")
    inherited_dims(doc, ctx)
    k = chains(doc)
    for i in range(1, k + 1):
        ctx.count(f"chain:{i}")
    ctx.seen(judge.shape(doc))
    ctx.sample(xml.decode())
