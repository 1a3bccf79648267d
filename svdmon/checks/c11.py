from .. import emit, gen, judge, observe, profiles, refproc, spec

ID = "C11"
RULE = ("random fields with enumerated values (all number bases, don't-care patterns, defaults, duplicates, reserved and "
        "out-of-range entries, read/write pairs, sets derived by name and by path into fields of other widths), some "
        "then made invalid (second default, no number, bad text, bad usage combination); the resolved sets, rejections "
        "and warnings are compared with the reference and every set is checked for order, uniqueness and range; "
        "non-trivial: at least one set of values was resolved or refused")
CASES = {"quick": 17000, "thorough": 150000}
REQUIRED = ["sets", "wildcard", "default", "default-fills", "derived:enumcontainer", "derived-other-width", "usage-pair",
            "rejected:enum-two-defaults", "rejected:enum-without-value", "rejected:enum-usage-twice",
            "rejected:enum-usage-combination", "note:enum-out-of-range", "note:enum-duplicate-name",
            "note:enum-duplicate-value", "note:ignored-enum-reserved", "note:enum-default-with-value", "number:hex",
            "number:bin", "number:dec", "number:leading-zero", "wide", "wide-pattern", "number:long-hex",
            "names-by-case", "note:default-name-taken"]
NOTES = {"enum-duplicate-name", "enum-duplicate-value", "enum-default-with-value", "enum-out-of-range",
         "ignored-enum-reserved"}
BASE = dict(p_enum=0.9, fields=(1, 4), depth=1, rcs=(1, 3), peripherals=(1, 2), enums=(1, 6), p_size=0.2)
PROFILES = [{**BASE, "p_derive": 0.0, "p_default": 0.3}, {**BASE, "p_derive": 0.0, "p_wild": 0.7, "p_default": 0.5, "p_enum_case": 0.2},
            {**BASE, "p_derive": 0.5, "derive_tries": 8, "p_default": 0.3}, {**BASE, "p_enum_dup": 0.4, "p_derive": 0.0, "p_enum_case": 0.2}, {**BASE, "p_derive": 0.2, "p_enum_case": 0.5},
            {**BASE, "p_derive": 0.2, "p_default": 0.8, "p_default_clash": 0.5},
            {**BASE, "p_enum_range": 0.3, "p_reserved": 0.15, "p_derive": 0.2}, {**BASE, "p_enum_twin": 0.8, "p_derive": 0.3},
            {**BASE, "p_dim": 0.3, "p_field_dim": 0.3, "p_derive": 0.4}, {**BASE, "text": "nasty", "p_desc": 0.9},
            {**BASE, "p_wide_field": 0.6, "p_wild": 0.6, "p_derive": 0.0, "enums": (1, 3), "fields": (1, 2), "p_dim": 0.0}]


def disturb(rng, doc, ctx):
    cs = [n for n in spec.walk(doc) if n["kind"] == "enumcontainer" and n.get("enumerated_values")]
    if not cs:
        return
    c = rng.choice(cs)
    vs = c["enumerated_values"]
    how = rng.randrange(7)
    if how == 0:
        for i in range(2):
            vs.insert(rng.randint(0, len(vs)), {"kind": "enumvalue", "name": f"other{i}", "is_default": True})
    elif how == 1:
        v = rng.choice(vs)
        v.pop("value", None)
        v.pop("is_default", None)
    elif how == 2:
        rng.choice(vs)["value"] = rng.choice(["zz", "0x", "0b2", "#", "1x", "--1", "0xG1", "1.5", "#1 0", "b01"])
    elif how == 3:
        v = rng.choice(vs)
        v["is_default"] = True
    elif how == 4:
        f = next(n for n in spec.walk(doc) if n["kind"] == "field" and c in (n.get("enumerated_value_containers") or []))
        k = rng.choice(["read", "write", "read-write", None])
        twin = {"kind": "enumcontainer", "name": "Twin", "enumerated_values": [
            {"kind": "enumvalue", "name": "t", "value": "0"}]}
        if k:
            twin["usage"] = k
        f["enumerated_value_containers"].append(twin)
        if rng.random() < 0.3:
            f["enumerated_value_containers"].append(dict(twin, usage="read", name="Twin2"))
    elif how == 5:
        v = rng.choice(vs)
        v["value"] = rng.choice(["18446744073709551616", "0xFFFFFFFFFFFFFFFFF", "4294967296", "#1111111111111111"])
    else:
        # a wide field
        f = next(n for n in spec.walk(doc) if n["kind"] == "field" and c in (n.get("enumerated_value_containers") or []))
        if not any(v.get("is_default") for v in vs) and not f.get("dim") and not f.get("derived_from"):
            for a in gen.BITS:
                f.pop(a, None)
            f["lsb"], f["msb"] = 0, rng.choice([31, 15, 27, 63])
            rng.choice(vs)["value"] = str(rng.choice([2 ** 31, 2 ** 15, 2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 28]))
            ctx.count("wide")


def invariants(dev):
    out = []
    for f in observe.objects(dev):
        if type(f).__name__ != "Field":
            continue
        for c in f.enumerated_value_containers:
            nums = [v.value for v in c.enumerated_values]
            if nums != sorted(set(nums)):
                out.append(f"{f.name}: numbers {nums[:20]} not ascending and unique")
            if any(n < 0 or n >= 1 << (f.msb - f.lsb + 1) for n in nums):
                out.append(f"{f.name}: number beyond {f.msb - f.lsb + 1} bits: {nums[:20]}")
            names = [v.name for v in c.enumerated_values]
            if len(set(names)) != len(names):
                out.append(f"{f.name}: duplicate names {names[:20]}")
    return out


def case(rng, ctx):
    doc, _ = gen.make(rng, **rng.choice(PROFILES))
    if rng.random() < 0.45:
        disturb(rng, doc, ctx)
    xml = emit.to_xml(doc).encode()
    r = judge.judge(ctx, doc, keep={"enumerated_value_containers"}, notes=NOTES, xml=xml)
    if r is None:
        return
    ref, call = r
    if call.exc is None:
        f = invariants(call.value)
        if f:
            return ctx.fail("; ".join(f[:3]), xml=xml)
    for n in ref.notes:
        ctx.count("note:" + n[0])
    judge.count_features(ctx, doc)
    sig = []
    for n in spec.walk(doc):
        if n["kind"] != "enumcontainer":
            continue
        ctx.count("sets")
        names = [v["name"] for v in n.get("enumerated_values") or [] if isinstance(v.get("name"), str)]
        if len({x.lower() for x in names}) < len(set(names)):
            ctx.count("names-by-case")
        for v in n.get("enumerated_values") or []:
            s = (v.get("value") or "").lower()
            sig.append((s, v.get("is_default")))
            if "x" in s.removeprefix("0x"):
                ctx.count("wildcard")
                if s.count("x") > 8:
                    ctx.count("wide-pattern")
            elif s.startswith("0x"):
                ctx.count("number:hex")
                if len(s) > 10:
                    ctx.count("number:long-hex")
            elif s.startswith(("#", "0b")):
                ctx.count("number:bin")
            elif s:
                ctx.count("number:dec")
                if s.startswith("0") and len(s) > 1:
                    ctx.count("number:leading-zero")
            if v.get("is_default"):
                ctx.count("default")
    if ref.error is None:
        widths = {}
        for f in observe.objects(call.value):
            if type(f).__name__ == "Field":
                for c in f.enumerated_value_containers:
                    if c.name:
                        widths.setdefault(c.name, set()).add(f.msb - f.lsb)
                    if any(v.name.startswith("dflt_") for v in c.enumerated_values):
                        ctx.count("default-fills")
                if len(f.enumerated_value_containers) == 2:
                    ctx.count("usage-pair")
        if any(len(w) > 1 for w in widths.values()):
            ctx.count("derived-other-width")
    if sig:
        ctx.seen(sig, ref.error)
        ctx.sample(xml.decode())
