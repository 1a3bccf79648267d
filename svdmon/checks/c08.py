from .. import emit, gen, judge, observe, profiles, refproc, spec

ID = "C08"
RULE = ("random documents with sizes stated at any subset of levels (device, peripherals, nested clusters, registers), "
        "also inherited by derivation and dimension, some not a multiple of 8; the sizes of all processed elements and "
        "the left-out warnings are compared with the reference; non-trivial: a size was inherited or adjusted")
CASES = {"quick": 12000, "thorough": 80000}
REQUIRED = ["from:device", "from:peripheral", "from:cluster", "from:default", "from:derivation", "adjusted:cluster",
            "adjusted:peripheral", "left-out", "processed", "deep"]
PROFILES = [profiles.SIZES, {**profiles.SIZES, "p_derive": 0.0, "p_dim": 0.0}, {**profiles.SIZES, "p_size": 0.15},
            {**profiles.SIZES, "odd_sizes": 0.15}, {**profiles.SIZES, "p_size": 0.9}, profiles.DROPS,
            {**profiles.SIZES, "depth": 4, "rcs": (1, 2), "p_cluster": 0.6}]


def case(rng, ctx):
    doc, _ = gen.make(rng, **rng.choice(PROFILES))
    if rng.random() < 0.4:
        doc.pop("size", None)
    xml = emit.to_xml(doc).encode()
    r = judge.judge(ctx, doc, keep={"size"}, notes={"ignored-size"}, xml=xml, error=False)
    if r is None or r[0].error is not None:
        return
    sources(ctx, doc)
    if any(n[0] == "ignored-size" for n in r[0].notes):
        ctx.count("left-out")
    for n, path in walk(r[0].device):
        if len(path) > 3 and n["kind"] == "register":
            ctx.count("deep")
    ctx.seen(judge.shape(doc), sizes(r[0].device))
    ctx.sample(xml.decode())


def sizes(d):
    return [(n["name"], n["size"]) for n, _ in walk(d)]


def walk(d, path=()):
    for a in ("peripherals", "registers_clusters"):
        for c in d.get(a) or []:
            yield c, (*path, d)
            yield from walk(c, (*path, d))


def sources(ctx, doc):
    """Where registers of the plain description get their size from."""
    plain = refproc.expand(doc)
    if plain is None:
        return
    if any(n.get("derived_from") and n.get("size") is None for n in spec.walk(doc) if n["kind"] == "register"):
        ctx.count("from:derivation")

    def go(n, above):
        for a in ("peripherals", "registers_clusters"):
            for c in n.get(a) or []:
                if c["kind"] == "register":
                    if c.get("size") is None:
                        src = next((x for x in above if x.get("size") is not None), None)
                        ctx.count("from:" + (src["kind"] if src else "default"))
                else:
                    kids = [k.get("size") for k in c.get("registers_clusters") or []]
                    if kids and max((k or 0) for k in kids) > (c.get("size") or 0):
                        ctx.count("adjusted:" + c["kind"])
                    go(c, [c, *above])
    go(plain, [plain])
