import collections

from .. import emit, gen, judge, observe, profiles, refproc, spec

ID = "C13"
RULE = ("random documents whose peripherals, registers, clusters and address blocks are moved onto each other (partially, "
        "fully, nested, touching, across intermediate elements), with and without alternate declarations and groups; "
        "each pair that shares an address must be named by its own warning, as often as it occurs, and each overlap "
        "warning must name such a pair; non-trivial: at least one pair shares an address or touches")
CASES = {"quick": 12000, "thorough": 120000}
REQUIRED = ["pair:peripheral", "pair:rc", "pair:block", "alternate", "group", "not-adjacent", "cluster-pair",
            "no-overlap", "processed", "crowd", "touching", "dim:register", "derived", "family:register", "family:cluster",
            "family:peripheral", "alternate-chain:rc", "alternate-chain:peripheral"]
BASE = dict(rcs=(2, 6), peripherals=(1, 3), depth=2, p_cluster=0.35, fields=(0, 1), p_enum=0.0, p_group=0.0)
PROFILES = [{**BASE, "p_derive": 0.0, "p_dim": 0.0, "p_overlap": 0.3}, {**BASE, "p_derive": 0.0, "p_dim": 0.3, "p_overlap": 0.4},
            {**BASE, "p_overlap": 0.5, "p_alt": 0.6, "p_derive": 0.0, "p_dim": 0.0}, {**BASE, "p_overlap": 0.5, "p_group": 0.4},
            {**BASE, "peripherals": (3, 7), "rcs": (1, 2), "p_overlap": 0.5, "p_derive": 0.2, "p_blocks2": 0.7},
            {**BASE, "sizes": (8, 16, 32, 64, 128), "p_size": 0.7, "p_overlap": 0.4, "p_derive": 0.3},
            {**BASE, "p_overlap": 0.0}]


def move(rng, doc, ctx):
    """Place elements relative to others: touching, one byte over, inside, around."""
    for n in list(spec.walk(doc)):
        if n["kind"] in ("peripheral", "cluster"):
            xs = n.get("registers_clusters") or []
            if len(xs) > 1 and rng.random() < 0.4:
                a, b = rng.sample(xs, 2)
                w = (b.get("size") or 32) // 8
                a["address_offset"] = max(0, b["address_offset"] + rng.choice([w, w, w - 1, -w, 0, 4, 0x20]))
                ctx.count("touching")
        if n["kind"] == "peripheral" and rng.random() < 0.15 and len(n.get("address_blocks") or []) > 1:
            a, b = rng.sample(n["address_blocks"], 2)
            a["offset"] = max(0, b["offset"] + rng.choice([b["size"], b["size"] - 1, 0, -a["size"], 1 - a["size"]]))
    ps = doc["peripherals"]
    if len(ps) > 1 and rng.random() < 0.5:
        a, b = rng.sample(ps, 2)
        span = max([x["offset"] + x["size"] for x in b.get("address_blocks") or []] or [0x100])
        a["base_address"] = max(0, b["base_address"] + rng.choice([span, span, (span - 1) & ~3, 0, 4, 0x20]))
        if rng.random() < 0.3 and not b.get("dim"):
            a["alternate_peripheral"] = b["name"]
        if rng.random() < 0.3 and len(ps) > 2:
            rng.choice(ps)["base_address"] = b["base_address"] + 4
    if rng.random() < 0.25:
        family(rng, doc, ctx)
    if rng.random() < 0.3:
        cs = [n["registers_clusters"] for n in spec.walk(doc) if len(n.get("registers_clusters") or []) > 1]
        if cs:
            a, b = rng.sample(rng.choice(cs), 2)
            if a["kind"] == b["kind"] and not b.get("dim") and not a.get("alternate_group"):
                a["alternate_" + a["kind"]] = b["name"]


def family(rng, doc, ctx):
    """Elements of one place that are alternates of alternates, in a chain, a star, a ring or any other shape."""
    groups = [ps for ps in [doc["peripherals"]] if len(ps) > 2]
    for n in spec.walk(doc):
        for kind in ("register", "cluster"):
            groups.append([c for c in n.get("registers_clusters") or [] if c["kind"] == kind])
    groups = [[c for c in g if not c.get("dim") and not c.get("derived_from") and not c.get("alternate_group")] for g in groups]
    groups = [g for g in groups if len(g) > 2]
    if not groups:
        return
    g = rng.choice(groups)
    g = rng.sample(g, rng.randint(3, min(6, len(g))))
    key = "alternate_" + g[0]["kind"]
    at = "base_address" if g[0]["kind"] == "peripheral" else "address_offset"
    shape = rng.choice(["chain", "star", "any", "any"])
    for i, c in enumerate(g):
        c.pop("alternate_register", None)
        if i:
            c[key] = (g[i - 1] if shape == "chain" else g[0] if shape == "star" else rng.choice(g[:i]))["name"]
            if rng.random() < 0.8:
                c[at] = g[0][at] + rng.choice([0, 0, 4, 8])
        elif rng.random() < 0.3:
            c[key] = rng.choice(["Nowhere", g[-1]["name"], g[1]["name"]])
    if rng.random() < 0.2:
        rng.choice(g).pop(key, None)
    ctx.count("family:" + g[0]["kind"])


def crowd(rng, ctx):
    """One element that reaches far over many others."""
    n = rng.randint(8, 40)
    step = rng.choice([4, 8, 0x20])
    reach = rng.choice([n * step, rng.randrange(n * step), n * step - 4, n * step + 4]) & ~3

    def reg(name, off, **k):
        return {"kind": "register", "name": name, "address_offset": off, "fields": [], **k}

    def cluster(name, off, rcs, **k):
        return {"kind": "cluster", "name": name, "address_offset": off, "registers_clusters": rcs, **k}

    def peri(name, base, rcs, size, **k):
        return {"kind": "peripheral", "name": name, "base_address": base, "interrupts": [], "registers_clusters": rcs,
                "address_blocks": [{"kind": "addressblock", "offset": 0, "size": size, "usage": "registers"}], **k}

    names = [f"e{i}" for i in range(n)]
    rng.shuffle(names)
    if rng.random() < 0.5:
        far = [reg("far", reach)] if rng.random() < 0.7 else [cluster("deep", 0, [reg("far", reach)])]
        xs = [cluster("big", 0, [reg("near", 0), *far])]
        for i, name in enumerate(names):
            x = reg(name, i * step) if rng.random() < 0.6 else cluster(name, i * step, [reg("r", 0)])
            if rng.random() < 0.15:
                same = [y["name"] for y in xs if y["kind"] == x["kind"]]
                if same:
                    x["alternate_" + x["kind"]] = rng.choice([same[0], rng.choice(same)])
            elif x["kind"] == "register" and rng.random() < 0.1:
                x["alternate_group"] = "G"
            xs.append(x)
        if rng.random() < 0.3:
            xs.append(reg("dims%s", 0, dim=rng.randint(2, n), dim_increment=step))
            ctx.count("dim:register")
        rng.shuffle(xs)
        ps = [peri("P", 0x1000, xs, 0x1000)]
        if rng.random() < 0.3:
            ps = [peri("P", 0x1000, [cluster("outer", 0, xs)], 0x1000)]
    else:
        # by its registers, by its address block, or by both
        ps = [peri("big", 0, [reg("near", 0), *([reg("far", reach)] if rng.random() < 0.6 else [])], rng.choice([4, reach + 4]))]
        for i, name in enumerate(names):
            x = peri(name, i * step, [reg("r", 0)], rng.choice([4, 4, step, 2 * step]))
            if rng.random() < 0.15:
                x["alternate_peripheral"] = rng.choice(["big", rng.choice(names)])
            ps.append(x)
        rng.shuffle(ps)
    ctx.count("crowd")
    return {"kind": "device", "xs_no_namespace_schema_location": "CMSIS-SVD.xsd", "schema_version": "1.3", "name": "D",
            "version": "1", "description": "d", "address_unit_bits": 8, "width": 32, "peripherals": ps}


def overlap_faults(ref, call):
    out = []
    texts = [t for c, t in call.warnings if c == "ProcessWarning"]
    for n, k in collections.Counter(x for x in ref.every if x[0] in ("overlap", "overlap-addressblock")).items():
        have = sum(judge.fits(n, t) for t in texts)
        if have < k:
            out.append(f"{k} warning(s) expected for {n}, {have} given")
    known = [n for n in ref.notes if n[0] not in judge.SILENT]
    for t in texts:
        if "overlap" in t.lower() and not any(judge.fits(n, t) for n in known):
            out.append(f"unexpected overlap warning: {t}")
    return out


def case(rng, ctx):
    if rng.random() < 0.08:
        doc, derived = crowd(rng, ctx), False
    else:
        doc, derived = gen.make(rng, **rng.choice(PROFILES))
        if rng.random() < 0.8:
            move(rng, doc, ctx)
    xml = emit.to_xml(doc).encode()
    r = judge.judge(ctx, doc, keep=(), xml=xml, error=False)
    if r is None or r[0].error is not None:
        return
    ref, call = r
    f = overlap_faults(ref, call)
    if f:
        return ctx.fail("; ".join(f[:4]), xml=xml, warnings="\n".join(t for _, t in call.warnings))
    pairs = [n for n in ref.notes if n[0] in ("overlap", "overlap-addressblock", "alternate", "alternate-chain")]
    for n in pairs:
        ctx.count(f"{n[0]}:{n[1]}" if n[0] == "alternate-chain" else "alternate" if n[0] == "alternate" else "pair:block" if n[0] != "overlap" else "pair:" + n[1])
    if not pairs:
        ctx.count("no-overlap")
    measure(ctx, ref.device, {n[2:] for n in pairs if n[0] == "overlap"})
    judge.count_features(ctx, doc)
    if derived:
        ctx.count("derived")
    if pairs:
        ctx.seen(pairs, judge.shape(doc))
        ctx.sample(xml.decode())


def measure(ctx, d, pairs):
    xs = d.get("peripherals") or d.get("registers_clusters") or []
    for i, a in enumerate(xs):
        if a["kind"] == "register" and a["alternate_group"]:
            ctx.count("group")
        for j in range(i + 1, len(xs)):
            b = xs[j]
            if (a["name"], b["name"]) in pairs:
                if j > i + 1:
                    ctx.count("not-adjacent")
                if "cluster" in (a["kind"], b["kind"]):
                    ctx.count("cluster-pair")
        if a["kind"] != "register":
            measure(ctx, a, pairs)
