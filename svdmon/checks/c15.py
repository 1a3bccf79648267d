import copy

from .. import emit, gen, judge, observe, profiles, refproc, spec
from ..env import Process
from ..steps import Exceeded, Steps

ID = "C15"
RULE = ("random documents whose derivations are broken on purpose at every level: missing and half-missing paths, targets "
        "of another kind, self, container and descendant references, cycles of length 1 to 8 within a list, across "
        "peripherals and through derived containers, containers deriving from what they contain through others, ambiguous names; executed lines of the library are counted "
        "against a bound in the document's size; the reference decides which documents must be refused, every other "
        "outcome than a device or the process exception is a violation; non-trivial: the document must be refused")
CASES = {"quick": 6300, "thorough": 90000}
KINDS = ("peripheral", "cluster", "register", "field", "enumcontainer")
REQUIRED = [f"{h}:{k}" for h in ("missing", "missing-tail", "self", "self-path", "cycle", "wrong-kind") for k in KINDS
            if (h, k) not in (("cycle", "enumcontainer"), ("self", "enumcontainer"))] + [
    "container", "decoy", "template", "ambiguous", "cross-cycle", "mutual", "rejected:cycle", "rejected:unresolved", "rejected:ambiguous",
    "rejected:recursive-derivation", "cycle-length:5", "steps"]
REASONS = ("unresolved", "cycle", "ambiguous", "recursive-derivation")
PROFILES = [dict(p_derive=0.3, p_dim=0.15, rcs=(1, 4), peripherals=(1, 4), p_enum=0.5),
            dict(p_derive=0.0, p_dim=0.0, rcs=(2, 5), peripherals=(2, 4), p_enum=0.6, fields=(1, 4)),
            dict(p_derive=0.5, depth=3, p_cluster=0.5, p_enum=0.3), dict(p_derive=0.2, p_dim=0.4, p_field_dim=0.2, max_dim=2),
            dict(p_derive=0.15, p_dim=0.1, depth=3, p_cluster=0.7, rcs=(1, 3), p_enum=0.2)]


def tree(doc):
    up, chain = {}, {}

    def go(n, path):
        for c in spec.children(n):
            if c["kind"] in KINDS:
                up[id(c)] = n
                chain[id(c)] = [*path, c]
                go(c, chain[id(c)])
    go(doc, [])
    return up, chain


def dotted(chain):
    return ".".join(str(x.get("name")) for x in chain)


def decoy(rng, doc, e, up, chain, derive):
    """Something of another kind is called like the target, nearer than the target."""
    owner = up[id(e)]
    if e["kind"] not in ("register", "cluster") or owner["kind"] not in ("peripheral", "cluster"):
        return False
    targets = [n for p in doc["peripherals"] for n in p.get("registers_clusters") or [] if n["kind"] == e["kind"] and not n.get("dim")
               and not p.get("dim") and n is not e and p is not chain[id(e)][0]]
    if not targets:
        return False
    t = rng.choice(targets)
    p = up[id(t)]
    reg = {"kind": "register", "name": "DecoyR", "address_offset": 0x800, "fields": []}
    other = dict(reg, name=t["name"]) if e["kind"] == "cluster" else {
        "kind": "cluster", "name": t["name"], "address_offset": 0x840, "registers_clusters": [dict(reg)]}
    owner["registers_clusters"].append({"kind": "cluster", "name": p["name"], "address_offset": 0x880,
                                        "registers_clusters": [other]})
    derive(e, f"{p['name']}.{t['name']}")
    return True


def breakit(rng, doc, ctx):
    up, chain = tree(doc)
    nodes = [n for n in spec.walk(doc) if n["kind"] in KINDS]
    kind = rng.choice(KINDS)
    same = [n for n in nodes if n["kind"] == kind] or nodes
    e = rng.choice(same)
    kind = e["kind"]
    how = rng.choice(["missing", "missing-tail", "self", "self-path", "cycle", "cycle", "cross-cycle", "wrong-kind",
                      "container", "ambiguous", "descendant", "odd", "template", "mutual"])

    def derive(n, path):
        n["derived_from"] = path
        if n["kind"] == "enumcontainer":
            n["enumerated_values"] = []
    if how == "missing":
        derive(e, rng.choice(["NoSuch", "No.Such", "P1.NoSuch.R", e.get("name", "x") + "x" if e.get("name") else "x"]))
    elif how == "missing-tail":
        other = rng.choice(same)
        derive(e, dotted(chain[id(other)]) + rng.choice([".NoSuch", "x", ".0"]))
    elif how == "template":
        # a name that only exists with an index is not there without it
        dims = [n for n in same if n.get("dim") and "%s" in (n.get("name") or "") and n is not e]
        if not dims:
            return None
        o = rng.choice(dims)
        name = o["name"].replace("[%s]", "%s").replace("%s", rng.choice(["", "", "[0]", "[]"]))
        derive(e, name if up[id(o)] is up[id(e)] else ".".join([*(str(x.get("name")) for x in chain[id(o)][:-1]), name]))
    elif how == "self":
        if not e.get("name"):
            e["name"] = "Itself"
        derive(e, e["name"])
    elif how == "self-path":
        if not e.get("name"):
            e["name"] = "Itself"
        derive(e, dotted(chain[id(e)]))
    elif how == "cycle":
        for i, n in enumerate(same):
            if n["kind"] == "enumcontainer":
                n.setdefault("name", f"En{i}")
        ring = rng.sample(same, min(len(same), rng.randint(2, 8)))
        for a, b in zip(ring, ring[1:] + ring[:1]):
            derive(a, b["name"] if up[id(a)] is up[id(b)] and rng.random() < 0.7 else dotted(chain[id(b)]))
        ctx.count(f"cycle-length:{len(ring)}")
    elif how == "cross-cycle":
        # a container derives from another one whose content derives from the first one's content
        cs = [n for n in nodes if n["kind"] in ("peripheral", "cluster", "register")]
        a = rng.choice(cs)
        bs = [n for n in cs if n["kind"] == a["kind"] and n is not a]
        kids = [k for k in spec.children(a) if k["kind"] in KINDS]
        if not bs or not kids:
            return None
        b, k = rng.choice(bs), rng.choice(kids)
        derive(b, a["name"] if up[id(a)] is up[id(b)] else dotted(chain[id(a)]))
        derive(k, f"{dotted(chain[id(b)])}.{k['name']}")
    elif how == "mutual":
        # a cluster contains one deriving from another, which derives from it or contains one that does
        cs = [n for n in nodes if n["kind"] == "cluster" and not n.get("dim")]
        outer = [n for n in cs if any(k["kind"] == "cluster" for k in spec.children(n))]
        if not outer:
            return None
        a = rng.choice(outer)
        k = rng.choice([k for k in spec.children(a) if k["kind"] == "cluster"])
        bs = [n for n in cs if a not in chain[id(n)] and n not in chain[id(a)]]
        if not bs:
            return None
        b = rng.choice(bs)
        derive(k, dotted(chain[id(b)]))
        bare = rng.random() < 0.5
        if bare:
            a["registers_clusters"] = [k]
            k["registers_clusters"] = []
        while rng.random() < 0.7:
            rng.choice([b, b, b, k] if bare else [k, k, a, b])["registers_clusters"].append(
                {"kind": "register", "name": f"Own{rng.randrange(1000)}", "address_offset": rng.randrange(0, 0x400, 4), "fields": []})
        inner = [c for c in spec.children(b) if c["kind"] == "cluster"]
        derive(rng.choice(inner) if inner and rng.random() < 0.5 else b, dotted(chain[id(a)]))
        return how, "cluster"
    elif how == "wrong-kind":
        others = [n for n in nodes if n["kind"] != kind and n.get("name")]
        if not others:
            return None
        o = rng.choice(others)
        if rng.random() < 0.3 and decoy(rng, doc, e, up, chain, derive):
            ctx.count("decoy")
            return "decoy", kind
        derive(e, o["name"] if up[id(o)] is up[id(e)] or rng.random() < 0.3 else dotted(chain[id(o)]))
    elif how == "container":
        if kind == "cluster" and len(chain[id(e)]) > 2:
            derive(e, dotted(chain[id(e)][:-1]))
        else:
            derive(e, rng.choice([dotted(chain[id(e)][:-1]) or "device", (up[id(e)].get("name") or "x")]))
    elif how == "ambiguous":
        lists = [(n, a) for n in spec.walk(doc) for a in ("peripherals", "registers_clusters", "fields") if len(n.get(a) or []) > 2]
        if not lists:
            return None
        n, a = rng.choice(lists)
        x, y, z = rng.sample(n[a], 3)
        if not x["kind"] == y["kind"] == z["kind"] or y.get("dim") or x.get("dim"):
            return None
        y["name"] = x["name"]
        if a == "registers_clusters" and rng.random() < 0.5:
            x["alternate_group"], y["alternate_group"] = "GA", "GB"
        z["derived_from"] = x["name"]
    elif how == "descendant":
        cs = [n for n in nodes if n["kind"] == "cluster" and any(k["kind"] == "cluster" for k in spec.children(n))]
        if not cs:
            return None
        e = rng.choice(cs)
        k = rng.choice([k for k in spec.children(e) if k["kind"] == "cluster"])
        derive(e, rng.choice([dotted(chain[id(k)]), f"{e['name']}.{k['name']}", k["name"]]))
    else:
        derive(e, rng.choice([".", "..", " ", "a..b", ".R1", "R1.", "%s", "[%s]", "R1[0]", "P1/R1", "é"]))
    return how, e["kind"]


def size(doc):
    return sum(1 for n in spec.walk(doc) if n["kind"] in KINDS)


def case(rng, ctx):
    doc, _ = gen.make(rng, **rng.choice(PROFILES))
    hows = [breakit(rng, doc, ctx) for _ in range(rng.choice([1, 1, 1, 2]))]
    hows = [h for h in hows if h]
    if not hows:
        return ctx.count("nothing-broken")
    xml = emit.to_xml(doc).encode()
    try:
        ref = refproc.process(doc)
        error = ref.error
    except refproc.Unmodelled as e:
        ref, error = None, "?" + str(e)
    n = size(doc)
    limit = 400_000 + 4000 * max(n, gen.elements(doc)) ** 2
    parsed = observe.build(copy.deepcopy(doc))
    steps = Steps(limit)
    try:
        with steps:
            call = observe.Call(lambda: Process(parsed, None).get_processed_device())
        if isinstance(call.exc, Exceeded):
            raise call.exc
    except Exceeded:
        return ctx.fail(f"processing {n} elements does not end within {limit} executed lines", xml=xml)
    ctx.count("steps", steps.n)
    ctx.counts["max-steps-per-element"] = max(ctx.counts["max-steps-per-element"], steps.n // n)
    other = judge.run_xml(xml)
    for c, via in ((call, "model"), (other, "xml")):
        if c.exc is not None and c.exc_name != "ProcessException":
            return ctx.fail(f"{c.exc_name} instead of ProcessException ({via}): {c.exc}", xml=xml)
        if error in REASONS and c.exc is None:
            return ctx.fail(f"derivation that cannot be resolved ({error} {ref.names}) was accepted", xml=xml)
    for h, k in hows:
        ctx.count(f"{h}:{k}")
        ctx.count(h)
    if error is None:
        ctx.count("still-valid")
        if call.exc is not None:
            return ctx.fail(f"document with resolvable derivations refused: {call!r}", xml=xml)
        return
    ctx.count("rejected:" + error if not error.startswith("?") else "skipped:" + error[1:])
    if error in REASONS:
        ctx.seen(judge.shape(doc), hows)
        ctx.sample(xml.decode())


def _ambiguous_after_expansion():
    """A reference naming an element and an instance of an array of the same name."""
    def p(name, base, **k):
        return {"kind": "peripheral", "name": name, "base_address": base, "interrupts": [], "address_blocks": [],
                "registers_clusters": [], **k}
    doc = {"kind": "device", "xs_no_namespace_schema_location": "CMSIS-SVD.xsd", "schema_version": "1.3", "name": "D",
           "version": "1", "description": "d", "address_unit_bits": 8, "width": 32, "peripherals": [
               p("PD1", 0), p("PD[%s]", 0, dim=2), p("Q", 0x1000, derived_from="PD1")]}
    return judge.run_model(doc).exc is None


FINDINGS = {"ambiguous-after-expansion": _ambiguous_after_expansion}
