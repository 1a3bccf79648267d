import copy
import itertools

from .. import emit, gen, judge, observe, profiles, spec
from ..gen import BITS

ID = "C10"
RULE = ("random registers with fields in all position notations, derived fields stating only parts, field lists, fields "
        "moved onto each other with every access combination and beyond the register; positions, order, rejection and "
        "warnings are compared with the reference, the processed positions are checked for agreement and collisions, "
        "and the document is rewritten in other notations and processed again; non-trivial: at least two fields")
CASES = {"quick": 7500, "thorough": 80000}
REQUIRED = ["rejected:field-overlap", "overlap-accepted", "exceeds", "notation:bit_offset", "notation:lsb",
            "notation:bit_range", "rewritten", "partial", "rejected:no-bit-position", "swapped", "dim:field",
            "derived:field", "self-overlapping-list", "touching"]
KEEP = {*BITS, "access"}
NOTES = {"field-exceeds", "bitrange-swapped", "msb-below-lsb"}
PROFILES = [dict(fields=(2, 6), p_derive=0.0, p_field_dim=0.0, p_dim=0.0, p_enum=0.0, p_exceed=0.08),
            {**profiles.FIELD_DERIVE, "p_own_position": 0.4, "p_partial_bits": 0.5, "p_enum": 0.1, "p_dim": 0.0},
            dict(fields=(1, 4), p_derive=0.2, p_field_dim=0.5, p_dim=0.2, p_enum=0.0, p_field_access=0.7),
            dict(fields=(2, 5), p_derive=0.2, p_field_access=0.9, p_exceed=0.1, p_enum=0.1)]


def own(f):
    """(lsb, msb) if the field states its whole position in one notation."""
    has = {a for a in BITS if f.get(a) is not None}
    if has == {"lsb", "msb"}:
        return f["lsb"], f["msb"]
    if has == {"bit_offset", "bit_width"}:
        return f["bit_offset"], f["bit_offset"] + f["bit_width"] - 1
    if has == {"bit_range"}:
        hi, lo = f["bit_range"].strip("[]").split(":")
        return (int(lo), int(hi)) if int(hi) >= int(lo) else None
    return None


def put(f, rng, lo, hi):
    for a in BITS:
        f.pop(a, None)
    how = rng.randrange(3)
    if how == 0:
        f["lsb"], f["msb"] = lo, hi
    elif how == 1:
        f["bit_offset"], f["bit_width"] = lo, hi - lo + 1
    else:
        f["bit_range"] = f"[{hi}:{lo}]"


def disturb(rng, doc, ctx):
    regs = [n for n in spec.walk(doc) if n["kind"] == "register" and n.get("fields")]
    if not regs:
        return
    reg = rng.choice(regs)
    f = rng.choice(reg["fields"])
    how = rng.randrange(7)
    if how <= 2 and len(reg["fields"]) > 1:
        g = rng.choice([x for x in reg["fields"] if x is not f])
        a, b = own(f), own(g)
        if a and b:
            w = a[1] - a[0]
            lo = max(0, rng.choice([b[0], b[1], b[0] - w, b[0] - w - 1, b[1] + 1, b[0] + 1]))
            put(f, rng, lo, lo + w)
            if rng.random() < 0.7:
                f["access"], g["access"] = rng.choice([("read-only", "write-only"), ("write-only", "read-only"),
                                                       ("read-only", "read-only"), ("write-only", "read-write"),
                                                       ("read-only", "read-write")])
            ctx.count("touching")
    elif how == 3 and own(f):
        lo, hi = own(f)
        f.pop("dim_increment", None) if rng.random() < 0.3 else None
        if f.get("dim") and hi > lo:
            f["dim"], f["dim_increment"] = 2, rng.choice([hi - lo, 1])
            f.pop("dim_index", None)
            ctx.count("self-overlapping-list")
    elif how == 4 and own(f):
        lo, hi = own(f)
        shift = rng.choice([31, 32, 33, 15, 16, 63, 64]) - rng.choice([lo, hi])
        if lo + shift >= 0:
            put(f, rng, lo + shift, hi + shift)
    elif how == 5 and own(f):
        lo, hi = own(f)
        if hi > lo:
            for a in BITS:
                f.pop(a, None)
            f["bit_range"] = f"[{lo}:{hi}]"
    elif how == 6:
        if f.get("derived_from") is None:
            gone = rng.choice([("bit_width",), ("lsb",), ("msb",), BITS])
            if own(f):
                put(f, rng, *own(f))
                for a in gone:
                    f.pop(a, None)


def collisions(dev):
    out = []
    dom = {"read-only": {"r"}, "write-only": {"w"}}
    for r in observe.objects(dev):
        if type(r).__name__ != "Register":
            continue
        prev = None
        for f in r.fields:
            if not (f.bit_offset == f.lsb and f.bit_width == f.msb - f.lsb + 1 and tuple(f.bit_range) == (f.msb, f.lsb)):
                out.append(f"{r.name}.{f.name}: lsb {f.lsb} msb {f.msb} offset {f.bit_offset} width {f.bit_width} "
                           f"range {f.bit_range}")
            if prev is not None and prev.lsb > f.lsb:
                out.append(f"{r.name}: {prev.name} before {f.name}")
            prev = f
        for a, b in itertools.combinations(r.fields, 2):
            if a.lsb <= b.msb and b.lsb <= a.msb and (dom.get(a.access.value, {"r", "w"}) & dom.get(b.access.value, {"r", "w"})):
                out.append(f"{r.name}: {a.name} and {b.name} collide")
    return out


def overlapping(dev):
    return any(a["lsb"] <= b["msb"] and b["lsb"] <= a["msb"] for n in judge_walk(dev) if n["kind"] == "register"
               for a, b in itertools.combinations(n["fields"], 2))


def judge_walk(d):
    yield d
    for a in ("peripherals", "registers_clusters"):
        for c in d.get(a) or []:
            yield from judge_walk(c)


def case(rng, ctx):
    doc, _ = gen.make(rng, **rng.choice(PROFILES))
    if rng.random() < 0.7:
        for _ in range(rng.randint(1, 2)):
            disturb(rng, doc, ctx)
    fields = [n for n in spec.walk(doc) if n["kind"] == "field"]
    names = {f["name"].split("%")[0].rstrip("[") for f in fields}
    xml = emit.to_xml(doc).encode()
    r = judge.judge(ctx, doc, keep=KEEP, notes=NOTES, xml=xml,
                    strict=lambda t: any(n and n in t for n in names))
    if r is None:
        return
    ref, call = r
    if call.exc is None:
        c = collisions(call.value)
        if c:
            return ctx.fail("; ".join(c[:4]), xml=xml)
        if overlapping(ref.device):
            ctx.count("overlap-accepted")
        for n in ref.notes:
            if n[0] == "field-exceeds":
                ctx.count("exceeds")
            if n[0] == "bitrange-swapped":
                ctx.count("swapped")
    judge.count_features(ctx, doc)
    for f in fields:
        for a in ("bit_offset", "lsb", "bit_range"):
            if f.get(a) is not None:
                ctx.count("notation:" + a)
        if f.get("derived_from") and own(f) is None and any(f.get(a) is not None for a in BITS):
            ctx.count("partial")
    other = copy.deepcopy(doc)
    changed = False
    for f in spec.walk(other):
        if f["kind"] == "field" and own(f) and own(f)[1] >= own(f)[0]:
            put(f, rng, *own(f))
            changed = True
    if changed:
        again = judge.run_xml(emit.to_xml(other).encode())
        a = observe.processed(call.value) if call.exc is None else call.exc_name
        b = observe.processed(again.value) if again.exc is None else again.exc_name
        if a != b:
            d = observe.diff(a, b) if isinstance(a, dict) and isinstance(b, dict) else [f"{call!r} / {again!r}"]
            return ctx.fail("the notation matters: " + "; ".join(d[:3]), xml=xml, other=emit.to_xml(other))
        ctx.count("rewritten")
    if len(fields) > 1:
        ctx.seen([tuple(f.get(a) for a in (*BITS, "dim", "access")) for f in fields])
        ctx.sample(xml.decode())
