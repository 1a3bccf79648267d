from enum import Enum

from .. import emit, env, gen, observe, profiles, refproc, spec
from ..env import Process, Serializer

ID = "C04"
RULE = ("random processable documents (derivations, dimensions, nested clusters, enumerated values, cpu); the converted "
        "device is compared member by member with an independent rendering of the processed device, its parents are "
        "checked, it is processed again directly and after serialize and parse, and the object graphs of processed and "
        "converted device are intersected, then the converted one is scrambled while the processed one is watched; "
        "non-trivial: the device was processed and converted")
CASES = {"quick": 2000, "thorough": 30000}
REQUIRED = ["derived", "dims", "enumvalue", "cluster", "cpu", "sauregion", "writeconstraint", "interrupt", "reprocessed",
            "reparsed", "scrambled", "range"]


def position(f):
    if f.get("bit_range"):
        hi, lo = f["bit_range"].strip("[]").split(":")
        return int(lo), int(hi)
    if f.get("lsb") is not None:
        return f["lsb"], f["msb"]
    return f["bit_offset"], f["bit_offset"] + f["bit_width"] - 1


def faults(p, s, path):
    """Differences between a processed element and its conversion."""
    out = []
    kind = p["kind"]
    if s["kind"] != kind:
        return [f"{path}: {kind} became {s['kind']}"]
    for a in ("derived_from", "dim", "dim_index", "dim_increment", "dim_name", "dim_array_index"):
        if s.get(a) is not None:
            out.append(f"{path}: {a}={s[a]!r} remains")
    if kind == "field" and position(s) != (p["lsb"], p["msb"]):
        out.append(f"{path}: position {position(s)} instead of {(p['lsb'], p['msb'])}")
    if kind == "enumvalue":
        if s.get("is_default"):
            out.append(f"{path}: is a default entry")
        if refproc.enum_numbers(s["value"])[0] != [p["value"]]:
            out.append(f"{path}: value {s['value']!r} instead of {p['value']}")
    for a in spec.attrs(kind):
        if a not in spec.PROC_ATTRS[kind] or (kind, a) == ("enumvalue", "value"):
            continue
        if kind == "field" and a in ("lsb", "msb", "bit_offset", "bit_width", "bit_range"):
            continue
        x, y = p[a], s[a]
        here = f"{path}.{a}"
        if isinstance(x, list):
            if len(x) != len(y):
                out.append(f"{here}: {observe.names(x)} became {observe.names(y)}")
                continue
            for i, (b, c) in enumerate(zip(x, y)):
                out += faults(b, c, f"{here}[{b.get('name') or i}]") if isinstance(b, dict) else []
        elif isinstance(x, dict):
            out += faults(x, y, here) if isinstance(y, dict) else [f"{here}: lost"]
        elif x != y:
            out.append(f"{here}: {x!r} became {y!r}")
    return out


def deviation(a, b, strip):
    return observe.diff(unsized(a), unsized(b)) if strip else observe.diff(a, b)


def unsized(d):
    if isinstance(d, list):
        return [unsized(x) for x in d]
    if isinstance(d, dict):
        return {k: unsized(v) for k, v in d.items() if k != "size" or d["kind"] not in ("cluster", "peripheral")}
    return d


def graph(obj):
    """Every mutable object reachable from obj, by id."""
    seen, todo = {}, [obj]
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, (Enum, type, str, int, float, bytes, type(None))):
            continue
        if isinstance(o, (list, tuple, set)):
            kids = list(o)
        elif isinstance(o, dict):
            kids = list(o.values())
        elif hasattr(o, "__dict__"):
            kids = list(vars(o).values())
        else:
            continue
        todo += kids
        if not isinstance(o, tuple):
            seen[id(o)] = o
    return seen


def scramble(svd):
    for o in graph(svd).values():
        if isinstance(o, list):
            o.clear()
        elif not isinstance(o, dict):
            for a in list(vars(o)):
                try:
                    setattr(o, a, None)
                except AttributeError:
                    pass


def case(rng, ctx):
    knobs = profiles.mixed(rng)
    knobs.setdefault("p_cpu", 0.5)
    doc, derived = gen.make(rng, **knobs)
    xml = emit.to_xml(doc).encode()
    call = observe.Call(lambda: Process.from_xml_content(xml))
    if call.exc is not None:
        return ctx.count("rejected")
    proc = call.value
    dev = proc.get_processed_device()
    before = observe.processed(dev)
    # an element that was left out (with a warning) has counted for the size of its container
    strip = any(c == "ProcessWarning" for c, _ in call.warnings)
    if not before["peripherals"]:
        return ctx.count("nothing-left")
    conv = observe.Call(proc.convert_processed_device_to_svd_device)
    if conv.exc is not None:
        return ctx.fail(f"processed device not converted: {conv!r}", xml=xml)
    svd = conv.value
    f = faults(before, observe.parsed(svd), "device") + observe.parent_faults(svd)
    if f:
        return ctx.fail("conversion: " + "; ".join(f[:4]), xml=xml)
    again = observe.Call(lambda: Process(svd, None).get_processed_device())
    if again.exc is not None:
        return ctx.fail(f"converted device not processed: {again!r}", xml=xml)
    d = deviation(before, observe.processed(again.value), strip)
    if d:
        return ctx.fail("processing the converted device deviates: " + "; ".join(d[:4]), xml=xml)
    ctx.count("reprocessed")
    text = observe.Call(lambda: Serializer.device_to_svd_content(svd))
    if text.exc is not None:
        return ctx.fail(f"converted device not serialized: {text!r}", xml=xml)
    again = observe.Call(lambda: Process.from_xml_content(text.value).get_processed_device())
    if again.exc is not None:
        return ctx.fail(f"serialized conversion not processed: {again!r}", xml=xml, serialized=text.value)
    d = deviation(before, observe.processed(again.value), strip)
    if d:
        return ctx.fail("processing the serialized conversion deviates: " + "; ".join(d[:4]), xml=xml,
                        serialized=text.value)
    ctx.count("reparsed")
    mine = graph(svd)
    shared = [o for i, o in graph(dev).items() if i in mine]
    if shared:
        return ctx.fail(f"processed and converted device share {shared[0]!r:.200}", xml=xml)
    other = observe.Call(proc.convert_processed_device_to_svd_device).value
    first = observe.parsed(svd)
    scramble(svd)
    d = observe.diff(before, observe.processed(dev))
    if d:
        return ctx.fail("changing the converted device changed the processed one: " + "; ".join(d[:3]), xml=xml)
    d = observe.diff(first, observe.parsed(other))
    if d:
        return ctx.fail("a second conversion deviates or shares state with the first: " + "; ".join(d[:3]), xml=xml)
    scramble(proc.get_processed_device())
    d = observe.diff(first, observe.parsed(other))
    if d:
        return ctx.fail("changing the processed device changed the converted one: " + "; ".join(d[:3]), xml=xml)
    ctx.count("scrambled")
    if derived:
        ctx.count("derived")
    for n in spec.walk(doc):
        ctx.count(n["kind"])
        if n.get("dim"):
            ctx.count("dims")
        if n.get("range_") is not None:
            ctx.count("range")
    ctx.seen(xml)
    ctx.sample(xml.decode())
