import copy
import re
import xml.parsers.expat

from .. import emit, gen, observe, raw, refproc, spec
from ..env import Parser, Process

ID = "C16"
RULE = ("valid random documents damaged in one place: a mandatory element or attribute removed or emptied, a number, "
        "boolean or enumeration member replaced by something else, a dimension, bit range, bit position or enumerated "
        "number made malformed or inconsistent, or the markup itself broken; the undamaged twin must be accepted and "
        "the damaged one refused (or, for broken markup and unknown access values, announced by a parser warning); "
        "non-trivial: a damaged document was judged")
CASES = {"quick": 22000, "thorough": 200000}
NUMBERS = ["abc", "0x", "12 34", "1,000", "0xZZ", "1.5", "--1", "#12", "#", "0b", "0x 1", "1e3", "true", "\u00bd", "0x1G",
           "0x1#", "0x#1", "0x1#0", "1_000", "0x1_0", "0o17", "\u0663", "0b1_0", "##1", "+#0b1", "0x\u0661", "0b2", "1-2", "0x10 0x20", "ten", "12abc", "$5", "0x1.8", "(1)", "None", "NaN", "1;", "0x0x1", "1/2", "- 1"]
BOOLS = ["yes", "2", "TRUE1", "on", "t", "-1", "00", "no", "10", "0x1", "truefalse", "none", "True,", "0 1", "off"]
ENUM_BAD = ["nonsense", "0", "xx", "read only!", "none", "r w"]
ATTR = {"range": ("minimum", "maximum")}
PROC_ERRORS = {"bad-bitrange", "no-bit-position", "bad-dimindex", "dimindex-count", "percent-without-dim", "dim-below-one",
               "display-percent-without-dim", "field-array", "peripheral-list", "display-list-in-array",
               "display-array-in-list", "bad-enum-value", "enum-without-value"}
REQUIRED = (["missing:" + k for k in raw.REQUIRED if raw.REQUIRED[k]] + ["emptied:" + k for k in (
    "cpu", "register", "peripheral", "cluster", "field", "enumvalue", "addressblock", "sauregion")]
    + ["missing:range", "missing:peripherals", "bad:int", "bad:dec", "bad:bool", "bad:@bool", "bad:@enum", "bad:access", "bad:range"]
    + ["bad:" + e for e in spec.ENUMS if e != "access"] + ["markup:refused", "markup:announced"]
    + ["process:" + e for e in ("bad-bitrange", "no-bit-position", "bad-dimindex", "dimindex-count", "dim-below-one",
                                "percent-without-dim", "bad-enum-value", "enum-without-value", "display-percent-without-dim")])


def bad_enum(rng, e):
    """Not a member, and no other spelling of one."""
    taken = {re.sub(r"[\W_]", "", v).lower() for v in spec.ENUMS[e]}
    while True:
        w = rng.choice(ENUM_BAD + [v + "x" for v in spec.ENUMS[e]] + ["x" + v for v in spec.ENUMS[e]]
                       + [spec.ENUMS[e][0] + " " + spec.ENUMS[e][-1]])
        if re.sub(r"[\W_]", "", w).lower() not in taken:
            return w


def parse(xml):
    return observe.Call(lambda: Parser.from_xml_content(xml).get_parsed_device())


def process(xml):
    return observe.Call(lambda: Process.from_xml_content(xml).get_processed_device())


def remove(rng, ctx, doc):
    """The document without one mandatory element or attribute -> damaged text."""
    spots = [(n, a, x, t) for n in spec.walk(doc) for a, x, t in spec.KINDS[n["kind"]] if a in raw.REQUIRED[n["kind"]]]
    spots += [(n, "range_", x, "range") for n in spec.walk(doc) if n.get("range_") for x in ("minimum", "maximum")]
    kinds = sorted({n["kind"] if t != "range" else "range" for n, _, _, t in spots})
    k = rng.choice(kinds)
    n, a, x, t = rng.choice([s for s in spots if (s[0]["kind"] if s[3] != "range" else "range") == k])
    if rng.random() < 0.02:
        ctx.count("missing:peripherals")
        s = emit.to_xml(doc)
        return "peripherals", re.sub(r"<peripherals>.*</peripherals>|<peripherals/>", "", s, flags=re.S), ("ParserException",)
    if t == "range":
        s = with_mark(doc, n, "range_", None)
        ctx.count("missing:range")
        return x, re.sub(rf"(?s)(MARK.*?)<{x}>[^<]*</{x}>", r"\1", s, count=1).replace("MARK", ""), ("ParserException",)
    if t.startswith("@"):
        d = dict(n)
        d.pop(a)
        ctx.count("missing:" + k)
        return x, emit.to_xml(replace(doc, n, d)), ("ParserException",)
    if rng.random() < 0.35:
        form = rng.choice(["<{0}/>", "<{0}></{0}>", "<{0}><!-- none --></{0}>"])
        ctx.count("emptied:" + k)
        s = with_mark(doc, n, a, x)
        return x, re.sub(rf"<{x}>MARK</{x}>", form.format(x), s, count=1), ("ParserException",)
    d = dict(n)
    d.pop(a)
    ctx.count("missing:" + k)
    return x, emit.to_xml(replace(doc, n, d)), ("ParserException",)


def replace(doc, old, new):
    """doc with the node old (by identity) replaced by new."""
    if doc is old:
        return new
    out = {}
    for k, v in doc.items():
        if isinstance(v, dict):
            out[k] = replace(v, old, new)
        elif isinstance(v, list):
            out[k] = [replace(x, old, new) if isinstance(x, dict) else x for x in v]
        else:
            out[k] = v
    return out


class Mark(str):
    pass


def with_mark(doc, n, a, x):
    """Text of doc in which the value of n's attribute a (or its range) is marked."""
    d = dict(n)
    if a == "range_":
        lo, hi = d["range_"]
        s = emit.to_xml(replace(doc, n, dict(d, range_=(7770777, hi))))
        return s.replace("<minimum>7770777<", f"MARK<minimum>{lo}<", 1)
    d[a] = Mark("MARK")
    return emit.to_xml(replace(doc, n, d), Raw())


class Raw(emit.Lex):
    """Writes marks as they are, whatever type the member has."""

    def number(self, v, dec=False):
        return str(v) if isinstance(v, Mark) else super().number(v, dec)

    def boolean(self, v):
        return str(v) if isinstance(v, Mark) else super().boolean(v)


def scalar(rng, ctx, doc):
    spots = [(n, a, x, t) for n in spec.walk(doc) for a, x, t in spec.KINDS[n["kind"]]
             if n.get(a) is not None and (t in ("int", "dec", "bool", "@bool", "range") or "enum:" in t)]
    kinds = sorted({t for *_, t in spots})
    t = rng.choice(kinds)
    n, a, x, t = rng.choice([s for s in spots if s[3] == t])
    must = True
    if t in ("int", "dec"):
        bad = rng.choice(NUMBERS)
        ctx.count("bad:" + t)
    elif t == "range":
        bad = rng.choice(NUMBERS)
        x = rng.choice(["minimum", "maximum"])
        s = with_mark(doc, n, a, x)
        ctx.count("bad:range")
        return f"{x}={bad}", re.sub(rf"(?s)(MARK.*?)<{x}>[^<]*<", rf"\1<{x}>{bad}<", s, count=1).replace("MARK", ""), None
    elif t.endswith("bool"):
        bad = rng.choice(BOOLS)
        ctx.count("bad:" + t)
    else:
        e = t.split("enum:")[1]
        bad = bad_enum(rng, e)
        ctx.count("bad:" + e)
        if t.startswith("@"):
            ctx.count("bad:@enum")
        must = e != "access"
    s = with_mark(doc, n, a, x)
    if "MARK" not in s:
        raise RuntimeError(f"{n['kind']}.{a} not marked")
    return f"{n['kind']}.{x}={bad}", s.replace("MARK", bad, 1), None if must else ("announced", bad)


def markup(rng, xml):
    """Broken markup."""
    how = rng.randrange(7)
    i = rng.randrange(60, max(61, len(xml) - 12))
    if how == 0:
        return xml[:i]
    if how == 1:
        tags = [m.span() for m in re.finditer(r"</\w+>", xml)]
        a, b = rng.choice(tags)
        return xml[:a] + xml[b:]
    if how == 2:
        tags = [m.span() for m in re.finditer(r"</\w+>", xml)]
        a, b = rng.choice(tags)
        return xml[:a] + "</wrong>" + xml[b:]
    if how == 3:
        return xml[:i] + rng.choice(["&", "&nosuch;", "<", "<1>", "&#0;", "&#xZ;", "<!--", "<![CDATA["]) + xml[i:]
    if how == 4:
        return xml.replace(">", "", 1) if rng.random() < 0.2 else xml[:i] + xml[i + 1:]
    if how == 5:
        return xml + rng.choice(["<device/>", "text", "</device>"])
    tags = [m.end() - 1 for m in re.finditer(r"<\w+>", xml)]
    a = rng.choice(tags)
    return xml[:a] + rng.choice([' x="1" x="2"', " x", " x=1", ' x="<"']) + xml[a:]


def xml_parser():
    return xml.parsers.expat.ParserCreate(namespace_separator=" ")


def damage_processing(rng, doc):
    """One malformed specification that only processing can see."""
    doc = copy.deepcopy(doc)
    nodes = list(spec.walk(doc))
    dims = [n for n in nodes if n.get("dim") is not None]
    fields = [n for n in nodes if n["kind"] == "field"]
    values = [n for n in nodes if n["kind"] == "enumvalue"]
    rcs = [n for n in nodes if n["kind"] in ("cluster", "register", "field")]
    lists = [n for n in dims if "[%s]" not in n["name"]]
    how = rng.choice(["bitrange", "position", "dimindex", "count", "zero", "percent", "value", "novalue", "percent",
                      "display", "array"])
    if how == "bitrange" and fields:
        f = rng.choice(fields)
        for a in gen.BITS:
            f.pop(a, None)
        f["bit_range"] = rng.choice(["[3]", "3:0", "[3:0", "3:0]", "[a:b]", "[3-0]", "[3:]", "[:0]", "[]", "[3:0] x", "[-1:0]",
                                     "[3:0:1]", "x[3:0]", "[0x3:0]", "[3,0]", "(3:0)", "[\u0663:0]", "[3: 0.5]"])
    elif how == "position" and fields:
        f = rng.choice(fields)
        for a in gen.BITS:
            f.pop(a, None)
        f.update(rng.choice([{}, {"lsb": 1}, {"msb": 3}, {"bit_offset": 2}, {"bit_width": 2}, {"lsb": 1, "bit_width": 2}]))
        f.pop("derived_from", None)
        f.pop("bit_range", None)
    elif how == "dimindex" and lists:
        rng.choice(lists)["dim_index"] = rng.choice(["3-0", "A-", "-B", "A--B", "0..3", "A;B", "A,,B", ",", "A B", "C-A", "a-c",
                                                     "A,B,", "0-3x", "AA-AC", "0-A", "A-3", "1.5,2", "[0-1]", "é,b"])
    elif how == "count" and lists:
        n = rng.choice(lists)
        k = n["dim"] + rng.choice([-1, 1, 2])
        if k < 1:
            k = n["dim"] + 1
        n["dim_index"] = rng.choice([f"0-{k - 1}", ",".join(f"i{j}" for j in range(k)), f"5-{k + 4}",
                                     *([f"A-{chr(64 + k)}"] if 2 <= k <= 26 else [])])
    elif how == "zero" and dims:
        rng.choice(dims)["dim"] = rng.choice([0, 0, -1, -3])
    elif how == "percent" and rcs:
        n = rng.choice(rcs)
        for a in ("dim", "dim_increment", "dim_index", "dim_name", "dim_array_index", "derived_from"):
            n.pop(a, None)
        n["name"] = n["name"].replace("[%s]", "").replace("%s", "") + rng.choice(["%s", "[%s]", "%s_x"])
    elif how == "display":
        rs = [n for n in nodes if n["kind"] == "register" and n.get("dim") is None and not n.get("derived_from")]
        if not rs:
            return None
        rng.choice(rs)["display_name"] = rng.choice(["D%s", "D[%s]"])
    elif how == "array" and dims:
        n = rng.choice(dims)
        if n["kind"] == "field":
            n["name"] = n["name"].replace("%s", "[%s]")
        elif n["kind"] == "register":
            n["display_name"] = "D%s" if "[%s]" in n["name"] else "D[%s]"
        else:
            return None
    elif how == "value" and values:
        rng.choice(values)["value"] = rng.choice(["zz", "0x", "0b2", "#", "1x", "--1", "0xG1", "1.5", "#1 0", "b01", "0bxy",
                                                  "1,2", "#2", "0x-1", "##1", "0b0b1", "# 1", "0x1#",
                                                  "0x1_0", "#1_0", "#-1", "0b 1", "\u0663", "#0bx", "0b+1", "1_0", "0o7"])
    elif how == "novalue" and values:
        v = rng.choice(values)
        v.pop("value", None)
        v.pop("is_default", None)
    else:
        return None
    return doc


def case_process(rng, ctx):
    doc, _ = gen.make(rng, **rng.choice([{}, dict(p_dim=0.5, p_field_dim=0.4, p_derive=0.2), dict(p_enum=0.8, p_derive=0.3),
                                         dict(p_derive=0.6)]))
    bad = damage_processing(rng, doc)
    if bad is None:
        return ctx.count("no-spot")
    try:
        ref = refproc.process(bad)
    except refproc.Unmodelled:
        return ctx.count("unmodelled")
    if ref.error not in PROC_ERRORS:
        return ctx.count("harmless")
    xml = emit.to_xml(bad).encode()
    call = process(xml)
    if call.exc is None:
        return ctx.fail(f"malformed content accepted ({ref.error} {ref.names}); warnings: "
                        f"{[m for c, m in call.warnings if c == 'ProcessWarning'][:3]}", xml=xml)
    ctx.count("process:" + ref.error)
    ctx.seen(ref.error, xml)
    return None


def case(rng, ctx):
    if rng.random() < 0.35:
        return case_process(rng, ctx)
    doc = raw.device(rng, p=rng.choice([0.3, 0.9]), text="plain", width=(1, 2), depth=1)
    good = emit.to_xml(doc).encode()
    pick = rng.random()
    if pick < 0.2:
        bad = markup(rng, good.decode()).encode()
        try:
            xml_parser().Parse(bad, True)
            return ctx.count("markup:harmless")
        except xml.parsers.expat.ExpatError:
            pass
        call = rng.choice([parse, process])(bad)
        if call.exc is None:
            if not any(c == "ParserWarning" and "fallback" in m for c, m in call.warnings):
                return ctx.fail("broken markup was read without a warning", xml=bad)
            ctx.count("markup:announced")
        else:
            ctx.count("markup:refused")
        return ctx.seen("markup", bad)
    what, bad, how = (remove if pick < 0.6 else scalar)(rng, ctx, doc)
    bad = bad.encode()
    if b"MARK" in bad or bad == good:
        raise RuntimeError("the document was not damaged: " + what)
    call = parse(bad)
    if how and how[0] == "announced":
        if call.exc is None and not any(c == "ParserWarning" and how[1] in m for c, m in call.warnings):
            return ctx.fail(f"malformed value accepted without a warning: {what}", xml=bad)
    elif call.exc is None:
        return ctx.fail(f"damaged document accepted: {what}", xml=bad)
    elif how and call.exc_name not in how:
        return ctx.fail(f"damaged document ({what}) refused with {call!r} instead of {how[0]}", xml=bad)
    elif rng.random() < 0.2:
        c2 = process(bad)
        if c2.exc_name != call.exc_name:
            return ctx.fail(f"{what}: parsing ends with {call!r}, processing with {c2!r}", xml=bad)
        ctx.count("both-entry-points")
    if rng.random() < 0.1:
        c0 = parse(good)
        if c0.exc is not None:
            return ctx.fail(f"the undamaged twin is refused: {c0!r}", xml=good)
        ctx.count("twin-accepted")
    ctx.seen(what, bad)
    ctx.sample(what + "\n" + bad.decode())
    return None
