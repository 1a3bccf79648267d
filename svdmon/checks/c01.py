from .. import emit, observe, raw, spec
from ..env import Parser

ID = "C01"
RULE = ("random parse-level documents (every member of every kind present or absent, hostile text, 64-bit numbers) "
        "written in a random spelling (number bases, boolean forms, CDATA, character references, comments and PIs "
        "also inside values, member order, white space, vendor extensions also inside elements, repeated elements); the parsed tree, its "
        "order and parents are compared with the document; non-trivial: at least one spelling feature was used")
CASES = {"quick": 48000, "thorough": 200000}
REQUIRED = ["peripheral", "cluster", "register", "field", "enumcontainer", "enumvalue", "dimarrayindex", "sauregion",
            "spell:dup:desc", "spell:dup:str", "spell:dup:int", "spell:dup:bool", "spell:dup:emptied", "spell:dup:of-empty", "spell:empty", "spell:nested", "spell:crlf", "spell:access-case", "spell:access-deprecated",
            "carriage-return", "spell:cdata", "spell:charref", "spell:inner-comment", "spell:comment", "spell:shuffle",
            "spell:vendor-ext", "spell:foreign", "spell:split-wrapper", "spell:split-peripherals",
            "spell:dup:cpu", "spell:dup:sauRegionsConfig", "spell:dup:writeConstraint", "spell:dup:range", "spell:dup:dimArrayIndex", "spell:num8", "spell:num6", "spell:num2", "plain"]


def case(rng, ctx):
    doc = raw.device(rng, p=rng.choice([0.15, 0.4, 0.8]), width=rng.choice([(0, 2), (1, 3)]), depth=rng.choice([0, 1, 3]),
                     text=rng.choice(["plain", "nasty", "nasty"]))
    lex = emit.Lex(rng, shuffle=rng.random() < 0.6, vendor=rng.random() < 0.5, inner_comments=rng.random() < 0.6,
                   dups=rng.random() < 0.5, split=rng.random() < 0.5, numbers=rng.random() < 0.9, nested=rng.random() < 0.3,
                   crlf=rng.random() < 0.5, cases=True, foreign=rng.random() < 0.3)
    if rng.random() < 0.1:
        lex = emit.Lex()
    xml = emit.to_xml(doc, lex).encode()
    call = observe.Call(lambda: Parser.from_xml_content(xml).get_parsed_device())
    if call.exc is not None:
        return ctx.fail(f"well-formed document not parsed: {call!r}", xml=xml)
    d = observe.diff(spec.normal(doc), observe.parsed(call.value))
    d += observe.parent_faults(call.value)[:3]
    if d:
        return ctx.fail("; ".join(d[:4]), xml=xml)
    if lex.stats.get("dup") and not any(c == "ParserWarning" for c, _ in call.warnings):
        return ctx.fail("a repeated element was overridden without a parser warning", xml=xml)
    for k in lex.stats:
        ctx.count("spell:" + k)
    if not lex.stats:
        ctx.count("plain")
    for n in spec.walk(doc):
        ctx.count(n["kind"])
        if any("\r" in v for v in n.values() if isinstance(v, str)):
            ctx.count("carriage-return")
    if lex.stats:
        ctx.seen(xml)
        ctx.sample(xml.decode())
