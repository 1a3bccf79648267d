import os

import lxml.etree as ET

from .. import emit, observe, raw, spec
from ..env import Parser, Serializer, Validator

ID = "C03"
RULE = ("random parsed-model devices with schema-conforming values and every combination of optional members, the "
        "domain being decided by the newest XSD itself on our own rendering; serialized in every option combination "
        "and validated by the library and by an independent run of the XSD; also documents in free (still valid) "
        "spelling after a parse and serialize cycle; non-trivial: the rendering is valid (every judged case)")
CASES = {"quick": 15000, "thorough": 90000}
REQUIRED = ["model", "reparsed", "dimarrayindex", "sauregion", "writeconstraint", "enumvalue", "cluster", "lone-member"]
_SCHEMA = {}


def newest():
    if not _SCHEMA:
        base = os.path.join(os.path.dirname(os.path.dirname(__file__)), "schema")
        names = sorted((tuple(map(int, f[:-4].split("."))), f) for f in os.listdir(base) if f.endswith(".xsd"))
        _SCHEMA[0] = ET.XMLSchema(ET.parse(os.path.join(base, names[-1][1])))
    return _SCHEMA[0]


def valid(xml):
    s = newest()
    ok = s.validate(ET.fromstring(xml).getroottree())
    return ok, "" if ok else str(s.error_log[0].message)


def judge(ctx, dev, how, src):
    for pretty in (False, True):
        call = observe.Call(lambda: Serializer.device_to_svd_content(dev, pretty_print=pretty))
        if call.exc is not None:
            ctx.fail(f"schema-conforming device not serialized: {call!r}", xml=src)
            return False
        ok, why = valid(call.value)
        if not ok:
            ctx.fail(f"serialized {how} device violates the newest schema: {why}", xml=call.value, source=src)
            return False
        v = observe.Call(lambda: Validator.validate_xml_content(call.value))
        if v.value is not True:
            ctx.fail(f"validator does not accept the serialized {how} device: {v!r} {v.value!r}", xml=call.value)
            return False
    v = observe.Call(lambda: Validator.validate_xml_str(Serializer.device_to_svd_str(dev)))
    if v.value is not True:
        ctx.fail(f"validator does not accept the serialized text: {v!r} {v.value!r}", source=src)
        return False
    ctx.count(how)
    return True


def case(rng, ctx):
    doc = raw.device(rng, schema=True, p=rng.choice([0.1, 0.3, 0.6, 0.9]), width=rng.choice([(0, 1), (0, 2), (1, 2)]),
                     depth=rng.choice([0, 1, 2]))
    xml = emit.to_xml(doc).encode()
    ok, why = valid(xml)
    if not ok:
        return ctx.count("outside:" + why[:60])
    if not judge(ctx, observe.build(doc), "model", xml):
        return
    lex = emit.Lex(rng, space=False)
    free = emit.to_xml(doc, lex).encode()
    if valid(free)[0]:
        call = observe.Call(lambda: Parser.from_xml_content(free).get_parsed_device())
        if call.exc is not None:
            return ctx.fail(f"valid document not parsed: {call!r}", xml=free)
        if not judge(ctx, call.value, "reparsed", free):
            return
    for n in spec.walk(doc):
        ctx.count(n["kind"])
        if len([k for k in n if k != "kind"]) == 1:
            ctx.count("lone-member")
    ctx.seen(xml)
    ctx.sample(xml.decode())
