import os
import tempfile

import lxml.etree as ET

from .. import observe, raw, spec
from ..env import Parser, Serializer

ID = "C02"
RULE = ("random parsed-model devices built through the public model classes (every member present or absent, hostile "
        "text, 64-bit numbers, lone bit positions, false/0 values); serialized to bytes, text and file with every "
        "option combination, parsed again and compared; the documents are compared with each other in canonical form; "
        "non-trivial: every case (distinct devices)")
CASES = {"quick": 10000, "thorough": 100000}
REQUIRED = ["bytes", "text", "file", "pretty", "no-declaration", "falsy", "lone-bits", "carriage-return", "dimarrayindex", "sauregion",
            "empty-attribute"]


def canonical(content):
    """The document itself, without the white space between elements that pretty printing may add."""
    root = ET.fromstring(content)

    def tree(e):
        text = e.text or ""
        if len(e):
            assert not text.strip(), text
            text = ""
        return (e.tag, sorted(e.attrib.items()), text, [tree(c) for c in e])
    return tree(root)


def case(rng, ctx):
    doc = raw.device(rng, p=rng.choice([0.1, 0.4, 0.8]), width=rng.choice([(0, 2), (1, 3)]), depth=rng.choice([0, 1, 3]),
                     text=rng.choice(["plain", "nasty", "nasty"]))
    doc["peripherals"] = doc["peripherals"] or [raw.Raw(rng).node("peripheral")]
    if rng.random() < 0.15:
        # an attribute can be present and empty, unlike an element
        xs = [n for n in spec.walk(doc) if "derived_from" in n or n["kind"] == "sauregion" and "name" in n]
        for n in rng.sample(xs, min(len(xs), 2)):
            n["derived_from" if "derived_from" in n else "name"] = ""
            ctx.count("empty-attribute")
    dev = observe.build(doc)
    exp = spec.normal(doc)
    texts = []
    for pretty in (False, True):
        for decl in (True, False):
            call = observe.Call(lambda: Serializer.device_to_svd_content(dev, pretty_print=pretty, xml_declaration=decl))
            if call.exc is not None:
                return ctx.fail(f"device not serialized (pretty={pretty}, declaration={decl}): {call!r}", device=dev)
            out = call.value
            ctx.count("bytes")
            ctx.count("pretty" if pretty else "compact")
            ctx.count("declaration" if decl else "no-declaration")
            if out.lstrip().startswith(b"<?xml") != decl:
                return ctx.fail(f"xml_declaration={decl} not honoured", xml=out)
            texts.append(out)
    call = observe.Call(lambda: [Serializer.device_to_svd_str(dev, pretty_print=p) for p in (False, True)])
    if call.exc is not None:
        return ctx.fail(f"device_to_svd_str: {call!r}", device=dev)
    texts += call.value
    ctx.count("text", 2)
    if ctx.index % 4 == 0:
        fd, path = tempfile.mkstemp(suffix=".svd")
        os.close(fd)
        try:
            pretty, decl = rng.random() < 0.5, rng.random() < 0.5
            call = observe.Call(lambda: Serializer.device_to_svd_file(path, dev, pretty, decl))
            if call.exc is not None:
                return ctx.fail(f"device_to_svd_file: {call!r}", device=dev)
            content = open(path, "rb").read()
            want = texts[(2 if pretty else 0) + (0 if decl else 1)]
            if content != want:
                return ctx.fail("the file differs from the serialized content", xml=want, file=content)
            call = observe.Call(lambda: Parser.from_svd_file(path).get_parsed_device())
            if call.exc is not None or observe.parsed(call.value) != exp:
                return ctx.fail(f"the written file does not read back equal: {call!r}", xml=content)
            ctx.count("file")
        finally:
            os.unlink(path)
    base = None
    for t in texts:
        isstr = isinstance(t, str)
        read = Parser.from_xml_str if isstr else Parser.from_xml_content
        call = observe.Call(lambda: read(t).get_parsed_device())
        if call.exc is not None:
            return ctx.fail(f"serialized device does not parse: {call!r}", xml=t)
        d = observe.diff(exp, observe.parsed(call.value)) + observe.parent_faults(call.value)[:3]
        if d:
            return ctx.fail("round trip changes the device: " + "; ".join(d[:4]), xml=t)
        c = canonical(t.encode() if isstr else t)
        if base is None:
            base = c
        elif c != base:
            return ctx.fail("the output options change the document", xml=t, first=texts[0])
    d = observe.diff(exp, observe.parsed(dev)) + observe.parent_faults(dev)[:3]
    if d:
        return ctx.fail("serializing changed the device: " + "; ".join(d), xml=texts[0])
    for n in spec.walk(doc):
        ctx.count(n["kind"])
        if any(v is False or (v == 0 and v is not None) for v in n.values()):
            ctx.count("falsy")
        if any("\r" in v for v in n.values() if isinstance(v, str)):
            ctx.count("carriage-return")
        if n["kind"] == "field" and (("lsb" in n) != ("msb" in n) or ("bit_offset" in n) != ("bit_width" in n)):
            ctx.count("lone-bits")
    ctx.seen(texts[0])
    ctx.sample(texts[0].decode())
