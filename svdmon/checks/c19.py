import copy
import os
import tempfile

import lxml.etree as ET

from .. import emit, observe, raw
from ..env import SVDSchemaVersion, Validator, ValidatorException

ID = "C19"
RULE = ("random documents near the border of the schema: conforming ones, and ones with an element or attribute removed, "
        "added, repeated, reordered, renamed, moved to another namespace or given another value, documents with hardly "
        "anything left in them, with comments and processing instructions, using what "
        "one schema version allows and its neighbour does not; every entry point, exception mode and several of the 14 "
        "versions are compared with our own run of our own copy of that schema; the sequence of calls is random, so every "
        "verdict follows other verdicts; non-trivial: a document judged at least by two versions")
CASES = {"quick": 30000, "thorough": 250000}
VERSIONS = ["1.0", "1.1", "1.2", "1.3.1", "1.3.2", "1.3.3", "1.3.4", "1.3.5", "1.3.6", "1.3.7", "1.3.8", "1.3.9", "1.3.10",
            "1.3.11"]
DISTINCT = [f"split:{a}/{b}" for a, b in zip(VERSIONS, VERSIONS[1:])]
REQUIRED = ["true", "false", "raised", "raised-by-default", "newest-by-default", "file", "content", "str", *DISTINCT,
            *("version:" + v for v in VERSIONS)]
_SCHEMAS = {}


def schema(v):
    if v not in _SCHEMAS:
        path = os.path.join(os.path.dirname(os.path.dirname(__file__)), "schema", v + ".xsd")
        _SCHEMAS[v] = ET.XMLSchema(ET.parse(path))
    return _SCHEMAS[v]


def damage(rng, xml):
    root = ET.fromstring(xml)
    nodes = [e for e in root.iter() if isinstance(e.tag, str)]
    e = rng.choice(nodes)
    up = e.getparent()
    how = rng.randrange(15)
    if how > 13:
        # names of another namespace are other names
        ns = rng.choice(["urn:v", "http://www.w3.org/2001/XMLSchema", "http://www.w3.org/2001/XMLSchema-instance"])
        if rng.random() < 0.3:
            e = root
        for x in e.iter() if rng.random() < 0.3 else [e]:
            if isinstance(x.tag, str):
                x.tag = f"{{{ns}}}{ET.QName(x).localname}"
    elif how == 13:
        xsi = "{http://www.w3.org/2001/XMLSchema-instance}"
        e = rng.choice([e, root])
        e.set(xsi + rng.choice(["type", "nil", "schemaLocation", "noNamespaceSchemaLocation", "other"]),
              rng.choice(["true", "false", "x", "registerType", "fieldType", "urn:a b.xsd", "CMSIS-SVD.xsd"]))
    elif how == 12 and rng.random() < 0.5:
        # hardly anything left
        for x in list(root)[rng.choice([0, 0, 1, 2]):]:
            root.remove(x)
        if rng.random() < 0.5:
            root.attrib.clear()
        root.text = None
    elif how > 9:
        # extensions of the vendor: anything may be in them, but they have one place
        x = ET.fromstring(rng.choice(["<vendorExtensions/>", "<vendorExtensions><a b='c'>d</a></vendorExtensions>",
                                      "<vendorExtensions><name>n</name><peripheral/></vendorExtensions>",
                                      "<v:vendorExtensions xmlns:v='urn:v'/>", "<vendorExtensions xmlns='urn:v'><a/></vendorExtensions>",
                                      "<vendorExtensions xmlns:v='urn:v'><v:a v:b='c'/></vendorExtensions>"]))
        at = rng.choice([root, root, e, rng.choice(nodes)])
        at.insert(len(at) if rng.random() < 0.6 else rng.randint(0, len(at)), x)
    elif how == 0 and up is not None:
        up.remove(e)
    elif how == 1 and up is not None:
        up.insert(rng.randint(0, len(up)), copy.deepcopy(e))
    elif how == 2 and up is not None:
        i = rng.randrange(len(up))
        up.insert(i, e)
    elif how == 3:
        e.tag = rng.choice(["unknown", e.tag + "s", e.tag if "}" in e.tag else e.tag.upper(), rng.choice(nodes).tag])
    elif how == 4 and not len(e):
        e.text = rng.choice(["", "x", "-1", "1", "0x", "0x10", "#101", "%s", "[%s]", "a b", "true", "é", "999999999999999999999",
                             "read-only", "r1p0", "[3:0]", "\u4e2d", "A.B", "CM4", " 1 "])
    elif how == 5:
        e.append(ET.Element(rng.choice(["extra", "size", "name", "description"])))
    elif how == 6:
        e.set(rng.choice(["extra", "derivedFrom", "name", "usage", "enabled"]), rng.choice(["x", "a.b", "true", "", "%s"]))
    elif how == 7:
        holders = [x for x in nodes if x.attrib]
        h = rng.choice(holders)
        del h.attrib[rng.choice(sorted(h.attrib))]
    elif how == 8:
        e.insert(0, ET.Comment("c")) if len(e) else e.append(ET.ProcessingInstruction("p", "i"))
    elif up is not None:
        e.tail = rng.choice(["text", "\n\n", "&"])
    return ET.tostring(root, encoding="utf-8", xml_declaration=rng.random() < 0.5)


def document(rng):
    p = rng.choice([0.03, 0.08, 0.08, 0.2, 0.5, 0.9])
    doc = raw.device(rng, schema=True, p=p, width=rng.choice([(0, 1), (0, 1), (1, 2)]), depth=rng.choice([0, 1]))
    doc["schema_version"] = rng.choice(["1.0", "1.1", "1.2", "1.3"])
    if rng.random() < 0.5:
        r = raw.Raw(rng, p=0.1, schema=True)
        doc["cpu"] = r.node("cpu")
        for a in ("mpu_present", "fpu_present"):
            if rng.random() < 0.8:
                doc["cpu"][a] = rng.random() < 0.5
    lex = emit.Lex(rng, shuffle=False) if rng.random() < 0.3 else None
    return emit.to_xml(doc, lex, declaration="<?xml version='1.0'?>\n").encode()


def case(rng, ctx):
    xml = document(rng)
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        try:
            xml = damage(rng, xml)
        except (ET.XMLSyntaxError, ValueError):
            return
    tree = ET.fromstring(xml).getroottree()
    want = {v: bool(schema(v).validate(tree)) for v in VERSIONS}
    for a, b in zip(VERSIONS, VERSIONS[1:]):
        if want[a] != want[b]:
            ctx.count(f"split:{a}/{b}")
    lib = {v.value: v for v in SVDSchemaVersion}
    if not set(VERSIONS) <= set(lib):
        return ctx.fail(f"supported schema versions are missing: {sorted(set(VERSIONS) - set(lib))}", xml=xml)
    borders = [v for a, b in zip(VERSIONS, VERSIONS[1:]) if want[a] != want[b] for v in (a, b)] or VERSIONS
    for _ in range(4):
        entry = rng.choice(["file", "content", "str"])
        mode = rng.choice(["default", True, False])
        v = rng.choice([rng.choice(VERSIONS), rng.choice(borders), "default"])
        args, kw = [], {}
        if v != "default" and mode != "default" and rng.random() < 0.5:
            args = [mode, lib[v]]
        else:
            if mode != "default":
                kw["get_exception"] = mode
            if v != "default":
                kw["schema_version"] = lib[v]
        path = None
        if entry == "file":
            fd, path = tempfile.mkstemp(suffix=".svd")
            os.write(fd, xml)
            os.close(fd)
            call = observe.Call(lambda: Validator.validate_xml_file(path, *args, **kw))
            os.unlink(path)
        elif entry == "content":
            call = observe.Call(lambda: Validator.validate_xml_content(xml, *args, **kw))
        else:
            call = observe.Call(lambda: Validator.validate_xml_str(xml.decode(), *args, **kw))
        expect = want[VERSIONS[-1] if v == "default" else v]
        what = f"{entry}, version {v}, get_exception {mode}"
        if expect:
            ok = call.exc is None and call.value is True
        elif mode is False:
            ok = call.exc is None and call.value is False
        else:
            ok = isinstance(call.exc, (ET.DocumentInvalid, ValidatorException))
        if not ok:
            return ctx.fail(f"{what}: document is {'valid' if expect else 'invalid'}, got "
                            f"{call!r} {call.value!r}", xml=xml)
        ctx.count(entry)
        ctx.count("true" if expect else "false" if mode is False else "raised")
        if not expect and mode == "default":
            ctx.count("raised-by-default")
        if v == "default":
            ctx.count("newest-by-default")
        else:
            ctx.count("version:" + v)
    ctx.seen(xml)
    ctx.sample(xml.decode())
    return None
