import os
import re
import shutil
import tempfile

import lxml.etree

from .. import emit, env, gen, observe, profiles, raw, spec
from . import c15, c16, c17

ID = "C20"
RULE = ("random documents with characters from all planes carried as UTF-8 with and without byte order mark and declaration, "
        "UTF-16 in both byte orders and single-byte encodings (other characters as references), as files of odd names, bytes "
        "and text declaring any encoding; parsing is compared with the document itself, processing, mapping and validating "
        "and all kinds of failure across entry points; bytes not matching their declaration must be refused, or read as the "
        "announced fallback encoding says; documents refer to secret external files, which must not show up anywhere; "
        "non-trivial: a non-ASCII document or a refused one")
CASES = {"quick": 36000, "thorough": 150000}
ENCODINGS = ["utf-8", "utf-8-sig", "utf-8-bare", "utf-16", "utf-16-le", "utf-16-be", "iso-8859-1", "windows-1252", "us-ascii",
             "iso-8859-15", "koi8-r", "windows-1251", "iso-8859-2"]
NAMES = ["a.svd", "a b.svd", "\u00e9\u4e2d.svd", "100%.svd", "x#y.svd", "a&b.svd", "[1].svd", "%41.svd", "noext", "a+b?.svd", "~x.svd"]
REQUIRED = [*("enc:" + e for e in ENCODINGS), "parse", "process", "map", "validate", "file", "content", "str", "str-declared",
            "str-bom", "refused-alike", "mismatch:refused", "mismatch:fallback", "mismatch:fallback-as-announced", "external",
            "external-dtd", "internal-entity", "no-document", "late-declaration", "mismatch:fallback-utf-8", "process-refused", "non-ascii"]

WAYS = {
    "parse": (lambda f: observe.parsed(env.Parser.from_svd_file(f).get_parsed_device()),
              lambda c: observe.parsed(env.Parser.from_xml_content(c).get_parsed_device()),
              lambda s: observe.parsed(env.Parser.from_xml_str(s).get_parsed_device())),
    "process": (lambda f: observe.processed(env.Process.from_svd_file(f).get_processed_device()),
                lambda c: observe.processed(env.Process.from_xml_content(c).get_processed_device()),
                lambda s: observe.processed(env.Process.from_xml_str(s).get_processed_device())),
    "map": (lambda f: mapped(env.PeripheralRegisterMap.from_svd_file(f)),
            lambda c: mapped(env.PeripheralRegisterMap.from_xml_content(c)),
            lambda s: mapped(env.PeripheralRegisterMap.from_xml_str(s))),
    "validate": (lambda f: env.Validator.validate_xml_file(f, False),
                 lambda c: env.Validator.validate_xml_content(c, False),
                 lambda s: env.Validator.validate_xml_str(s, False)),
}


def mapped(m):
    return [(p.name, p.description, p.address, p.allocated_range, [(r.name, r.address, r.description) for r in p.registers])
            for p in m.peripheral_map]


class Dir:
    """Scratch directory of one case."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="svdmon-c20-")
        return self

    def put(self, name, content):
        p = os.path.join(self.path, name)
        with open(p, "wb") as f:
            f.write(content)
        return p

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)


def body(doc, rng):
    lex = emit.Lex(rng, shuffle=rng.random() < 0.3) if rng.random() < 0.4 else None
    return emit.to_xml(doc, lex, declaration="")


def carry(text, enc, rng):
    """The document's bytes in an encoding, properly declared."""
    q = rng.choice("'\"")

    def decl(name):
        return f"<?xml version={q}1.0{q} encoding={q}{name}{q}?>\n"
    if enc == "utf-8":
        return (decl(rng.choice(["utf-8", "UTF-8"])) + text).encode()
    if enc == "utf-8-sig":
        return b"\xef\xbb\xbf" + (rng.choice([decl("utf-8"), "", f"<?xml version={q}1.0{q}?>"]) + text).encode()
    if enc == "utf-8-bare":
        return (rng.choice(["", f"<?xml version={q}1.0{q}?>"]) + text).encode()
    if enc == "utf-16":
        return (rng.choice([decl("UTF-16"), decl("utf-16"), ""]) + text).encode("utf-16")
    if enc == "utf-16-le":
        return b"\xff\xfe" + (decl("UTF-16") + text).encode("utf-16-le")
    if enc == "utf-16-be":
        return b"\xfe\xff" + (decl("UTF-16") + text).encode("utf-16-be")
    name = enc if rng.random() < 0.5 else enc.upper()
    return (decl(name) + text).encode(enc, "xmlcharrefreplace")


def same(call):
    """Comparable outcome; how a fallback is worded depends on the entry point."""
    return (call.exc_name, sorted(w for w in call.warnings if "fallback encoding" not in w[1]), call.value)


def announced(call):
    for c, m in call.warnings:
        x = re.search(r"fallback encoding '([^']+)' with recover=(\w+)", m)
        if c == "ParserWarning" and x:
            return x[1], x[2] == "True"
    return None


def carried(rng, ctx, doc, way, d):
    text = body(doc, rng)
    enc = rng.choice(ENCODINGS)
    if re.search(r"<!\[CDATA\[|<!--|<\?", text) and enc not in ENCODINGS[:6]:
        text = emit.to_xml(doc, None, declaration="")
    data = carry(text, enc, rng)
    path = d.put(rng.choice(NAMES), data)
    by_file, by_content, by_str = WAYS[way]
    pre = rng.choice(["", "", "<?xml version='1.0'?>", '<?xml version="1.0" encoding="utf-8"?>', "<?xml version='1.0' encoding='UTF-16'?>\n",
                      "<?xml version='1.0' encoding='iso-8859-1' standalone='yes'?>", "<?xml version=\"1.0\" encoding='us-ascii'?>",
                      "<?xml version='1.0'  encoding = 'windows-1252' ?>\n", "<?xml version='1.0' encoding='no-such-code'?>",
                      "<?xml version='1.0' encoding='utf-8'\n?>"])
    if "encoding" in pre:
        ctx.count("str-declared")
    if rng.random() < 0.1:
        pre = "\ufeff" + pre
        ctx.count("str-bom")
    a = observe.Call(lambda: by_content(data))
    b = observe.Call(lambda: by_file(path))
    c = observe.Call(lambda: by_str(pre + text))
    # the same document without any encoding question
    plain = observe.Call(lambda: by_content(("<?xml version='1.0' encoding='utf-8'?>" + text).encode())) if way != "parse" else None
    if way == "parse":
        for name, call in (("content", a), ("file", b), ("str", c)):
            if call.exc is not None:
                return ctx.fail(f"{enc} document not read from {name}: {call!r} (text starts {pre!r})", xml=text, path=path)
            f = observe.diff(spec.normal(doc), call.value)
            if f:
                return ctx.fail(f"{enc} document misread from {name} (text starts {pre!r}): {f[:3]}", xml=text, path=path)
            if announced(call):
                return ctx.fail(f"proper {enc} document read through a fallback from {name}", xml=text)
            ctx.count(name)
    else:
        for name, call in (("content", a), ("file", b), ("str", c)):
            if (call.exc_name, call.value) != (plain.exc_name, plain.value):
                return ctx.fail(f"{way} of the {enc} document from {name} (text starts {pre!r}) gives {call!r} instead of "
                                f"{plain!r}: {observe.diff(plain.value, call.value)[:3]}", xml=text, path=path)
            ctx.count(name)
        if plain.exc is not None:
            ctx.count("process-refused")
    if not same(a) == same(b) == same(c):
        return ctx.fail(f"{way}: warnings differ between entry points: {[w for w in (same(a)[1], same(b)[1], same(c)[1])]}"[:900], xml=text)
    ctx.count("enc:" + enc)
    ctx.count(way)
    if not text.isascii():
        ctx.count("non-ascii")
        ctx.seen(text, enc, way)
        ctx.sample(f"{enc}: {text}")
    return None


def refused(rng, ctx, doc, way, d):
    """Damaged documents fail alike."""
    good = emit.to_xml(doc)
    if way == "parse" and rng.random() < 0.5:
        _, bad, _ = (c16.remove if rng.random() < 0.5 else c16.scalar)(rng, c17.Null(), doc)
    else:
        bad = c16.markup(rng, good)
    if rng.random() < 0.15:
        bad = rng.choice(["", " ", "\n\n", "hello", "<", "<device", "<?xml version='1.0'?>", "<!-- -->", "{}", "&", "<>", "]]>", "\x00",
                          "<device/>", "<device></device>", "<other/>", "<other><name>x</name></other>", "\ufeff", "<a/><b/>"])
        ctx.count("no-document")
    elif rng.random() < 0.3:
        # a declaration has to come first
        bad = rng.choice(["\n", " ", "\n\n", "\t\r\n", "<!-- c -->", "x"]) + (good if rng.random() < 0.7 else bad)
        ctx.count("late-declaration")
    data = bad.encode()
    by_file, by_content, by_str = WAYS[way]
    path = d.put("x.svd", data)
    out = [observe.Call(lambda: by_file(path)), observe.Call(lambda: by_content(data)), observe.Call(lambda: by_str(bad))]
    if [o.exc_name for o in out] != [out[0].exc_name] * 3 or [o.value for o in out] != [out[0].value] * 3:
        return ctx.fail(f"{way} of a damaged document: file {out[0]!r}, content {out[1]!r}, str {out[2]!r}", xml=bad)
    said = [announced(o) for o in out]
    if said != [said[0]] * 3:
        return ctx.fail(f"{way} of a damaged document is announced as read through {said[0]} from a file, {said[1]} from content and "
                        f"{said[2]} from text", xml=bad)
    if out[0].exc is not None:
        ctx.count("refused-alike")
        ctx.seen("refused", bad)
    return None


def kind(call):
    """lxml reports undecodable bytes of a file as an error of reading it."""
    return "XMLSyntaxError" if isinstance(call.exc, OSError) and "Error reading file" in str(call.exc) else call.exc_name


def mismatch(rng, ctx, doc, d):
    """Bytes that are not what they declare."""
    text = emit.to_xml(doc, None, declaration="")
    actual = rng.choice(["utf-8", "iso-8859-1", "windows-1252", "utf-16-le", "utf-16-be", "koi8-r", "utf-16"])
    declared = rng.choice(["utf-8", "us-ascii", "utf-16", None, "no-such-code", "iso-8859-1", "utf-8"])
    head = f"<?xml version='1.0' encoding='{declared}'?>\n" if declared else ""
    data = (head + text).encode(actual, "xmlcharrefreplace")
    if rng.random() < 0.2:
        i = rng.randrange(len(data) // 2, len(data))
        data = data[:i] + rng.choice([b"\xff", b"\xc3", b"\xe9", b"\x80", b"\xed\xa0\x80", b"\x00", b"\xf5"]) + data[i:]
    path = d.put("x.svd", data)
    a = observe.Call(lambda: WAYS["parse"][1](data))
    b = observe.Call(lambda: WAYS["parse"][0](path))
    if kind(a) != kind(b) or a.value != b.value or announced(a) != announced(b):
        return ctx.fail(f"{actual} bytes declared {declared}: content {a!r} {announced(a)}, file {b!r} {announced(b)}; "
                        f"{observe.diff(a.value, b.value)[:3]}", data=data)
    if a.exc is not None:
        return ctx.count("mismatch:refused")
    if observe.diff(spec.normal(doc), a.value) == []:
        if announced(a) == ("utf-8", False):
            ctx.count("mismatch:fallback-utf-8")
        return ctx.count("mismatch:read-right")
    said = announced(a)
    if said is None:
        # silent: right only if the bytes are a document in the encoding they declare
        try:
            t = data.decode(declared or "utf-8")
        except (UnicodeError, LookupError):
            return ctx.fail(f"{actual} bytes declared {declared} were misread without a warning: "
                            f"{observe.diff(spec.normal(doc), a.value)[:3]}", data=data)
        c = observe.Call(lambda: WAYS["parse"][2](t))
        if c.exc is not None or c.value != a.value:
            return ctx.fail(f"{actual} bytes declared {declared} are not read as declared", data=data)
        return ctx.count("mismatch:as-declared")
    ctx.count("mismatch:fallback")
    if not said[1]:
        if said[0] != "utf-8":
            try:
                t = re.sub(r"^\ufeff?<\?xml.*?\?>", "", data.decode("utf-8"), flags=re.S)
                if observe.Call(lambda: lxml.etree.fromstring(t)).exc is None:
                    return ctx.fail(f"UTF-8 bytes declared {declared} are read as {said[0]}", data=data)
            except UnicodeError:
                pass
        try:
            t = data.decode(said[0])
        except UnicodeError:
            return None
        c = observe.Call(lambda: WAYS["parse"][2](re.sub(r"^\ufeff?<\?xml.*?\?>", "", t, flags=re.S)))
        if c.exc is not None or c.value != a.value:
            return ctx.fail(f"{actual} bytes declared {declared}: said to be read as {said[0]}, but they were not: {c!r} "
                            f"{observe.diff(c.value, a.value)[:3]}", data=data)
        ctx.count("mismatch:fallback-as-announced")
    ctx.seen("mismatch", data)
    return None


SECRET = "TOPSECRET4711"


def external(rng, ctx, doc, way, d):
    """References to files outside the document."""
    secret = d.put("secret.txt", SECRET.encode())
    dtd = d.put("secret.dtd", f'<!ATTLIST register derivedFrom CDATA "{SECRET}"><!ATTLIST device vendor CDATA "{SECRET}">'
                              f'<!ENTITY leak "{SECRET}"><!ATTLIST device schemaVersion CDATA "{SECRET}">'.encode())
    url = rng.choice(["file://" + secret, secret, "secret.txt"])
    durl = rng.choice(["file://" + dtd, dtd, "secret.dtd"])
    how = rng.randrange(5)
    doc = dict(doc, description="before @@ after", vendor="V@@")
    text = emit.to_xml(doc, None, declaration="")
    if how == 0:
        x = f'<!DOCTYPE device [<!ENTITY leak SYSTEM "{url}">]>\n' + text.replace("@@", "&leak;")
    elif how == 1:
        x = f'<!DOCTYPE device SYSTEM "{durl}">\n' + text.replace("@@", rng.choice(["&leak;", ""]))
    elif how == 2:
        x = f'<!DOCTYPE device [<!ENTITY % p SYSTEM "{durl}"> %p;]>\n' + text.replace("@@", rng.choice(["&leak;", ""]))
    elif how == 3:
        x = text.replace("before @@ after", f'<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="{url}" parse="text"/>')
        x = x.replace("@@", "")
    else:
        x = '<!DOCTYPE device [<!ENTITY leak "inside &amp; more">]>\n' + text.replace("@@", "&leak;")
    data = x.encode()
    path = d.put("x.svd", data)
    by_file, by_content, by_str = WAYS[way]
    here = os.getcwd()
    os.chdir(d.path)
    try:
        out = [observe.Call(lambda: by_file(path)), observe.Call(lambda: by_content(data)), observe.Call(lambda: by_str(x))]
    finally:
        os.chdir(here)
    for o in out:
        if SECRET in repr(o.value):
            return ctx.fail(f"{way} pulled an external file into the result", xml=x)
    if how == 4:
        ctx.count("internal-entity")
        if way == "parse" and [o.value and (o.value["description"], o.value["vendor"]) for o in out] != [
                ("before inside & more after", "Vinside & more")] * 3:
            return ctx.fail(f"an entity declared inside the document is not expanded: {out}", xml=x)
    if [o.exc_name for o in out] != [out[0].exc_name] * 3 or [o.value for o in out] != [out[0].value] * 3:
        return ctx.fail(f"{way}, external reference form {how}: file {out[0]!r}, content {out[1]!r}, str {out[2]!r}", xml=x)
    ctx.count("external" if how in (0, 3) else "external-dtd")
    ctx.seen("external", how, x)
    return None


def case(rng, ctx):
    pick = rng.random()
    way = rng.choice(["parse", "parse", "process", "map", "validate"])
    with Dir() as d:
        if pick < 0.6:
            if way == "parse":
                doc = raw.device(rng, p=0.5, width=(0, 2), depth=1, text=rng.choice(["nasty", "latin"]))
            elif way == "validate":
                doc = raw.device(rng, p=0.3, width=(0, 2), depth=1, schema=True, text=rng.choice(["nasty", "latin"]))
                if rng.random() < 0.5:
                    doc["description"] = raw.Raw(rng, text="latin").text()
            else:
                doc, _ = gen.make(rng, **profiles.NASTY, peripherals=(1, 3), rcs=(1, 3), depth=1)
                if rng.random() < 0.2:
                    c15.breakit(rng, doc, c17.Null())
            carried(rng, ctx, doc, way, d)
        elif pick < 0.72:
            doc = raw.tame(raw.device(rng, p=0.5, width=(1, 2), depth=1, text="plain"))
            refused(rng, ctx, doc, way, d)
        elif pick < 0.9:
            mismatch(rng, ctx, raw.device(rng, p=0.4, width=(0, 2), depth=0, text="latin"), d)
        else:
            external(rng, ctx, raw.tame(raw.device(rng, p=0.4, width=(0, 2), depth=0, text="plain")), way, d)
