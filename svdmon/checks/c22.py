import base64
import gc
import gzip
import os
import re
import shutil
import tempfile

from .. import drawing  # noqa: I001 - before the library
from .. import emit, env, gen, observe, profiles, raw
from . import c04, c15, c16, c17, c20, c21

ID = "C22"
RULE = ("random documents, valid, refused by parser or processing and with unresolvable, circular or looping derivations, with "
        "names of all kinds of characters, processed or mapped through every entry point once without a log, when the drawing "
        "backend refuses to draw, and once with a log requested over nothing or an existing file, through odd names, relative "
        "paths and links; monitors: results, warnings and exceptions of both, the decoded log, directory census, audit hook on "
        "file operations, open descriptors; most graphs are read by a strict DOT grammar, some drawn by Graphviz; non-trivial: "
        "a log was judged")
CASES = {"quick": 2900, "thorough": 60000}
ASSUMPTIONS = ["the drawing backend is present: Graphviz for a part of the cases, elsewhere a reader of its input language; "
               "Pillow, which the drawing library wants but never uses here, is pretended to be there",
               "the requested path can be written"]
REQUIRED = ["logged:ok", "logged:ProcessException", "logged:unprocessed", "logged:cycle", "entry:file", "entry:content", "entry:str",
            "entry:constructor", "entry:orphans", "entry:map-file", "entry:map-content", "entry:map-str", "parser-refused", "nasty-names",
            "over-existing", "relative", "through-link", "with-warnings", "drawn", "backend:real", "backend:stub", "not-rewritten",
            "rounds:several", "twisted", "pictured-nodes", "pictured-edges", "over-another-log"]
NAMES = ["log.html", "a b.html", "\u00e9\u4e2d.html", "100%.html", "x#y", "noext", "log.svd"]
NASTY = ['a"b', "a\\", 'a\\"', "a&b", "<b>", "a;}", "a\\N", "%s", "{0}", "\u00e9\u4e2d", "]]>", "BODY_CONTENT", "SVG_CONTENT", "\\", '"', "'",
         "COMPRESSED_DATA", "a\u2028b", "-->", "[label=\"x\"]"]


def rename(rng, doc):
    """Give some elements names no schema would allow."""
    names = {}

    def walk(v):
        if isinstance(v, dict):
            n = v.get("name")
            if isinstance(n, str) and rng.random() < 0.3 and "%s" not in n:
                names[n] = n + rng.choice(NASTY) if rng.random() < 0.7 else rng.choice(NASTY)
                v["name"] = names[n]
            for x in v.values():
                walk(x)
        elif isinstance(v, (list, tuple)):
            for x in v:
                walk(x)

    def paths(v):
        if isinstance(v, dict):
            d = v.get("derived_from")
            if isinstance(d, str):
                v["derived_from"] = ".".join(names.get(x, x) for x in d.split("."))
            for x in v.values():
                paths(x)
        elif isinstance(v, (list, tuple)):
            for x in v:
                paths(x)
    walk(doc.get("peripherals") or [])
    paths(doc.get("peripherals") or [])
    return bool(names)


def twist(rng, doc):
    """Derivations that may not resolve."""
    found = []

    def walk(v, path):
        if isinstance(v, dict):
            if "name" in v:
                path = [*path, str(v["name"])]
                found.append((v, path))
            for x in v.values():
                walk(x, path)
        elif isinstance(v, (list, tuple)):
            for x in v:
                walk(x, path)
    walk(doc.get("peripherals") or [], [])
    for _ in range(rng.randint(1, 3)):
        if len(found) < 2:
            return
        (a, pa), (_, pb) = rng.choice(found), rng.choice(found)
        a["derived_from"] = rng.choice([".".join(pb), pb[-1], pa[-1], "Nowhere", ".".join(pa), pb[0]])


def document(rng, ctx):
    how = rng.random()
    if how < 0.12:
        doc = raw.tame(raw.device(rng, p=0.4, width=(0, 2), depth=1))
    else:
        doc, _ = gen.make(rng, **profiles.mixed(rng))
        if how < 0.3:
            c15.breakit(rng, doc, c17.Null())
        elif how < 0.5:
            twist(rng, doc)
            ctx.count("twisted")
    if rng.random() < 0.35 and rename(rng, doc):
        ctx.count("nasty-names")
    return doc


def process_of(p):
    return observe.processed(p.get_processed_device())


def ways(d, data, doc_path):
    """entry point -> call(log or no log) giving what the caller sees and the objects to keep alive."""
    text = data.decode()

    def orphans(log=None):
        """A device put together by hand knows its children only."""
        dev = env.Parser.from_xml_content(data).get_parsed_device()
        for o in c04.graph(dev).values():
            if getattr(o, "parent", None) is not None:
                o.parent = None
        return env.Process(dev, log)

    def p(call):
        return lambda *log: (lambda x: (process_of(x), x))(call(*log))

    def m(call):
        return lambda *log: (lambda x: (c20.mapped(x), x))(call(*log))
    return {
        "file": p(lambda *log: env.Process.from_svd_file(doc_path, *log)),
        "content": p(lambda *log: env.Process.from_xml_content(data, *log)),
        "str": p(lambda *log: env.Process.from_xml_str(text, *log)),
        "constructor": p(lambda log=None: env.Process(env.Parser.from_xml_content(data).get_parsed_device(), log)),
        "orphans": p(orphans),
        "map-file": m(lambda *log: env.PeripheralRegisterMap.from_svd_file(doc_path, *log)),
        "map-content": m(lambda *log: env.PeripheralRegisterMap.from_xml_content(data, *log)),
        "map-str": m(lambda *log: env.PeripheralRegisterMap.from_xml_str(text, *log)),
    }


def causes(exc):
    out = []
    while exc is not None and len(out) < 8:
        out.append((type(exc).__name__, re.sub(r"0x[0-9a-f]{6,}", "0x", str(exc))))
        exc = exc.__cause__
    return out


def outcome(call):
    return (causes(call.exc), sorted(call.warnings), None if call.value is None else call.value[0])


def report(content):
    """The page packed in the log."""
    text = content.decode("utf-8")
    m = re.search(r'"([A-Za-z0-9+/=]{40,})"', text)
    if m is None:
        return text
    if len(re.findall(r'"[A-Za-z0-9+/=]{40,}"', text)) > 1 or text.lower().count("<html") != 1:
        raise ValueError("more than one page")
    return gzip.decompress(base64.b64decode(m[1])).decode("utf-8")


def judge(rng, ctx, d):
    doc = document(rng, ctx)
    data = emit.to_xml(doc).encode()
    if rng.random() < 0.06:
        data = rng.choice([lambda: data[:rng.randrange(len(data))], lambda: re.sub(rb"<name>[^<]*</name>", b"", data, count=rng.randint(1, 3)),
                           lambda: re.sub(rb"<(width|version|addressUnitBits)>[^<]*</", rb"<\1>?</", data)])()
        data = data.decode("utf-8", "ignore").encode()
    doc_path = os.path.join(d, "in.svd")
    with open(doc_path, "wb") as f:
        f.write(data)
    how, call = rng.choice(sorted(ways(d, data, doc_path).items()))
    real = len(data) < 6000 and rng.random() < 0.03
    name = rng.choice(NAMES)
    path = os.path.join(d, name)
    if rng.random() < 0.25:
        with open(path, "wb") as f:
            f.write(b"old log" * rng.choice([1, 10000]))
        ctx.count("over-existing")
    another = rng.random() < 0.25
    if another:  # the log of an earlier run, often of another document
        drawing.mode[0] = "stub"
        old = emit.to_xml(document(rng, ctx)).encode() if rng.random() < 0.8 else data
        observe.Call(lambda: env.Process.from_xml_content(old, path))
        gc.collect()
        another = os.path.lexists(path)
    link = rng.random() < 0.08
    if link:
        if os.path.lexists(path):
            os.rename(path, os.path.join(d, "real.log"))
        os.symlink("real.log", path)
        ctx.count("through-link")
    w = c21.Watch(ctx, d)
    drawing.mode[0] = "refuse"
    if how not in ("constructor", "orphans") and rng.random() < 0.5:
        plain = w(lambda: call(*rng.choice([(), (None,)])))
    else:
        plain = w(lambda: call(None))
    bad = w.faults()
    if bad:
        return ctx.fail(f"{how} without a log request: " + "; ".join(bad[:3]), xml=data)
    want = outcome(plain)
    plain = None
    gc.collect()
    way = path
    if rng.random() < 0.2:
        way = name
        ctx.count("relative")
    drawing.mode[0] = "real" if real else "stub"
    drawing.drawn.clear()
    before = dict(drawing.pictures)
    c = w(lambda: call(way))
    drawing.mode[0] = "refuse"
    got = outcome(c)
    if got != want:
        return ctx.fail(f"{how} with a log differs ({'real' if real else 'stub'} backend): exception {got[0]} instead of {want[0]}; warnings {got[1][:3]} "
                        f"instead of {want[1][:3]}; {observe.diff(want[2], got[2])[:3] if want[2] and got[2] else ''}", xml=data)
    bad = [x for x in w.faults(name) if not x.startswith("operation subprocess") and not (link and "'real.log'" in x)]
    if bad:
        return ctx.fail(f"{how} with a log: " + "; ".join(bad[:3]), xml=data)
    ctx.count("entry:" + how)
    if want[1]:
        ctx.count("with-warnings")
    if c.exc is not None and not isinstance(c.exc, env.ProcessException):
        ctx.count("parser-refused")
        return None
    now = w.after.get(name)
    if now is None or not another and now[0] == w.before.get(name, (b"",))[0]:
        return ctx.fail(f"{how}: no log at the requested path once the call ended ({c!r})", xml=data)
    try:
        page = report(now[0])
    except Exception as e:  # noqa: BLE001
        return ctx.fail(f"{how}: log cannot be read: {e!r}", xml=data)
    if "<html" not in page.lower() or "<svg" not in page.lower() or not drawing.drawn:
        return ctx.fail(f"{how}: log without a single drawn graph ({c!r}): {page[:300]!r}", xml=data)
    ctx.count("drawn", len(drawing.drawn))
    ctx.count("pictured-nodes", drawing.pictures["nodes"] - before["nodes"])
    ctx.count("pictured-edges", drawing.pictures["edges"] - before["edges"])
    if len(drawing.drawn) > 4:
        ctx.count("rounds:several")
    ctx.count("backend:" + ("real" if real else "stub"))
    names = [n for n, _ in got[0]]
    ctx.count("logged:" + (names[0] if names else "ok"))
    for n, label in (("LoopException", "loop"), ("UnprocessedNodesException", "unprocessed"), ("CycleException", "cycle")):
        if n in names:
            ctx.count("logged:" + label)
    if another:
        drawing.mode[0] = "real" if real else "stub"
        fresh = os.path.join(d, "fresh.html")
        c = observe.Call(lambda: call(fresh))
        gc.collect()
        drawing.mode[0] = "refuse"
        with open(fresh, "rb") as f:
            alone = report(f.read())
        os.unlink(fresh)
        if alone != page:
            return ctx.fail(f"{how}: the log written over the log of another run is another than a log alone: {len(page)} characters instead of {len(alone)}", xml=data)
        ctx.count("over-another-log")
    # a log once written stays as it is, whatever becomes of the objects
    os.unlink(path)
    c = None
    gc.collect()
    if os.path.lexists(path) or set(c21.census(d)) - set(w.after):
        return ctx.fail(f"{how}: the log was written again when the result was given up", xml=data)
    ctx.count("not-rewritten")
    ctx.sample(data.decode()[:1500])
    return ctx.seen(how, page)


def case(rng, ctx):
    d = tempfile.mkdtemp(prefix="svdmon-c22-")
    here = os.getcwd()
    os.chdir(d)
    try:
        judge(rng, ctx, d)
    finally:
        drawing.mode[0] = "refuse"
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
