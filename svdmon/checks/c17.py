import hashlib
import os
import random
import re
import shutil
import sys
import tempfile
import threading
import time
import warnings

from .. import emit, env, gen, observe, profiles, raw, replica, state
from . import c15, c20

ID = "C17"
RULE = ("random documents, valid and refused, through parsing, processing, converting, mapping, serializing and validating; "
        "monitors: object-graph snapshots (values, aliasing, parents) of every input before and after each call, disjointness "
        "of the mutable objects of two results, repetition, comparison with replica interpreters with other hash seeds, one "
        "of them forked fresh for every request and one with a past of its own, and concurrent threads with forced switches "
        "at random library lines compared with the same calls alone; non-trivial: a document with several elements")
CASES = {"quick": 1600, "thorough": 40000}
ASSUMPTIONS = ["thread schedules are those CPython and the injected switches produce; they are counted, not enumerated"]
REQUIRED = ["pure:process", "pure:process-refused", "pure:map", "pure:convert", "pure:serialize", "pure:serialize-converted",
            "disjoint", "repeat", "fresh-replica", "old-replica", "threads", "threads:shared-input", "switches",
            "history", "with-warnings", "refused", "converted-convert",
            "file-again", "file-again:same-size", "file-again:same-time"]
OPS = replica.operations()
_replicas = {}
TOOL = 4


PATTERNS = dict(p_enum=0.9, p_wild=0.8, enums=(1, 6), fields=(1, 4), depth=1, p_derive=0.1, p_default=0.4)


def document(rng):
    how = rng.random()
    if how > 0.93:
        return gen.make(rng, **PATTERNS)[0]
    if how < 0.15:
        return raw.tame(raw.device(rng, p=0.4, width=(0, 2), depth=1))
    doc, _ = gen.make(rng, **profiles.mixed(rng))
    if how < 0.35:
        c15.breakit(rng, doc, Null())
    return doc


def written(rng, doc):
    """Half of the documents are spelled in ways that make the parser warn."""
    if rng.random() < 0.5:
        return emit.to_xml(doc).encode()
    return emit.to_xml(doc, emit.Lex(rng, dups=True, attr_space=rng.random() < 0.5, vendor=True)).encode()


class Null:
    def count(self, *_):
        pass


def replicas(ctx):
    if os.getpid() not in _replicas:
        _replicas.clear()
        rng = random.Random(f"{ctx.seed}:{ctx.index}")
        _replicas[os.getpid()] = [replica.Replica(rng.randrange(1, 2 ** 32), True), replica.Replica(rng.randrange(1, 2 ** 32), False)]
    return _replicas[os.getpid()]


def unchanged(ctx, what, before, root, xml):
    after = state.snapshot(root)[1]
    if after != before[1]:
        d = [(a, b) for a, b in zip(before[1], after) if a != b][:2]
        ctx.fail(f"{what} modified its input: {len(before[1])} objects before, {len(after)} after; first: {str(d)[:600]}", xml=xml)
        return False
    ctx.count("pure:" + what)
    return True


def common(a, b, but):
    """Mutable objects reachable from both."""
    b = state.mutable(b)
    return [o for i, o in state.mutable(a).items() if i in b and i not in but]


def purity(rng, ctx, doc, xml):
    dev = observe.Call(lambda: env.Parser.from_xml_content(xml).get_parsed_device()).value
    if dev is None:
        return ctx.count("unparsed")
    first = state.snapshot(dev)
    c = observe.Call(lambda: env.Process(dev, None))
    if not unchanged(ctx, "process" if c.exc is None else "process-refused", first, dev, xml):
        return
    s = observe.Call(lambda: [env.Serializer.device_to_svd_content(dev), env.Serializer.device_to_svd_str(dev, True)])
    if not unchanged(ctx, "serialize", first, dev, xml):
        return
    c2 = observe.Call(lambda: env.Process(dev, None))
    s2 = observe.Call(lambda: [env.Serializer.device_to_svd_content(dev), env.Serializer.device_to_svd_str(dev, True)])
    a = (c.exc_name, sorted(c.warnings), c.value and observe.processed(c.value.get_processed_device()))
    b = (c2.exc_name, sorted(c2.warnings), c2.value and observe.processed(c2.value.get_processed_device()))
    if a != b or (s.exc_name, s.value) != (s2.exc_name, s2.value):
        return ctx.fail(f"repeating the call on the same device gives another result: {c!r} {c2!r} "
                        f"{observe.diff(a[2], b[2])[:3] if a[2] and b[2] else (sorted(c.warnings)[:3], sorted(c2.warnings)[:3])}", xml=xml)
    ctx.count("repeat")
    if c.exc is not None:
        return None
    p = c.value.get_processed_device()
    inputs = state.mutable(dev)
    shared = common(p, c2.value.get_processed_device(), inputs)
    if shared:
        return ctx.fail(f"two results share mutable state: {[type(o).__name__ for o in shared][:5]} {str(shared[0])[:200]}", xml=xml)
    ctx.count("disjoint")
    before = state.snapshot(p)
    m = env.PeripheralRegisterMap(p)
    if not unchanged(ctx, "map", before, p, xml):
        return None
    m2 = env.PeripheralRegisterMap(p)
    pm = state.mutable(p)
    shared = common(m.peripheral_map, m2.peripheral_map, pm)
    if shared:
        return ctx.fail(f"two maps share mutable state: {[type(o).__name__ for o in shared][:5]}", xml=xml)
    v = observe.Call(lambda: c.value.convert_processed_device_to_svd_device())
    if not unchanged(ctx, "convert", before, p, xml) or not unchanged(ctx, "process", first, dev, xml):
        return None
    if v.exc is None:
        v2 = c.value.convert_processed_device_to_svd_device()
        if observe.parsed(v.value) != observe.parsed(v2):
            return ctx.fail(f"converting twice differs: {observe.diff(observe.parsed(v.value), observe.parsed(v2))[:3]}", xml=xml)
        rest = set(pm) | set(inputs)
        shared = common(v.value, v2, rest)
        if shared:
            return ctx.fail(f"two conversions share mutable state: {[type(o).__name__ for o in shared][:5]}", xml=xml)
        ctx.count("converted-convert")
        cb = state.snapshot(v.value)
        observe.Call(lambda: env.Serializer.device_to_svd_content(v.value))
        if not unchanged(ctx, "serialize-converted", cb, v.value, xml):
            return None
        observe.Call(lambda: env.Process(v.value, None))
        if not unchanged(ctx, "process", cb, v.value, xml):
            return None
    return unchanged(ctx, "map", before, p, xml)


def replicated(rng, ctx, xml):
    op = rng.choice(list(OPS))
    call = observe.Call(lambda: OPS[op](xml))
    mine = replica.digest(call)
    again = replica.digest(observe.Call(lambda: OPS[op](xml)))
    if again != mine:
        return ctx.fail(f"{op} twice gives different results", xml=xml)
    for r in replicas(ctx):
        if r.ask(op, xml) != mine:
            return ctx.fail(f"{op} differs in a replica interpreter (hash seed {r.hashseed}, "
                            f"{'fresh state' if r.fork else 'other history'}); here: {str(replica.outcome(call))[:500]}", xml=xml)
        ctx.count("fresh-replica" if r.fork else "old-replica")
    if call.exc is not None:
        ctx.count("refused")
    if call.warnings:
        ctx.count("with-warnings")
    return None


def history(rng, ctx, xml):
    """The same call, with other calls in between."""
    op = rng.choice(list(OPS))
    first = replica.digest(observe.Call(lambda: OPS[op](xml)))
    others = []
    for _ in range(rng.randint(1, 4)):
        o = written(rng, document(rng)) if rng.random() < 0.7 else xml
        others.append(o)
        k = rng.choice(list(OPS))
        observe.Call(lambda: OPS[k](o))
    if replica.digest(observe.Call(lambda: OPS[op](xml))) != first:
        return ctx.fail(f"{op} gives another result after other calls", xml=xml, others=b"\n=====\n".join(others))
    ctx.count("history")
    return None


def of_file(path, which):
    if which == "process":
        return observe.processed(env.Process.from_svd_file(path).get_processed_device())
    if which == "map":
        return c20.mapped(env.PeripheralRegisterMap.from_svd_file(path))
    if which == "validate":
        return env.Validator.validate_xml_file(path)
    return observe.parsed(env.Parser.from_svd_file(path).get_parsed_device())


def of_bytes(data, which):
    if which == "process":
        return observe.processed(env.Process.from_xml_content(data).get_processed_device())
    if which == "map":
        return c20.mapped(env.PeripheralRegisterMap.from_xml_content(data))
    if which == "validate":
        return env.Validator.validate_xml_content(data)
    return observe.parsed(env.Parser.from_xml_content(data).get_parsed_device())


def sibling(rng, xml):
    """Another document of the same length, if there is a digit to change."""
    spots = [m.start(1) for m in re.finditer(rb"<(?:addressOffset|baseAddress|width|size|resetValue|value|version|bitOffset|name|description)>"
                                             rb"[^<]*?([0-9])</", xml)]
    if not spots:
        return xml
    at = rng.choice(spots)
    return xml[:at] + rng.choice([b for b in (b"0", b"1", b"2", b"3", b"4") if b != xml[at:at + 1]]) + xml[at + 1:]


def files(rng, ctx, xml):
    """One path, other contents: every reading is that of the bytes there now."""
    d = tempfile.mkdtemp(prefix="svdmon-c17-")
    path = os.path.join(d, "in.svd")
    try:
        stamp, size, said = None, None, []
        for i in range(rng.randint(2, 4)):
            if i:
                xml = sibling(rng, xml) if rng.random() < 0.7 else written(rng, document(rng))
            how = rng.random()
            if how < 0.3 and i:
                os.unlink(path)
            with open(path, "wb") as f:
                f.write(xml)
            if stamp is None:
                stamp = os.stat(path).st_mtime_ns
            elif rng.random() < 0.6:
                os.utime(path, ns=(stamp, stamp))
                said.append("same-time")
            if size == len(xml):
                said.append("same-size")
            size = len(xml)
            for which in rng.sample(["parse", "process", "map", "validate"], 2):
                a, b = observe.Call(lambda: of_file(path, which)), observe.Call(lambda: of_bytes(xml, which))
                if (a.exc_name, sorted(a.warnings), a.value) != (b.exc_name, sorted(b.warnings), b.value):
                    return ctx.fail(f"{which} of a file written {i + 1} times gives {a!r} instead of {b!r}", xml=xml)
        ctx.count("file-again")
        for s in said:
            ctx.count("file-again:" + s)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None


class Switcher:
    """Forces thread switches at random lines of the library and records the order in which threads ran."""

    def __init__(self, seed, rate):
        self.rng, self.rate = random.Random(seed), rate
        self.log = []
        self.switches = 0
        self.last = None

    def _line(self, code, _no):
        if not code.co_filename.startswith(env.SRC):
            return sys.monitoring.DISABLE
        me = threading.get_ident()
        if me != self.last:
            self.last = me
            self.log.append(me)
            self.switches += 1
        if self.rng.random() < self.rate:
            time.sleep(0 if self.rng.random() < 0.7 else 0.0002)
        return None

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "svdmon-switch")
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        mon.set_events(TOOL, mon.events.LINE)
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(2e-5)
        return self

    def __exit__(self, *_):
        mon = sys.monitoring
        sys.setswitchinterval(self.interval)
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
        mon.restart_events()


def threads(rng, ctx, xmls):
    """Concurrent calls against the same calls alone."""
    jobs = []
    shared = rng.random() < 0.4
    if shared:
        dev = observe.Call(lambda: env.Parser.from_xml_content(xmls[0]).get_parsed_device()).value
        if dev is None:
            return ctx.count("unparsed")
        before = state.snapshot(dev)
        ops = [lambda: observe.processed(env.Process(dev, None).get_processed_device()),
               lambda: env.Serializer.device_to_svd_content(dev),
               lambda: observe.parsed(env.Process(dev, None).convert_processed_device_to_svd_device())]
        jobs = [rng.choice(ops) for _ in range(4)]
        jobs[0], jobs[1] = ops[0], ops[0]
    else:
        for x in xmls:
            op = OPS[rng.choice(["process", "process", "process", "parse", "convert", "map", "serialize", "validate"])]
            jobs.append(lambda op=op, x=x: op(x))
        jobs.append(jobs[0])
    alone = [observe.Call(j) for j in jobs]
    texts = {}
    results = [None] * len(jobs)

    def show(message, category, *_a, **_k):
        texts.setdefault(threading.get_ident(), []).append((category.__name__, str(message)))

    barrier = threading.Barrier(len(jobs))

    def run(i):
        barrier.wait()
        try:
            results[i] = (None, jobs[i]())
        except Exception as e:  # noqa: BLE001
            results[i] = (type(e).__name__, None)
        results[i] = (*results[i], sorted(texts.pop(threading.get_ident(), [])))

    with warnings.catch_warnings():
        warnings.simplefilter("always")
        warnings.showwarning = show
        with Switcher(rng.random(), rng.choice([0.003, 0.02])) as sw:
            ts = [threading.Thread(target=run, args=(i,)) for i in range(len(jobs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    for i, (c, r) in enumerate(zip(alone, results)):
        if (c.exc_name, c.value, sorted(c.warnings)) != (r[0], r[1], r[2]):
            return ctx.fail(f"call {i} of {len(jobs)} differs when run concurrently: alone {c.exc_name}, concurrent {r[0]}; "
                            f"{str([w for w in r[2] if w not in c.warnings][:2] + [w for w in c.warnings if w not in r[2]][:2])[:500]}"
                            f" {observe.diff(c.value, r[1])[:3] if c.value and r[1] else ''}",
                            xml=b"\n=====\n".join(xmls))
    if shared and not unchanged(ctx, "threads:shared-input", before, dev, xmls[0]):
        return None
    if shared:
        ctx.count("threads:shared-input")
    ctx.count("threads")
    ctx.count("switches", sw.switches)
    order = {}
    ctx.seen("interleaving", hashlib.blake2b(bytes(order.setdefault(t, len(order)) for t in sw.log), digest_size=8).digest())
    return None


WARMED = set()


def past(rng, ctx):
    """Gives this process a past: many different documents."""
    if os.getpid() in WARMED:
        return
    WARMED.add(os.getpid())
    for _ in range(60):
        xml = emit.to_xml(gen.make(rng, **PATTERNS)[0] if rng.random() < 0.4 else document(rng)).encode()
        op = rng.choice(["process", "convert", "map", "serialize"])
        observe.Call(lambda: OPS[op](xml))
        ctx.count("past")


def case(rng, ctx):
    past(random.Random(f"past:{ctx.seed}:{ctx.index % 64}"), ctx)
    doc = document(rng)
    xml = written(rng, doc)
    ctx.seen(xml)
    ctx.sample(xml.decode())
    pick = rng.random()
    if pick < 0.35:
        purity(rng, ctx, doc, xml)
    elif pick < 0.7:
        replicated(rng, ctx, xml)
    elif pick < 0.8:
        history(rng, ctx, xml)
    elif pick < 0.87:
        files(rng, ctx, xml)
    else:
        threads(rng, ctx, [xml] + [written(rng, document(rng)) for _ in range(rng.randint(1, 3))])
