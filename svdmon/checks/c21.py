import gc
import os
import resource
import shutil
import signal
import sys
import tempfile
import warnings

from .. import emit, env, gen, observe, profiles, raw
from . import c15, c16, c17

ID = "C21"
RULE = ("random devices, intact and with one member replaced by something that may not be serializable (wrong types, missing "
        "mandatory values, characters XML cannot carry), written over nothing, an existing file, a longer file, through odd "
        "names and links, into missing directories, onto directories and against a file size limit; and files, "
        "valid or damaged, read, processed, mapped and validated; monitors: directory census with contents, open descriptors, "
        "an audit hook on every file operation, unclosed-file warnings; non-trivial: a file operation was judged")
CASES = {"quick": 48000, "thorough": 150000}
REQUIRED = ["written:new", "written:over", "unserializable:new", "unserializable:over", "fault:size-limit", "fault:size-limit:nothing", "fault:size-limit:last-byte",
            "fault:directory", "fault:missing-directory", "fault:open", "read:parse", "read:process", "read:map", "read:validate", "read:refused",
            "audit-events", "written:pretty", "written:no-declaration", "over:same-size", "over:same", "over:longer", "through-link", "content-and-str"]
NAMES = ["a.svd", "b c.svd", "\u00e9\u4e2d.svd", "100%.svd", "x#y", "noext", "a.tmp", "a.svd.bak"]

_events = []
_recording = [False]
MUTATING = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink", "os.chmod", "os.chown", "os.utime",
            "shutil.copyfile", "shutil.move", "shutil.rmtree", "tempfile.mkstemp", "tempfile.mkdtemp", "subprocess.Popen", "os.system",
            "socket.connect", "os.exec", "os.fork", "os.posix_spawn"}


def _hook(event, args):
    if _recording[0]:
        if event == "open":
            path, mode, flags = args
            writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)) if isinstance(flags, int) else True
            _events.append(("write" if writing else "read", path if isinstance(path, (str, bytes, int)) else repr(path)))
        elif event in MUTATING:
            _events.append((event, str(args)[:120]))


_installed = []


def descriptors():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[f] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return out


def census(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(base, x), d)] = "dir"
        for x in files:
            p = os.path.join(base, x)
            st = os.lstat(p)
            if not os.path.exists(p):
                out[os.path.relpath(p, d)] = (b"", st.st_ino, st.st_mode)
                continue
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = (f.read(), st.st_ino, st.st_mode)
    return out


class Watch:
    """Runs a call in the scratch directory and observes everything it does to files."""

    def __init__(self, ctx, d):
        self.ctx, self.d = ctx, d

    def __call__(self, fn):
        if not _installed:
            sys.addaudithook(_hook)
            _installed.append(1)
        _events.clear()
        self.fds = descriptors()
        self.before = census(self.d)
        gc.disable()
        with warnings.catch_warnings(record=True) as left:
            warnings.simplefilter("ignore")
            warnings.simplefilter("always", ResourceWarning)
            _recording[0] = True
            try:
                call = observe.Call(fn)
            finally:
                _recording[0] = False
        self.left = [str(w.message) for w in left if w.category is ResourceWarning]
        self.left += [m for c, m in call.warnings if c == "ResourceWarning"]
        gc.enable()
        self.events = list(_events)
        self.after = census(self.d)
        self.fds_after = descriptors()
        self.ctx.count("audit-events", len(self.events))
        return call

    def faults(self, target=None):
        """Everything touched beyond the target."""
        out = []
        if {k: v for k, v in self.fds_after.items() if self.fds.get(k) != v}:
            out.append(f"left open: {[v for k, v in self.fds_after.items() if self.fds.get(k) != v]}")
        if self.left:
            out.append(f"unclosed: {self.left[:2]}")
        for k in {*self.before, *self.after}:
            if k != target and self.before.get(k) != self.after.get(k):
                out.append(f"other file touched: {k!r} {'created' if k not in self.before else 'removed' if k not in self.after else 'changed'}")
        # how a file comes about is free (a temporary one may be renamed); what stays behind counts
        for kind, what in self.events:
            if kind == "write" and isinstance(what, (str, bytes)):
                what = os.path.abspath(os.fsdecode(what))
                if not what.startswith(self.d + "/") and os.path.lexists(what) and not os.path.isdir(what):
                    out.append(f"wrote {what!r}")
            elif kind in ("os.system", "subprocess.Popen", "os.exec", "os.posix_spawn", "socket.connect"):
                out.append(f"operation {kind} {what!r}")
        return out


BAD = [None, 5, 5.5, "text", b"bytes", "\x00", "a\x01b", "\ud800", "\ufffe", "\x0b", object(), [], [None], {}, ["x"], -1, True, type, "\uffff",
       10 ** 5000]


def spoil(rng, dev):
    """Replace one member somewhere."""
    objs = list(observe.objects(dev))
    o = rng.choice(objs)
    a = rng.choice(sorted(k for k in vars(o) if k != "parent"))
    v = rng.choice(BAD)
    setattr(o, a, v)
    return f"{type(o).__name__}.{a} = {type(v).__name__} {str(v)[:20]!r}"[:80] if v != 10 ** 5000 else f"{type(o).__name__}.{a} = huge"


def device(rng):
    if rng.random() < 0.7:
        return observe.build(raw.device(rng, p=rng.choice([0.2, 0.6]), width=(0, 2), depth=1, text=rng.choice(["plain", "nasty"])))
    doc, _ = gen.make(rng, **rng.choice([{}, profiles.NASTY]), peripherals=(1, 2), rcs=(1, 3))
    return env.Parser.from_xml_content(emit.to_xml(doc).encode()).get_parsed_device()


def write(rng, ctx, d):
    dev = device(rng)
    spoilt = None
    if rng.random() < 0.55:
        spoilt = spoil(rng, dev)
    opt = {}
    if rng.random() < 0.5:
        opt["pretty_print"] = rng.random() < 0.5
    if rng.random() < 0.5:
        opt["xml_declaration"] = rng.random() < 0.5
    name = rng.choice(NAMES)
    path = os.path.join(d, name)
    existing = None
    if rng.random() < 0.6:
        existing = rng.choice([b"old", b"<device/>", b"x" * rng.choice([10, 100000]), b""])
        if rng.random() < 0.5:
            now = observe.Call(lambda: env.Serializer.device_to_svd_content(dev, **opt)).value
            if now:
                # what an earlier version of the same device left: as long, nearly as long, or the same
                at = rng.randrange(len(now))
                existing, kind = rng.choice([(now[:at] + bytes([now[at] ^ 1]) + now[at + 1:], "same-size"), (now, "same"),
                                             (now[:-1], "shorter"), (now + b"\n", "longer"), (now[:at], "cut")])
                ctx.count("over:" + kind)
        with open(path, "wb") as f:
            f.write(existing)
    with open(os.path.join(d, "bystander.svd"), "wb") as f:
        f.write(b"<bystander/>")
    if rng.random() < 0.2 and existing is not None:
        os.rename(path, os.path.join(d, "real"))
        os.symlink("real", path)
        ctx.count("through-link")
    w = Watch(ctx, d)
    c = w(lambda: env.Serializer.device_to_svd_content(dev, **opt))
    s = observe.Call(lambda: env.Serializer.device_to_svd_str(dev))
    f = w.faults()
    if f:
        return ctx.fail("serializing to bytes: " + "; ".join(f[:3]))
    ctx.count("content-and-str")
    if (c.exc is None) != (s.exc is None):
        return ctx.fail(f"bytes and text output disagree on {spoilt}: {c!r} {s!r}")
    way = rng.choice([path, path, name])
    k = w(lambda: env.Serializer.device_to_svd_file(way, dev, **opt))
    f = w.faults(name if not os.path.islink(path) else None)
    if os.path.islink(path):
        f = [x for x in f if "'real'" not in x and name not in x and repr(name) not in x]
    if f:
        return ctx.fail(f"writing a file ({spoilt}): " + "; ".join(f[:3]))
    state = "over" if existing is not None else "new"
    if c.exc is None:
        if k.exc is not None:
            return ctx.fail(f"device that serializes to bytes not written: {k!r} ({spoilt})")
        with open(path, "rb") as fh:
            got = fh.read()
        if got != c.value:
            return ctx.fail(f"the file differs from the serialized document ({len(got)} bytes instead of {len(c.value)}, {opt})", got=got[:500], want=c.value[:500])
        ctx.count("written:" + state)
        if opt.get("pretty_print"):
            ctx.count("written:pretty")
        if opt.get("xml_declaration") is False:
            ctx.count("written:no-declaration")
        ctx.seen("written", got)
        return None
    if k.exc is None:
        return ctx.fail(f"device that cannot be serialized ({spoilt}, {c!r}) was written as a file")
    if existing is None and os.path.lexists(path):
        return ctx.fail(f"a file was created although the device cannot be serialized ({spoilt})")
    if existing is not None:
        with open(path, "rb") as fh:
            got = fh.read()
        if got != existing:
            return ctx.fail(f"an existing file was destroyed by a device that cannot be serialized ({spoilt}): {got[:60]!r}")
    ctx.count("unserializable:" + state)
    return ctx.seen("unserializable", spoilt, state)


def fault(rng, ctx, d):
    """I/O errors must reach the caller and leave nothing else behind."""
    dev = device(rng)
    how = rng.choice(["size-limit", "size-limit", "directory", "missing-directory", "open"])
    target = "t.svd"
    path = os.path.join(d, target)
    with open(os.path.join(d, "bystander.svd"), "wb") as f:
        f.write(b"<bystander/>")
    if rng.random() < 0.5:
        with open(path, "wb") as f:
            f.write(b"old content")
    w = Watch(ctx, d)
    if how == "size-limit":
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        n = len(env.Serializer.device_to_svd_content(dev))
        # a real full device is not used: code that replaces its target would replace the device node
        limit = rng.choice([0, n - 1, rng.randrange(n)])
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
        try:
            k = w(lambda: env.Serializer.device_to_svd_file(path, dev))
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            signal.signal(signal.SIGXFSZ, old)
    elif how == "directory":
        target = "sub"
        os.mkdir(os.path.join(d, "sub"))
        k = w(lambda: env.Serializer.device_to_svd_file(os.path.join(d, "sub"), dev))
    elif how == "missing-directory":
        k = w(lambda: env.Serializer.device_to_svd_file(os.path.join(d, "none", "t.svd"), dev))
    else:
        # the target cannot be opened for writing: it is being executed (ETXTBSY)
        exe = os.path.join(d, target)
        shutil.copy("/bin/sleep", exe)
        os.chmod(exe, 0o700)
        import subprocess
        p = subprocess.Popen([exe, "20"])
        before = open(exe, "rb").read()
        k = w(lambda: env.Serializer.device_to_svd_file(exe, dev))
        p.kill()
        p.wait()
        if open(exe, "rb").read() != before and k.exc is not None:
            return ctx.fail("a file that could not be opened was changed")
        if k.exc is None:
            return ctx.count("fault:replaced")
    f = w.faults(target)
    if f:
        return ctx.fail(f"write fault {how}: " + "; ".join(f[:3]))
    if not isinstance(k.exc, OSError):
        return ctx.fail(f"write fault {how} was not reported to the caller: {k!r}")
    ctx.count("fault:" + how)
    if how == "size-limit" and limit in (0, n - 1):
        ctx.count("fault:size-limit:" + ("last-byte" if limit else "nothing"))
    return ctx.seen("fault", how, ctx.index)


READ = {
    "parse": lambda p: env.Parser.from_svd_file(p), "process": lambda p: env.Process.from_svd_file(p),
    "map": lambda p: env.PeripheralRegisterMap.from_svd_file(p), "validate": lambda p: env.Validator.validate_xml_file(p),
    "convert": lambda p: env.Process.from_svd_file(p).convert_processed_device_to_svd_device(),
    "content": lambda p: env.Process.from_xml_content(READ_BYTES[p]), "str": lambda p: env.Process.from_xml_str(READ_BYTES[p].decode("latin-1")),
    "validate-content": lambda p: env.Validator.validate_xml_content(READ_BYTES[p], False),
}
READ_BYTES = {}


def read(rng, ctx, d):
    doc = raw.tame(raw.device(rng, p=0.4, width=(0, 2), depth=0)) if rng.random() < 0.4 else gen.make(rng, peripherals=(1, 3))[0]
    if rng.random() < 0.2 and doc.get("peripherals"):
        c15.breakit(rng, doc, c17.Null())
    text = emit.to_xml(doc)
    if rng.random() < 0.25:
        text = c16.markup(rng, text)
    data = text.encode(rng.choice(["utf-8", "utf-8", "utf-8", "utf-16", "latin-1"]), "xmlcharrefreplace")
    path = os.path.join(d, rng.choice(NAMES))
    with open(path, "wb") as f:
        f.write(data)
    if rng.random() < 0.3:
        os.chmod(path, 0o400)
    READ_BYTES.clear()
    READ_BYTES[path] = data
    how = rng.choice(sorted(READ))
    w = Watch(ctx, d)
    st = os.stat(path)
    k = w(lambda: READ[how](path))
    f = w.faults()
    now = os.stat(path)
    if (st.st_mtime_ns, st.st_size, st.st_ino, st.st_mode) != (now.st_mtime_ns, now.st_size, now.st_ino, now.st_mode):
        f.append("the input file was touched")
    if f:
        return ctx.fail(f"{how}: " + "; ".join(f[:3]), xml=data)
    ctx.count("read:" + how)
    if k.exc is not None:
        ctx.count("read:refused")
    return ctx.seen(how, data)


def case(rng, ctx):
    d = tempfile.mkdtemp(prefix="svdmon-c21-")
    here = os.getcwd()
    os.chdir(d)
    try:
        pick = rng.random()
        (write if pick < 0.5 else fault if pick < 0.65 else read)(rng, ctx, d)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
