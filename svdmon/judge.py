"""Judges one execution of the library against the reference model."""
import re

from . import emit, observe, refproc, spec
from .env import Process

_NAMED = re.compile(r"[\w\[\]%.]+")


def mentions(text, name):
    """Does a message mention this name (as a whole word)?"""
    name = str(name)
    return name in text and re.search(rf"(?<!\w){re.escape(name)}(?!\w)", text) is not None


def _words(note):
    """What a warning for this note has to mention."""
    kind = note[0].removeprefix("maybe:")
    if kind in ("overlap", "alternate", "alternate-chain"):
        return note[2:]
    if kind.startswith("ignored-reserved") or kind == "ignored-enum-reserved":
        return ("(?i)reserved",)
    if kind == "overlap-addressblock":
        return note[2:]
    if kind == "bitrange-swapped":
        return ()
    return note[1:]


def fits(note, text):
    for w in _words(note):
        if w == "(?i)reserved":
            if "reserved" not in text.lower():
                return False
        elif isinstance(w, int):
            if not (mentions(text, w) or mentions(text, hex(w)) or mentions(text, f"0x{w:X}")):
                return False
        elif not mentions(text, w):
            return False
    return True


SILENT = ("alternate", "alternate-chain", "finding-display-name", "default-name-taken")


def warning_faults(outcome, call, only=None, strict=False):
    """Notes without a warning, and (strict) warnings no note explains."""
    texts = [m for c, m in call.warnings if c == "ProcessWarning"]
    out = []
    for n in outcome.notes:
        if n[0] in SILENT or n[0].startswith("maybe:") or (only is not None and n[0] not in only):
            continue
        if not any(fits(n, t) for t in texts):
            out.append(f"no warning reports {n}")
    if strict:
        for t in texts:
            if callable(strict) and not strict(t):
                continue
            if not any(n[0] not in SILENT and fits(n, t) for n in outcome.notes):
                out.append(f"unexpected warning: {t}")
    return out


def run_xml(xml):
    return observe.Call(lambda: Process.from_xml_content(xml).get_processed_device())


def run_model(doc):
    return observe.Call(lambda: Process(observe.build(doc), None).get_processed_device())


def project(d, keep):
    """Restrict a neutral processed device to the attributes in keep (names and structure always stay)."""
    if isinstance(d, list):
        return [project(x, keep) for x in d]
    if not isinstance(d, dict):
        return d
    out = {}
    for a, v in d.items():
        if a in ("kind", "name"):
            out[a] = v
        elif a in ("peripherals", "registers_clusters", "fields"):
            out[a] = project(v, keep)
        elif a in keep or (d["kind"], a) in keep or (a in ("regions", "enumerated_values") or d["kind"] not in _TREE):
            out[a] = v
    return out


_TREE = ("device", "peripheral", "cluster", "register", "field")


def judge(ctx, doc, keep=None, notes=None, strict=False, model=None, error=True, xml=None, call=None):
    """Run doc through the library and compare with the reference.

    keep   attributes that belong to the property (None: all)
    notes  kinds of diagnostics that belong to the property (None: none)
    error  also judge that rejected documents are rejected with ProcessException
    Returns (outcome, call) or None if no verdict was drawn.
    """
    try:
        ref = refproc.process(doc)
    except refproc.Unmodelled as e:
        ctx.count("skipped:" + str(e))
        return None
    if xml is None:
        xml = emit.to_xml(doc).encode()
    if call is None:
        call = run_model(doc) if model else run_xml(xml)
    if ref.error is not None:
        ctx.count("rejected:" + ref.error)
        if call.exc_name != "ProcessException":
            if error:
                ctx.fail(f"must be rejected with ProcessException ({ref.error} {ref.names}), got {call!r}", xml=xml)
            return None
        return ref, call
    if call.exc is not None:
        ctx.fail(f"valid document not processed: {call!r}", xml=xml)
        return None
    ctx.count("processed")
    exp, got = ref.device, observe.processed(call.value)
    if keep is not None:
        exp, got = project(exp, keep), project(got, keep)
    d = observe.diff(exp, got)
    if d:
        ctx.fail("processed device deviates: " + "; ".join(d[:4]), xml=xml, differences="\n".join(d))
        return None
    if notes is not None or strict:
        f = warning_faults(ref, call, notes, strict)
        if f:
            ctx.fail("; ".join(f[:4]), xml=xml, warnings="\n".join(m for _, m in call.warnings))
            return None
    return ref, call


def shape(dev):
    """Structural signature used to tell distinct cases apart."""
    if isinstance(dev, dict):
        return tuple(shape(dev.get(a)) for a in ("kind", "peripherals", "registers_clusters", "fields",
                                                 "enumerated_value_containers", "dim", "derived_from")
                     if dev.get(a))
    if isinstance(dev, list):
        return tuple(shape(x) for x in dev)
    return dev


def count_features(ctx, doc):
    """What the workload contained."""
    for n in spec.walk(doc):
        k = n["kind"]
        if n.get("derived_from"):
            ctx.count(f"derived:{k}")
            if "." in n["derived_from"]:
                ctx.count("derived:by-path")
        if n.get("dim"):
            ctx.count(f"dim:{k}")
        if k == "cluster":
            ctx.count("clusters")
