"""Turns the objects the library hands out into neutral dicts, and builds parse models from dicts."""
import enum
import warnings

from . import refproc, spec
from .env import M

_KIND_OF = {v: k for k, v in spec.PARSE_CLASS.items()}
_PKIND_OF = {v: k for k, v in spec.PROC_CLASS.items()}


def plain(v):
    if isinstance(v, enum.Enum):
        return v.value
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    name = type(v).__name__
    if name in _KIND_OF:
        return parsed(v)
    if name in _PKIND_OF:
        return processed(v)
    return v


def parsed(obj):
    """SVD* object -> doc in canonical form."""
    kind = _KIND_OF[type(obj).__name__]
    out = {"kind": kind}
    for a in spec.attrs(kind):
        out[a] = plain(getattr(obj, a))
    return out


def processed(obj):
    """processed object -> dict"""
    kind = _PKIND_OF[type(obj).__name__]
    out = {"kind": kind}
    for a in spec.PROC_ATTRS[kind]:
        out[a] = plain(getattr(obj, a))
    if kind == "peripheral":
        out["registers"] = [(r.name, r.base_address, r.size, r.alternate_group) for r in obj.registers]
    return out


def parent_faults(obj, parent=None, top=True):
    """Every nested parsed object must name the object that contains it as its parent."""
    faults = []
    kind = _KIND_OF[type(obj).__name__]
    if not top and getattr(obj, "parent", "missing") is not parent:
        faults.append(f"{kind} {getattr(obj, 'name', '')!r}: wrong parent {type(getattr(obj, 'parent', None)).__name__}")
    for a in spec.attrs(kind):
        v = getattr(obj, a)
        for c in v if isinstance(v, list) else [v]:
            if type(c).__name__ in _KIND_OF:
                faults += parent_faults(c, obj, False)
    return faults


def objects(obj, kinds=None):
    """All model objects reachable downwards (without parent / parsed links)."""
    name = type(obj).__name__
    if name in _KIND_OF:
        names = spec.attrs(_KIND_OF[name])
    elif name in _PKIND_OF:
        names = spec.PROC_ATTRS[_PKIND_OF[name]]
    else:
        return
    yield obj
    for a in names:
        v = getattr(obj, a)
        for c in v if isinstance(v, list) else [v]:
            yield from objects(c)


_ENUMCLS = {
    "access": "AccessType", "protection": "ProtectionStringType", "endian": "EndianType", "cpuname": "CPUNameType",
    "sauaccess": "SauAccessType", "token": "EnumeratedTokenType", "datatype": "DataTypeType",
    "mwv": "ModifiedWriteValuesType", "readaction": "ReadActionType", "usage": "EnumUsageType",
}


def build(doc, parent=None):
    """doc -> SVD* object tree, with parent links, made through the public model classes."""
    kind = doc["kind"]
    kw = {}
    kids = []
    for a, _, t in spec.KINDS[kind]:
        v = doc.get(a)
        if a in spec.LIST_ATTRS:
            v = [build(x) for x in (v or [])]
            kids += v
        elif isinstance(v, dict):
            v = build(v)
            kids.append(v)
        elif v is not None and "enum:" in t:
            v = getattr(M, _ENUMCLS[t.split("enum:")[1]])(v)
        elif a == "range_" and v is not None:
            v = tuple(v)
        if v is None:
            continue
        kw[a] = v
    obj = getattr(M, spec.PARSE_CLASS[kind])(**kw)
    for k in kids:
        k.parent = obj
    return obj


def diff(exp, got, path="", out=None, limit=6):
    """First few differences between two neutral structures."""
    if out is None:
        out = []
    if exp is refproc.ANY:
        return out
    if len(out) >= limit:
        return out
    if isinstance(exp, dict) and isinstance(got, dict):
        label = path or exp.get("kind", "")
        for k in exp:
            if k not in got:
                out.append(f"{label}.{k}: missing")
            else:
                diff(exp[k], got[k], f"{label}.{k}", out, limit)
        for k in got:
            if k not in exp:
                out.append(f"{label}.{k}: unexpected")
    elif isinstance(exp, (list, tuple)) and isinstance(got, (list, tuple)):
        if len(exp) != len(got):
            out.append(f"{path}: {len(exp)} items expected {names(exp)}, got {len(got)} {names(got)}")
            return out
        for i, (a, b) in enumerate(zip(exp, got)):
            n = a.get("name") if isinstance(a, dict) else None
            diff(a, b, f"{path}[{n or i}]", out, limit)
    elif exp != got or type(exp) is not type(got):
        out.append(f"{path}: expected {exp!r}, got {got!r}")
    return out


def names(xs):
    return [x.get("name") if isinstance(x, dict) else x for x in xs][:12]


class Call:
    """Outcome of one call into the library: value or exception, and the warnings it emitted."""

    def __init__(self, fn, *a, **k):
        self.value = None
        self.exc = None
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                self.value = fn(*a, **k)
            except (KeyboardInterrupt, SystemExit, MemoryError, TimeoutError):
                raise
            except BaseException as e:  # noqa: BLE001 - the outcome is the observation
                self.exc = e
        self.warnings = [(x.category.__name__, str(x.message)) for x in w]

    @property
    def exc_name(self):
        return type(self.exc).__name__ if self.exc is not None else None

    def __repr__(self):
        return f"<{self.exc_name}: {self.exc}>" if self.exc is not None else "<ok>"
