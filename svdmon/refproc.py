"""Executable reference model of SVD processing, over plain docs.

Written from the CMSIS-SVD rules and the documented SVDConv behaviour as plain tree rewriting:
a derived element is its base's explicit properties overridden by its own, with its own children
plus (a copy of) the base's children; a dimmed element stands for its instances.  It shares no code
and no algorithm with the library (which drives a graph in rounds).

process(doc) -> Outcome(device=<neutral processed device> | None, error=<reason> | None, notes=[...])
Notes are the diagnostics a user must be given: (category, names...).
"""
import itertools
import re

MAX_COPIES = 4000
MAX_NOTES = 2500
MAX_ELEMENTS = 5000


class _Any:
    """A value this reference does not determine."""

    def __repr__(self):
        return "ANY"


ANY = _Any()


class RefError(Exception):
    def __init__(self, reason, *names):
        super().__init__(reason)
        self.reason = reason
        self.names = names


class Unmodelled(Exception):
    """The document leaves the domain the reference speaks about; no verdict is drawn from it."""


class Outcome:
    def __init__(self, device=None, error=None, names=(), notes=(), every=()):
        self.device, self.error, self.names, self.notes, self.every = device, error, names, list(notes), list(every)


def _or(a, b):
    return a if a is not None else b


class Node:
    def __init__(self, model, src, parent, orig=None):
        self.model, self.src, self.parent, self.orig = model, src, parent, orig
        self.kind = src["kind"]
        self.name = src.get("name")
        self.root = orig.root if orig else self
        self._own = None
        self._kids = None
        self._props = None
        self._base = False
        self._busy = set()

    def __repr__(self):
        return f"{self.kind}:{self.name}"

    # -- structure ---------------------------------------------------------------------------
    def own(self):
        """Children written inside this element itself (for a copy: copies of the original's)."""
        if self._own is None:
            if self.orig is not None:
                self._own = [self.model.node(k.src, self, k) for k in self.orig.kids()]
            else:
                self._own = [self.model.node(c, self) for c in _src_children(self.src)]
        return self._own

    def kids(self):
        if self._kids is None:
            self._guard("kids")
            kids = list(self.own())
            if self.orig is None and self.kind != "enumcontainer":
                base = self.base()
                if base is not None:
                    chain = {n.root for n in self.lineage()}
                    if base.root in chain:
                        raise RefError("recursive-derivation", self.name)
                    for k in base.kids():
                        path = k.src.get("derived_from")
                        if path and any(_could_be_called(o.name, path.split(".")[0]) for o in self.own()):
                            # may an inherited reference mean the deriving element's own child? not specified
                            raise Unmodelled("inherited reference captured by an own child")
                        kids.append(self.model.node(k.src, self, k))
            self._kids = kids
            self._busy.discard("kids")
        return self._kids

    def lineage(self):
        n = self
        while n is not None and n.kind != "device":
            yield n
            n = n.parent

    def _guard(self, what):
        if what in self._busy:
            raise RefError("cycle", self.name)
        self._busy.add(what)

    # -- derivation --------------------------------------------------------------------------
    def base(self):
        if self.orig is not None:
            return self.orig.base()
        if self._base is False:
            path = self.src.get("derived_from")
            if path is None:
                self._base = None
            else:
                self._guard("base")
                self._base = self.model.lookup(self, path)
                self._busy.discard("base")
                if self._base is None:
                    raise RefError("unresolved", self.name)
        return self._base

    def base_props(self):
        b = self.base()
        return None if b is None else b.props()

    def props(self):
        if self.orig is not None:
            return self.orig.props()
        if self._props is None:
            self._guard("props")
            self._props = _merge(self)
            self._busy.discard("props")
        return self._props


def _could_be_called(name, wanted):
    if name and "%s" in name:
        return re.fullmatch(re.escape(name.replace("[%s]", "%s")).replace("%s", "\\w*"), wanted) or name == wanted
    return name == wanted


def _src_children(src):
    k = src["kind"]
    if k == "device":
        return src.get("peripherals") or []
    if k in ("peripheral", "cluster"):
        return src.get("registers_clusters") or []
    if k == "register":
        return src.get("fields") or []
    if k == "field":
        return src.get("enumerated_value_containers") or []
    return []


_SIMPLE = {
    "peripheral": ["size", "access", "protection", "reset_value", "reset_mask", "version", "description",
                   "alternate_peripheral", "group_name", "prepend_to_name", "append_to_name", "disable_condition"],
    "cluster": ["size", "access", "protection", "reset_value", "reset_mask", "description", "alternate_cluster",
                "header_struct_name"],
    "register": ["size", "access", "protection", "reset_value", "reset_mask", "description", "alternate_group",
                 "alternate_register", "data_type", "write_constraint", "read_action"],
    "field": ["access", "description", "write_constraint", "read_action"],
}


def _wc(w):
    if w is None:
        return None
    r = w.get("range_")
    return {"kind": "writeconstraint", "write_as_read": w.get("write_as_read"),
            "use_enumerated_values": w.get("use_enumerated_values"), "range_": tuple(r) if r is not None else None}


def _merge(node):
    s, kind = node.src, node.kind
    b = node.base_props()
    g = (lambda a: b.get(a)) if b is not None else (lambda a: None)
    own = {a: (_wc(s.get(a)) if a == "write_constraint" else s.get(a)) for a in _SIMPLE[kind]}
    p = {a: _or(own[a], g(a)) for a in _SIMPLE[kind]}
    for a in ("dim", "dim_index", "dim_increment"):
        p[a] = _or(s.get(a), g(a))
    if kind == "peripheral":
        p["header_struct_name"] = s.get("header_struct_name")
        p["address_blocks"] = sorted(
            ({"kind": "addressblock", "offset": x.get("offset") or 0, "size": x["size"], "usage": x["usage"],
              "protection": x.get("protection") or "any"} for x in s.get("address_blocks") or []),
            key=lambda x: x["offset"]) or (b["address_blocks"] if b else [])
        p["interrupts"] = sorted(
            ({"kind": "interrupt", "name": x["name"], "description": x.get("description"),
              "value": x.get("value") or 0} for x in s.get("interrupts") or []), key=lambda x: x["value"])
    if kind in ("register", "field"):
        p["modified_write_values"] = _or(s.get("modified_write_values"), g("modified_write_values")) or "modify"
    if kind == "register":
        p["display_name"] = p["display_raw"] = _or(s.get("display_name"), g("display_name"))
        if s.get("display_name") is None and b is not None and b["is_dim"] and (
                b["display_raw"] is ANY or "%s" in (b["display_raw"] or "")):
            # recorded finding (known-findings.txt): what the instances should be called is judged there
            p["display_name"] = p["display_raw"] = ANY
            node.model.note("finding-display-name", node.name)
    if kind == "field":
        p["lsb"], p["msb"] = _bits(node, s, b)
    _dims(node, p)
    return p


def _bits(node, s, b):
    blsb = b["lsb"] if b else None
    bmsb = b["msb"] if b else None
    pos = None
    if s.get("bit_offset") is not None or s.get("bit_width") is not None:
        o = _or(s.get("bit_offset"), blsb)
        w = _or(s.get("bit_width"), bmsb - blsb + 1 if b else None)
        if o is not None and w is not None:
            pos = (o, o + w - 1)
    if s.get("lsb") is not None or s.get("msb") is not None:
        lo, hi = _or(s.get("lsb"), blsb), _or(s.get("msb"), bmsb)
        if lo is not None and hi is not None:
            pos = (lo, hi)
    if s.get("bit_range") is not None:
        m = re.fullmatch(r"\[([0-9]+):([0-9]+)\]", s["bit_range"])
        if not m:
            raise RefError("bad-bitrange", node.name)
        hi, lo = int(m[1]), int(m[2])
        if hi < lo:
            node.model.note("bitrange-swapped", node.name)
            hi, lo = lo, hi
        pos = (lo, hi)
    if pos is None:
        raise RefError("no-bit-position", node.name)
    if pos[1] < pos[0]:
        node.model.note("msb-below-lsb", node.name)
    return pos


def dim_names(dim, dim_index):
    """Names of the elements of a list."""
    if dim_index is None:
        out = [str(i) for i in range(dim)]
    elif re.fullmatch(r"[0-9]+-[0-9]+", dim_index):
        a, b = map(int, dim_index.split("-"))
        if a > b:
            raise RefError("bad-dimindex")
        out = [str(i) for i in range(a, b + 1)]
    elif re.fullmatch(r"[A-Z]-[A-Z]", dim_index):
        a, b = map(ord, dim_index.split("-"))
        if a >= b:
            raise RefError("bad-dimindex")
        out = [chr(i) for i in range(a, b + 1)]
    elif re.fullmatch(r"[_0-9a-zA-Z]+(,\s*[_0-9a-zA-Z]+)*", dim_index):
        out = re.split(r",\s*", dim_index)
    else:
        raise RefError("bad-dimindex")
    if len(out) != dim:
        raise RefError("dimindex-count")
    return out


def _dims(node, p):
    name, dim = node.name, p["dim"]
    disp = p.get("display_name")
    if disp is ANY:
        disp = None
    if dim is None and "%s" in name:
        raise RefError("percent-without-dim", name)
    if dim is not None and "%s" not in name:
        node.model.note("dim-without-percent", name)
        dim = None
    p["is_dim"] = dim is not None
    if dim is None:
        if disp is not None and "%s" in disp:
            raise RefError("display-percent-without-dim", name)
        one = dict(p, name=name, is_dim=False)
        _place(node, one, 0, p)
        one.pop("insts", None)
        p["insts"] = [one]
        return
    if dim < 1:
        raise RefError("dim-below-one", name)
    if "[%s]" in name:
        if node.kind == "field":
            raise RefError("field-array", name)
        if disp is not None and "[%s]" not in disp and "%s" in disp:
            raise RefError("display-list-in-array", name)
        idx, mark = [str(i) for i in range(dim)], "[%s]"
    else:
        if node.kind == "peripheral":
            raise RefError("peripheral-list", name)
        if disp is not None and "[%s]" in disp:
            raise RefError("display-array-in-list", name)
        idx, mark = dim_names(dim, p["dim_index"]), "%s"
    insts = []
    for i, ix in enumerate(idx):
        one = dict(p, name=name.replace(mark, ix), dim=None, dim_index=None, dim_increment=None, is_dim=False)
        if disp is not None:
            one["display_name"] = disp.replace(mark, ix)
        _place(node, one, i, p)
        insts.append(one)
    # what other elements inherit from the dimmed element itself: its first element, still dimmed
    if "display_name" in p:
        p["display_name"] = insts[0]["display_name"]
    p["insts"] = insts


def _place(node, one, i, p):
    step = (p["dim_increment"] or 0) * i
    if node.kind == "peripheral":
        one["base_address"] = node.src["base_address"] + step
    elif node.kind in ("cluster", "register"):
        one["address_offset"] = node.src["address_offset"] + step
    else:
        one["lsb"], one["msb"] = p["lsb"] + step, p["msb"] + step


class Model:
    def __init__(self, doc):
        self.doc = doc
        self.notes = []
        self.seen_notes = set()
        self.every = []  # like notes, once per occurrence
        self.copies = self.elements = 0
        self.saw_self = False
        self.top = Node(self, doc, None)

    def node(self, src, parent, orig=None):
        self.copies += 1
        if self.copies > MAX_COPIES:
            raise Unmodelled("too many copies")
        made = Node(self, src, parent, orig)
        if orig is not None and any(n.root is made.root for n in parent.lineage()):
            raise RefError("recursive-derivation", made.name)  # it contains a copy of itself
        return made

    def note(self, *n):
        self.every.append(n)
        if len(self.every) > MAX_NOTES:
            raise Unmodelled("too many notes")
        if n not in self.seen_notes:
            self.seen_notes.add(n)
            self.notes.append(n)

    # -- path lookup -------------------------------------------------------------------------
    def lookup(self, node, path):
        parts = path.split(".")
        for scope in ((node.parent.kids()), self.top.kids()):
            self.saw_self = False
            found = self._find(scope, parts, node)
            if found and self.saw_self and len(parts) > 1:
                raise Unmodelled("the path also names the deriving element")
            if len(found) > 1:
                if any(inst is not None or any(x.orig is not None for x in n.lineage()) for n, inst in found):
                    # recorded finding of C15 (known-findings.txt)
                    raise Unmodelled("ambiguous only after expansion or inheritance")
                try:
                    plain = [f for f in found if f[0].kind == "register" and f[0].props()["alternate_group"] is None]
                except RefError as e:
                    if e.reason != "cycle":
                        raise
                    raise Unmodelled("candidates depend on the choice between them") from None
                if len(plain) == 1:
                    found = plain
                else:
                    raise RefError("ambiguous", node.name)
            if found:
                target, inst = found[0]
                return target if inst is None else _Pick(target, inst)
        return None

    def _find(self, nodes, parts, me):
        hits = []
        for n in nodes:
            if n is me:
                self.saw_self = self.saw_self or n.name == parts[0]
                continue
            for inst in self._matches(n, parts[0]):
                if len(parts) == 1:
                    if n.kind == me.kind:
                        hits.append((n, inst))
                elif _LEVEL[n.kind] < _LEVEL[me.kind] or n.kind == me.kind == "cluster":
                    hits += self._find(n.kids(), parts[1:], me)
        return hits

    def _matches(self, n, name):
        if n.name == name:
            yield None
        elif (n.name and "%s" in n.name and n.kind != "enumcontainer" and "props" not in n.root._busy
              and _could_be_called(n.name, name)):
            try:
                insts = n.props()["insts"]
            except RefError as e:
                if e.reason != "cycle":
                    raise
                raise Unmodelled("the names of a candidate depend on the choice between them") from None
            for i, p in enumerate(insts):
                if p["name"] == name:
                    yield i


_LEVEL = {"peripheral": 0, "cluster": 1, "register": 2, "field": 3, "enumcontainer": 4}


class _Pick:
    """One element of a dimmed element, used as a base."""

    def __init__(self, target, inst):
        self.target, self.inst = target, inst
        self.kind, self.name, self.root = target.kind, target.name, target.root

    def props(self):
        return self.target.props()["insts"][self.inst]

    def kids(self):
        return self.target.kids()


def process(doc):
    m = Model(doc)
    try:
        return Outcome(device=_device(m), notes=m.notes, every=m.every)
    except RefError as e:
        return Outcome(error=e.reason, names=e.names, notes=m.notes)
    except RecursionError:
        return Outcome(error="cycle", notes=m.notes)


def expand(doc):
    """The same device written without derivations and dimensions, or None if it cannot be written that way."""
    m = Model(doc)
    try:
        items = [it for n in m.top.kids() for it in _expand(n, None)]
        out = dict(doc, peripherals=[_plain(it) for it in items])
    except (RefError, Unmodelled, RecursionError):
        return None
    return out if not any(n[0] == "finding-display-name" for n in m.notes) else None


_PLAIN = {
    "peripheral": [*"size access protection reset_value reset_mask name version description alternate_peripheral "
                   "group_name prepend_to_name append_to_name header_struct_name disable_condition base_address".split()],
    "cluster": [*"size access protection reset_value reset_mask name description alternate_cluster header_struct_name "
                "address_offset".split()],
    "register": [*"size access protection reset_value reset_mask name display_name description alternate_group "
                 "alternate_register address_offset data_type modified_write_values write_constraint "
                 "read_action".split()],
    "field": [*"name description lsb msb access modified_write_values write_constraint read_action".split()],
}


def _plain(it):
    d = {"kind": it.kind}
    for a in _PLAIN[it.kind]:
        if it.p.get(a) is not None:
            d[a] = it.p[a]
    if it.kind == "peripheral":
        d["address_blocks"] = [{k: v for k, v in b.items() if (k, v) != ("protection", "any")}
                               for b in it.p["address_blocks"]]
        d["interrupts"] = [{k: v for k, v in i.items() if v is not None} for i in it.p["interrupts"]]
    if it.kind == "field":
        d["enumerated_value_containers"] = [
            {**{k: v for k, v in s.items() if k != "enumerated_values"},
             "enumerated_values": [dict(v) for v in s.get("enumerated_values") or []]} for s in it.enums]
    else:
        d["fields" if it.kind == "register" else "registers_clusters"] = [_plain(c) for c in it.items]
    if "write_constraint" in d:
        d["write_constraint"] = {k: v for k, v in d["write_constraint"].items() if v is not None}
    return d


# -- expansion -------------------------------------------------------------------------------------
class Item:
    """One concrete element (an instance), with its concrete children."""

    def __init__(self, kind, p, parent):
        self.kind, self.p, self.parent = kind, dict(p), parent
        self.items = []
        self.explicit = p.get("size")


def _expand(node, parent):
    """Concrete elements a node stands for."""
    out = []
    for inst in node.props()["insts"]:
        it = Item(node.kind, inst, parent)
        node.model.elements += 1
        if node.model.elements > MAX_ELEMENTS:
            raise Unmodelled("too many elements")
        if node.kind == "field":
            it.enums = [_enum_source(k) for k in node.kids()]
        else:
            for k in node.kids():
                it.items += _expand(k, it)
        out.append(it)
    return out


def _enum_source(node, seen=()):
    if node.orig is not None:
        return _enum_source(node.orig, seen)
    if node.src.get("derived_from") is None:
        return node.src
    if node in seen:
        raise RefError("cycle", node.name)
    return _enum_source(node.base(), (*seen, node))


_CPU_FALSE = ["mpu_present", "fpu_present", "fpu_dp", "dsp_present", "icache_present", "dcache_present",
              "itcm_present", "dtcm_present"]


def _cpu(c):
    if c is None:
        return None
    out = {"kind": "cpu"}
    for a in ("name", "revision", "endian", "vtor_present", "nvic_prio_bits", "vendor_systick_config",
              "device_num_interrupts", "sau_num_regions"):
        out[a] = c.get(a)
    for a in _CPU_FALSE:
        out[a] = c.get(a) or False
    if out["vtor_present"] is None:
        out["vtor_present"] = True
    if out["name"] == "CM0+":
        out["name"] = "CM0PLUS"
    s = c.get("sau_regions_config")
    out["sau_regions_config"] = None if s is None else {
        "kind": "sauconfig",
        "enabled": _or(s.get("enabled"), True),
        "protection_when_disabled": s.get("protection_when_disabled") or "s",
        "regions": [{"kind": "sauregion", "enabled": _or(r.get("enabled"), True), "name": r.get("name"),
                     "base": r["base"], "limit": r["limit"], "access": r["access"]} for r in s.get("regions") or []],
    }
    return out


def _device(m):
    d = m.doc
    dev = {"kind": "device"}
    for a in ("vendor", "vendor_id", "name", "series", "version", "license_text", "header_system_filename",
              "header_definitions_prefix", "address_unit_bits", "width"):
        dev[a] = d.get(a)
    dev["description"] = _or(d.get("description"), "")
    dev["size"] = _or(d.get("size"), 32)
    dev["access"] = d.get("access") or "read-write"
    dev["protection"] = d.get("protection") or "any"
    dev["reset_value"] = _or(d.get("reset_value"), 0)
    dev["reset_mask"] = _or(d.get("reset_mask"), 0xFFFFFFFF)
    dev["cpu"] = _cpu(d.get("cpu"))
    items = []
    for n in m.top.kids():
        items += _expand(n, None)
    for it in items:
        _effective_size(it, dev["size"])
    for it in items:
        _inherit(it, dev)
    peris = [x for x in (_peripheral(m, it) for it in items) if x]
    seen = set()
    for p in peris:
        if p["name"] in seen:
            raise RefError("duplicate-peripheral", p["name"])
        seen.add(p["name"])
    peris.sort(key=lambda p: (p["base_address"], p["name"]))
    _overlap_notes(m, "peripheral", peris, lambda p: p["base_address"],
                   lambda p: max(p["end_address_effective"], p["end_address"]))
    dev["peripherals"] = peris
    return dev


def _effective_size(it, dev_size):
    """Containers take the largest size found inside them; unsized children count with what they inherit."""
    best = None
    for c in it.items:
        if c.kind == "cluster":
            _effective_size(c, dev_size)
        if c.kind not in ("cluster", "register"):
            continue
        s = c.p["size"]
        if s is None:
            a = it
            while a is not None and a.explicit is None:
                a = a.parent
            s = a.explicit if a is not None else dev_size
            if s % 8:
                raise Unmodelled("unusable size inherited")
        elif s % 8:
            s = 0
        best = s if best is None else max(best, s)
    if it.kind != "register" and best is not None:
        it.p["size"] = best
        if best == 0:
            raise Unmodelled("only unusable sizes in a container")


def _inherit(it, up):
    up = up if isinstance(up, dict) else up.p
    for a in ("size", "access", "protection", "reset_value", "reset_mask"):
        it.p[a] = _or(it.p.get(a), up[a])
    for c in it.items:
        if c.kind == "field":
            c.p["access"] = _or(c.p.get("access"), it.p["access"])
            c.p["write_constraint"] = _or(c.p.get("write_constraint"), it.p.get("write_constraint"))
        else:
            _inherit(c, it)


def _pick(p, names, kind):
    out = {"kind": kind}
    for a in names:
        out[a] = p.get(a)
    return out


def _peripheral(m, it):
    p = it.p
    rcs = _registers_clusters(m, it, p["base_address"])
    if not rcs:
        m.note("ignored-peripheral", p["name"])
        return None
    if p["base_address"] % 4:
        m.note("misaligned-peripheral", p["name"])
    if not p["address_blocks"]:
        raise RefError("no-address-block", p["name"])
    bl = p["address_blocks"]
    for i, a in enumerate(bl):
        for b in bl[i + 1:]:
            if b["offset"] < a["offset"] + a["size"]:
                m.note("overlap-addressblock", p["name"], a["offset"], b["offset"])
    out = _pick(p, ["name", "version", "description", "alternate_peripheral", "group_name", "prepend_to_name",
                    "append_to_name", "header_struct_name", "disable_condition", "base_address", "address_blocks",
                    "interrupts", "size", "access", "protection", "reset_value", "reset_mask"], "peripheral")
    base = p["base_address"]
    out["end_address"] = max(base + a["offset"] + a["size"] - 1 for a in bl)
    out["peripheral_size"] = sum(a["size"] for a in bl)
    out["end_address_effective"] = max(_end(c) for c in rcs)
    out["peripheral_size_effective"] = out["end_address_effective"] - base + 1
    out["registers_clusters"] = rcs
    regs = sorted(_flat(rcs), key=lambda r: (r["base_address"], r["name"]))
    out["registers"] = [(r["name"], r["base_address"], r["size"], r["alternate_group"]) for r in regs]
    return out


def _left_out(m, it):
    """Whether faults inside an element that is left out are reported is not specified."""
    for c in [it] if it.kind == "field" else it.items:
        if c.kind == "field":
            kept, seen = m.notes, m.seen_notes
            m.notes, m.seen_notes = [], set()
            try:
                _containers(m, c)
            except RefError:
                raise Unmodelled("fault inside an element that is left out") from None
            finally:
                kept += [("maybe:" + n[0], *n[1:]) for n in m.notes]
                m.notes, m.seen_notes = kept, seen
        else:
            _left_out(m, c)


def _end(c):
    return c["base_address"] + c["size"] // 8 - 1 if c["kind"] == "register" else c["end_address"]


def _flat(rcs):
    for c in rcs:
        if c["kind"] == "register":
            yield c
        else:
            yield from _flat(c["registers_clusters"])


def _registers_clusters(m, owner, base):
    out, seen = [], set()
    for it in owner.items:
        c = _register_cluster(m, it, base)
        if c is None:
            continue
        key = c["name"]
        if c["kind"] == "register" and c["alternate_group"]:
            key = f"{key}_{c['alternate_group']}"
        if key in seen:
            raise RefError("duplicate-register-cluster", key)
        seen.add(key)
        out.append(c)
    # source order of equal keys does not matter: names (with groups) are unique
    out.sort(key=lambda c: (c["base_address"], (c.get("alternate_group") is not None, c.get("alternate_group") or ""),
                            c["name"]))
    visible = [c for c in out if c["kind"] == "cluster" or c["alternate_group"] is None]
    _overlap_notes(m, "rc", visible, lambda c: c["base_address"], _end)
    return out


def _register_cluster(m, it, base):
    p = it.p
    size = p["size"]
    if size % 8:
        _left_out(m, it)
        m.note("ignored-size", p["name"])
        return None
    if size // 8 not in (1, 2, 4, 8, 16):
        raise RefError("unsupported-size", p["name"])
    if p["address_offset"] % min(size // 8, 4):
        m.note("misaligned", p["name"])
    at = base + p["address_offset"]
    common = ["size", "access", "protection", "reset_value", "reset_mask", "name", "description", "address_offset"]
    if it.kind == "cluster":
        kids = _registers_clusters(m, it, at)
        if not kids:
            m.note("ignored-cluster", p["name"])
            return None
        out = _pick(p, [*common, "alternate_cluster", "header_struct_name"], "cluster")
        out["base_address"] = at
        out["end_address"] = max(_end(k) for k in kids)
        out["cluster_size"] = out["end_address"] - at + 1
        out["registers_clusters"] = kids
        return out
    if p["name"].lower() == "reserved":
        _left_out(m, it)
        m.note("ignored-reserved-register", p["name"])
        return None
    if p["alternate_register"] is not None and p["alternate_group"] is not None:
        raise RefError("alternate-register-and-group", p["name"])
    out = _pick(p, [*common, "display_name", "alternate_group", "alternate_register", "data_type",
                    "modified_write_values", "write_constraint", "read_action"], "register")
    out["base_address"] = at
    out["fields"] = _fields(m, it, size)
    return out


_DOMAIN = {"read-only": "r", "write-only": "w"}


def _fields(m, reg, size):
    out, seen = [], set()
    for f in reg.items:
        p = f.p
        if p["name"].lower() == "reserved":
            _left_out(m, f)
            m.note("ignored-reserved-field", p["name"])
            continue
        if p["name"] in seen:
            raise RefError("duplicate-field", p["name"])
        seen.add(p["name"])
        conts = _containers(m, f)
        o = _pick(p, ["name", "description", "lsb", "msb", "modified_write_values", "write_constraint", "read_action",
                      "access"], "field")
        o["bit_offset"] = p["lsb"]
        o["bit_width"] = p["msb"] - p["lsb"] + 1
        o["bit_range"] = (p["msb"], p["lsb"])
        o["enumerated_value_containers"] = conts
        out.append(o)
        if p["msb"] >= size:
            m.note("field-exceeds", p["name"])
    for a, b in itertools.combinations(out, 2):
        if a["lsb"] <= b["msb"] and b["lsb"] <= a["msb"]:
            if set(_DOMAIN.get(a["access"], "rw")) & set(_DOMAIN.get(b["access"], "rw")):
                raise RefError("field-overlap", a["name"], b["name"])
    out.sort(key=lambda f: (f["lsb"], f["name"]))
    return out


def _containers(m, f):
    out = []
    for src in f.enums:
        out.append({
            "kind": "enumcontainer", "name": src.get("name"), "header_enum_name": src.get("header_enum_name"),
            "usage": src.get("usage") or "read-write",
            "enumerated_values": _enum_values(m, src, f.p["msb"] - f.p["lsb"] + 1),
        })
    usages = [c["usage"] for c in out]
    if len(set(usages)) != len(usages):
        raise RefError("enum-usage-twice", f.p["name"])
    if len(out) > 2:
        raise RefError("enum-too-many", f.p["name"])
    if len(out) == 2 and set(usages) != {"read", "write"}:
        raise RefError("enum-usage-combination", f.p["name"])
    return sorted(out, key=lambda c: c["usage"])


def enum_numbers(text):
    """Numbers an enumeratedValue's <value> stands for, and whether it holds don't-care bits."""
    s = text.lower()
    if s.startswith("#"):
        s = "0b" + s[1:]
    if s.startswith("0b"):
        bits = s[2:]
        if not re.fullmatch("[01x]+", bits):
            raise RefError("bad-enum-value")
        n = bits.count("x")
        if n > 12:
            raise Unmodelled("huge wildcard")
        out = []
        for combo in itertools.product("01", repeat=n):
            it = iter(combo)
            out.append(int("".join(next(it) if ch == "x" else ch for ch in bits), 2))
        return out, n > 0
    if re.fullmatch("0x[0-9a-f]+", s):
        return [int(s, 16)], False
    if re.fullmatch("[0-9]+", s):
        return [int(s)], False
    raise RefError("bad-enum-value")


def _enum_values(m, src, width):
    if width < 1 or width > 14:
        if any(v.get("is_default") for v in src.get("enumerated_values") or []):
            raise Unmodelled("default value over a huge or empty field")
    if width < 1 and src.get("enumerated_values"):
        raise Unmodelled("enumerated values of an empty field")
    entries, names, numbers, default = [], set(), set(), None
    for v in src.get("enumerated_values") or []:
        isdef = bool(v.get("is_default"))
        nums, wild = enum_numbers(v["value"]) if v.get("value") else ([None], False)
        for n in nums:
            if v["name"].lower() == "reserved":
                m.note("ignored-enum-reserved", v["name"])
                continue
            name = f"{v['name']}_{n}" if wild else v["name"]
            if name in names:
                m.note("enum-duplicate-name", name)
                continue
            if n is not None and n in numbers:
                m.note("enum-duplicate-value", name)
                continue
            if isdef:
                if n is not None:
                    m.note("enum-default-with-value", name)
                    n = None
                if default is not None:
                    raise RefError("enum-two-defaults", name)
                default = v
                default = {"name": name, "description": v.get("description")}
            names.add(name)
            if n is not None:
                numbers.add(n)
            entries.append((name, v.get("description"), n, isdef))
    if default is not None:
        entries = [e for e in entries if not e[3]]
        for n in range(2 ** width):
            if n in numbers:
                continue
            name = f"{default['name']}_{n}"
            if name in names:
                m.note("enum-duplicate-name", name)
                m.note("default-name-taken", name)
                continue
            entries.append((name, default["description"], n, False))
    out = []
    for name, desc, n, _ in entries:
        if n is None:
            raise RefError("enum-without-value", name)
        if n >= 2 ** width:
            m.note("enum-out-of-range", name)
            continue
        out.append({"kind": "enumvalue", "name": name, "description": desc, "value": n})
    return sorted(out, key=lambda v: v["value"])


# -- overlaps --------------------------------------------------------------------------------------
_ALT = {"peripheral": "alternate_peripheral", "cluster": "alternate_cluster", "register": "alternate_register"}


def _overlap_notes(m, what, items, lo, hi):
    """('overlap', kind, a, b) must be reported; ('alternate', kind, a, b) must not; chains are left open
    ('maybe:overlap') unless both ends name an alternate."""
    for a, b in itertools.combinations(items, 2):
        if not (lo(a) <= hi(b) and lo(b) <= hi(a)):
            continue
        rel = "overlap"
        if a["kind"] == b["kind"]:
            rel = _related(items, a, b)
        m.note(rel, what, a["name"], b["name"])


def _related(items, a, b):
    key = _ALT[a["kind"]]
    if a[key] == b["name"] or b[key] == a["name"] or (a[key] is not None and a[key] == b[key]):
        return "alternate"
    # connected through further alternates: alternates, too, if both are alternates of something; else not specified here
    group, todo = set(), [a["name"]]
    links = [(i["name"], i[key]) for i in items if i["kind"] == a["kind"] and i[key]]
    while todo:
        n = todo.pop()
        if n in group:
            continue
        group.add(n)
        todo += [y for x, y in links if x == n] + [x for x, y in links if y == n]
    if b["name"] not in group:
        return "overlap"
    return "alternate-chain" if a[key] is not None and b[key] is not None else "maybe:overlap"
