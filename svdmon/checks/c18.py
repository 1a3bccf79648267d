import copy
import os
import tempfile

from .. import emit, gen, judge, observe, profiles, refproc, replica
from ..env import PeripheralRegisterMap, Process
from . import c15, c17

ID = "C18"
RULE = ("random processable devices (nested clusters, dimensions, derivations, several address blocks in any order and size, "
        "overlapping and equal addresses); each map entry is compared with the processed element it stands for, with the sums "
        "of base address and offsets along the tree, and with the reference model's flat register list; maps built from a "
        "file, text, bytes and a shuffled device are compared; refused documents must be refused alike by every builder; "
        "non-trivial: the map has registers")
CASES = {"quick": 3600, "thorough": 90000}
REQUIRED = ["maps", "registers", "depth:2", "depth:3", "blocks:2", "blocks:3", "block-offset-nonzero", "equal-address",
            "builders", "refused", "shuffled", "fields", "blocks-overlapping", "reference",
            "overlaid", "same-base-alternate"]
PROFILES = [dict(depth=4, p_cluster=0.6, p_derive=0.2), dict(p_blocks2=0.9, peripherals=(2, 6), p_derive=0.3), profiles.DIMS,
            profiles.OVERLAP, profiles.DENSE_DERIVE, profiles.SIZES, profiles.NASTY, {}]


def blocks(rng, doc, ctx):
    """Address blocks of every order, nesting and gap."""
    for p in doc["peripherals"]:
        if rng.random() < 0.5 and (p.get("address_blocks") or not p.get("derived_from")):
            bs, at = [], rng.choice([0, 0, 4, 0x100])
            for _ in range(rng.randint(1, 4)):
                size = rng.choice([4, 8, 0x10, 0x400, 0x1000, 1])
                bs.append({"kind": "addressblock", "offset": at, "size": size,
                           "usage": rng.choice(["registers", "buffer", "reserved"])})
                at = rng.choice([at + size, at + size + 0x20, at, at + 4, max(0, at - 4), at + size // 2])
            rng.shuffle(bs)
            p["address_blocks"] = bs


def overlay(rng, doc, ctx):
    """Peripherals of one base address, one of them often an alternate of the other."""
    ps = doc["peripherals"]
    if len(ps) < 2 or rng.random() > 0.3:
        return
    for a in rng.sample(ps, rng.randint(1, min(3, len(ps) - 1))):
        b = rng.choice([p for p in ps if p is not a])
        a["base_address"] = b["base_address"]
        if rng.random() < 0.7:
            a["alternate_peripheral"] = b["name"]
        if rng.random() < 0.3:
            b["alternate_peripheral"] = a["name"]
        if rng.random() < 0.3 and not (a.get("derived_from") or b.get("derived_from")):
            a["registers_clusters"] = copy.deepcopy(b.get("registers_clusters") or [])
        if not a.get("derived_from") and rng.random() < 0.3:
            a["address_blocks"] = copy.deepcopy(b.get("address_blocks") or a.get("address_blocks"))
    ctx.count("overlaid")


def tree(container, at, depth, out):
    """Every register with its address by adding offsets, in tree order."""
    for e in container.registers_clusters:
        if type(e).__name__ == "Register":
            out.append((e, at + e.address_offset, depth))
        else:
            tree(e, at + e.address_offset, depth + 1, out)
    return out


SAME = ("size", "access", "protection", "reset_value", "reset_mask", "name", "display_name", "description")


def faults(ctx, dev, m):
    out = []
    if sorted(map(id, dev.peripherals)) != sorted(id(p.processed) for p in m):
        return ["entries do not stand for the processed peripherals one to one"]
    if [p.address for p in m] != sorted(p.address for p in m):
        out.append(f"entries not in ascending address order: {[hex(p.address) for p in m]}")
    at = {}
    for p in dev.peripherals:
        if p.alternate_peripheral in at.get(p.base_address, ()):
            ctx.count("same-base-alternate")
        at.setdefault(p.base_address, set()).add(p.name)
    for e in m:
        p = e.processed
        if (e.name, e.description, e.address) != (p.name, p.description, p.base_address):
            out.append(f"{p.name}: entry says {e.name!r} {e.description!r} {e.address:#x}")
        lo = min(b.offset for b in p.address_blocks) + p.base_address
        hi = max(b.offset + b.size for b in p.address_blocks) + p.base_address - 1
        if tuple(e.allocated_range) != (lo, hi):
            out.append(f"{p.name}: allocated range {e.allocated_range}, address blocks cover {(lo, hi)}")
        ctx.count(f"blocks:{min(len(p.address_blocks), 3)}")
        if any(b.offset for b in p.address_blocks):
            ctx.count("block-offset-nonzero")
        ends = [(b.offset, b.offset + b.size) for b in p.address_blocks]
        if any(a < d and c < b for i, (a, b) in enumerate(ends) for c, d in ends[:i]):
            ctx.count("blocks-overlapping")
        want = tree(p, p.base_address, 1, [])
        if sorted(id(r) for r, _, _ in want) != sorted(id(r.processed) for r in e.registers):
            out.append(f"{p.name}: registers {[r.name for r in e.registers][:12]}, tree has {[r.name for r, _, _ in want][:12]}")
            continue
        at = {id(r): a for r, a, _ in want}
        if len({a for _, a, _ in want}) < len(want):
            ctx.count("equal-address")
        for r in e.registers:
            q = r.processed
            if r.address != at[id(q)]:
                out.append(f"{p.name}.{q.name}: address {r.address:#x} instead of {at[id(q)]:#x}")
            for a in SAME:
                if getattr(r, a) != getattr(q, a):
                    out.append(f"{p.name}.{q.name}: {a} is {getattr(r, a)!r} instead of {getattr(q, a)!r}")
            if r.fields is not q.fields and observe.plain(r.fields) != observe.plain(q.fields):
                out.append(f"{p.name}.{q.name}: fields {[f.name for f in r.fields]} instead of {[f.name for f in q.fields]}")
            ctx.count("fields", len(q.fields))
        ctx.count("registers", len(want))
        for _, _, d in want:
            ctx.count(f"depth:{min(d, 3)}")
    return out


def neutral(m):
    return [(p.name, p.description, p.address, tuple(p.allocated_range), observe.plain(p.processed),
             [(r.address, r.name, observe.plain(r.processed), observe.plain(r.fields),
               *(observe.plain(getattr(r, a)) for a in SAME)) for r in p.registers]) for p in m.peripheral_map]


def builders(ctx, rng, xml, mine):
    """Outcome of every other builder."""
    text = xml.decode()

    def by_file(pathlike):
        fd, path = tempfile.mkstemp(suffix=".svd")
        try:
            os.write(fd, xml)
            os.close(fd)
            return PeripheralRegisterMap.from_svd_file(path)
        finally:
            os.unlink(path)
    ways = {"content": lambda: PeripheralRegisterMap.from_xml_content(xml), "str": lambda: PeripheralRegisterMap.from_xml_str(text),
            "file": lambda: by_file(None),
            "process-str": lambda: PeripheralRegisterMap(Process.from_xml_str(text).get_processed_device())}
    for w in rng.sample(sorted(ways), 2):
        c = observe.Call(ways[w])
        got = (c.exc_name, None if c.exc is not None else neutral(c.value))
        if got != mine:
            ctx.fail(f"the map built from {w} differs: {got[0]} instead of {mine[0]}; {observe.diff(mine[1], got[1])[:3]}", xml=xml)
            return False
        ctx.count("builders")
    return True


def case(rng, ctx):
    doc, _ = gen.make(rng, **rng.choice(PROFILES))
    blocks(rng, doc, ctx)
    overlay(rng, doc, ctx)
    if rng.random() < 0.1:
        c15.breakit(rng, doc, c17.Null())
    xml = emit.to_xml(doc).encode()
    c = judge.run_xml(xml)
    if c.exc is not None:
        ctx.count("refused")
        return builders(ctx, rng, xml, (c.exc_name, None))
    dev = c.value
    m = PeripheralRegisterMap(dev)
    f = faults(ctx, dev, m.peripheral_map)
    if f:
        return ctx.fail("; ".join(f[:4]), xml=xml)
    n = sum(len(p.registers) for p in m.peripheral_map)
    ctx.count("maps")
    if not n:
        return None
    try:
        ref = refproc.process(doc)
    except refproc.Unmodelled:
        ref = None
    if ref is not None and ref.error is None:
        flat = {}
        for p in ref.device["peripherals"]:
            flat[p["name"]] = sorted((b, nm, s) for nm, b, s, _ in p["registers"])
        got = {p.name: sorted((r.address, r.name, r.size) for r in p.registers) for p in m.peripheral_map}
        if got != flat:
            return ctx.fail(f"the map deviates from the reference: {observe.diff(flat, got)[:3]}", xml=xml)
        ctx.count("reference")
    if rng.random() < 0.4 and not builders(ctx, rng, xml, (None, neutral(m))):
        return None
    if rng.random() < 0.4:
        rng.shuffle(dev.peripherals)
        for p in dev.peripherals:
            rng.shuffle(p.address_blocks)
        f = faults(ctx, dev, PeripheralRegisterMap(dev).peripheral_map)
        if f:
            return ctx.fail("after shuffling the device: " + "; ".join(f[:4]), xml=xml)
        ctx.count("shuffled")
    ctx.seen(judge.shape(doc), [(b["offset"], b["size"]) for p in doc["peripherals"] for b in p.get("address_blocks") or []])
    ctx.sample(xml.decode())
    return None
