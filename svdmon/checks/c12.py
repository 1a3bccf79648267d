from .. import emit, gen, judge, observe, profiles, spec

ID = "C12"
RULE = ("random documents with nested clusters, dimensions, derivations, several address blocks and interrupts in random "
        "order, also with overlapping addresses; every address, extent and order in the processed device is recomputed "
        "from its own parts, the flat register lists are compared by identity with the tree, and addresses and order "
        "are compared with the reference; non-trivial: accepted with at least one cluster or several elements")
CASES = {"quick": 4000, "thorough": 80000}
REQUIRED = ["processed", "clusters", "nested-cluster", "dim:cluster", "dim:peripheral", "blocks:several", "interrupts",
            "same-address", "derived:cluster", "derived:peripheral", "gap-before-first", "wide-register"]
KEEP = {"base_address", "address_offset", "registers", "end_address", "end_address_effective", "peripheral_size",
        "peripheral_size_effective", "cluster_size", "lsb"}
BASE = dict(depth=3, p_cluster=0.5, rcs=(1, 4), p_interrupt=0.7, p_blocks2=0.6, p_enum=0.0)
PROFILES = [{**BASE, "p_derive": 0.0}, {**BASE, "p_dim": 0.4, "p_derive": 0.0}, {**BASE, "p_derive": 0.6, "p_dim": 0.2},
            {**BASE, "p_overlap": 0.6, "p_group": 0.3, "p_misalign": 0.2}, {**BASE, "peripherals": (2, 6), "p_derive": 0.4},
            {**BASE, "sizes": (8, 16, 32, 64, 128), "p_size": 0.6}]


def ascending(xs, key, what, out):
    ks = [key(x) for x in xs]
    if ks != sorted(ks):
        out.append(f"{what}: not ascending {ks[:12]}")


def container(c, base, what, out):
    """Checks below c; returns the highest address."""
    last = None
    flat = []
    ascending(c.registers_clusters, lambda x: x.base_address, what, out)
    ascending(c.registers_clusters, lambda x: x.address_offset, what + " offsets", out)
    for x in c.registers_clusters:
        here = f"{what}.{x.name}"
        if x.base_address != base + x.address_offset:
            out.append(f"{here}: address {x.base_address:#x}, but {base:#x} + {x.address_offset:#x}")
        if type(x).__name__ == "Register":
            end = x.base_address + x.size // 8 - 1
            ascending(x.fields, lambda f: f.lsb, here, out)
            flat.append(x)
        else:
            end, sub = container(x, x.base_address, here, out)
            flat += sub
            if x.end_address != end:
                out.append(f"{here}: end {x.end_address:#x}, contents end at {end:#x}")
            if x.cluster_size != end - x.base_address + 1:
                out.append(f"{here}: size {x.cluster_size:#x} for {x.base_address:#x}..{end:#x}")
        last = end if last is None else max(last, end)
    return last, flat


def consistent(dev):
    out = []
    ascending(dev.peripherals, lambda p: p.base_address, "peripherals", out)
    for p in dev.peripherals:
        end, flat = container(p, p.base_address, p.name, out)
        ascending(p.address_blocks, lambda b: b.offset, p.name + " address blocks", out)
        ascending(p.interrupts, lambda i: i.value, p.name + " interrupts", out)
        want = {"end_address_effective": end, "peripheral_size_effective": end - p.base_address + 1,
                "end_address": max(p.base_address + b.offset + b.size - 1 for b in p.address_blocks)}
        for a, v in want.items():
            if getattr(p, a) != v:
                out.append(f"{p.name}.{a}: {getattr(p, a):#x} instead of {v:#x}")
        ascending(p.registers, lambda r: r.base_address, p.name + ".registers", out)
        if sorted(map(id, p.registers)) != sorted(map(id, flat)):
            out.append(f"{p.name}.registers: {len(p.registers)} entries for {len(flat)} registers "
                       f"({[r.name for r in p.registers][:8]} / {[r.name for r in flat][:8]})")
    return out


def case(rng, ctx):
    doc, _ = gen.make(rng, **rng.choice(PROFILES))
    xml = emit.to_xml(doc).encode()
    call = judge.run_xml(xml)
    if call.exc is None:
        f = consistent(call.value)
        if f:
            return ctx.fail("; ".join(f[:4]), xml=xml)
    r = judge.judge(ctx, doc, keep=KEEP, xml=xml, call=call, error=False)
    if r is None or r[0].error is not None:
        return
    judge.count_features(ctx, doc)
    n = 0
    for p in r[1].value.peripherals:
        n += len(p.registers)
        if len(p.address_blocks) > 1:
            ctx.count("blocks:several")
        if p.interrupts:
            ctx.count("interrupts")
        ads = [x.base_address for x in p.registers]
        if len(set(ads)) < len(ads):
            ctx.count("same-address")
        if ads and ads[0] > p.base_address:
            ctx.count("gap-before-first")
        if any(x.size > 32 for x in p.registers):
            ctx.count("wide-register")
        for c in p.registers_clusters:
            if type(c).__name__ == "Cluster" and any(type(x).__name__ == "Cluster" for x in c.registers_clusters):
                ctx.count("nested-cluster")
    if n > 1:
        ctx.seen([(x.name, x.base_address, x.size) for p in r[1].value.peripherals for x in p.registers])
        ctx.sample(xml.decode())
