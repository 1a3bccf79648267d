import copy

from .. import emit, gen, judge, observe, profiles, spec

ID = "C06"
RULE = ("random documents, valid and broken, with derivations forming forward and backward references; each is "
        "processed as written and with its siblings reversed, sorted base-last and shuffled (peripherals, registers "
        "and clusters, fields, enumerated values, address blocks, interrupts); all runs must agree on device or on "
        "rejection; non-trivial: at least one permutation really changed the order of a derived element and another")
CASES = {"quick": 3200, "thorough": 30000}
REQUIRED = ["permuted:peripherals", "permuted:registers_clusters", "permuted:fields", "permuted:enumerated_values",
            "permuted:address_blocks", "permuted:interrupts", "accepted", "refused", "moved-derivation", "chain:3", "chain-long"]
LISTS = ("peripherals", "registers_clusters", "fields", "enumerated_values", "address_blocks", "interrupts",
         "enumerated_value_containers")


def chain_doc(rng):
    """A long chain of references within one list, or across peripherals."""
    n = rng.randint(3, 9)
    kind = rng.choice(["peripheral", "register", "cluster", "field", "cross", "nested", "unfolding", "waiting"])
    many = rng.random() < 0.25
    if many:
        n = rng.randint(30, 100) if kind != "unfolding" else rng.randint(18, 50)
    if kind == "nested":
        # every base is only there once the one before is resolved
        n = rng.randint(3, 8)

    def reg(name, off, **k):
        return {"kind": "register", "name": name, "address_offset": off, "fields": [
            {"kind": "field", "name": "f_" + name, "lsb": 0, "msb": 0}], **k}

    def peri(name, base, rcs, **k):
        blocks = [] if k.get("derived_from") else [{"kind": "addressblock", "offset": 0, "size": 0x1000, "usage": "registers"}]
        return {"kind": "peripheral", "name": name, "base_address": base, "address_blocks": blocks, "interrupts": [],
                "registers_clusters": rcs, **k}

    def link(i):
        return {"derived_from": f"e{i - 1}"} if i else {"size": 16, "access": "read-only", "reset_value": 7}
    if kind == "peripheral":
        ps = [peri(f"e{i}", 0x1000 * i, [reg(f"r{i}", 16 * i)] if rng.random() < 0.5 or i == 0 else [], **link(i)) for i in range(n)]
    elif kind == "register":
        ps = [peri("P", 0, [dict(reg(f"e{i}", 16 * i, **link(i)),
                                 fields=[{"kind": "field", "name": f"f{i}", "lsb": i, "msb": i}]) for i in range(n)])]
    elif kind == "cluster":
        ps = [peri("P", 0, [{"kind": "cluster", "name": f"e{i}", "address_offset": 0x100 * i,
                             "registers_clusters": [reg(f"r{i}", 16 * i)] if i == 0 or rng.random() < 0.5 else [], **link(i)}
                            for i in range(n)])]
    elif kind == "field":
        def fl(i):
            d = {"kind": "field", "name": f"e{i}", "lsb": i, "msb": i, "enumerated_value_containers": []}
            d.update({"derived_from": f"e{i - 1}"} if i else {"access": "read-only", "description": "base"})
            return d
        ps = [peri("P", 0, [{"kind": "register", "name": "R", "address_offset": 0, "fields": [fl(i) for i in range(n)]}])]
    elif kind == "unfolding":
        # an element derives from what its neighbour only got by deriving
        n = n if many else rng.choice([n, rng.randint(10, 24)])
        tag = "cluster"
        content = [reg("R", 0)]
        for i in range(n):
            content = [{"kind": tag, "name": "K", "address_offset": 0, "registers_clusters": content}]
        content[0]["name"] = "X0"
        es = content + [{"kind": tag, "name": f"X{i}", "address_offset": 8 * i, "derived_from": f"X{i - 1}.K",
                         "registers_clusters": []} for i in range(1, n)]
        ps = [peri("P", 0, es)]
    elif kind == "waiting":
        # everything refers to the content of an element that is only filled by deriving itself
        m, b, z = rng.sample("ABCDMXYZ", 3)
        own = [dict(reg(f"{z}{i}", 4 * i), fields=[{"kind": "field", "name": f"f{i}", "lsb": i, "msb": i}], **({"derived_from": f"{z}{rng.randrange(i)}"} if i and rng.random() < 0.3 else {}))
               for i in range(n)]
        ps = [peri("P", 0, [{"kind": "register", "name": f"e{i}", "address_offset": 4 * i, "derived_from": f"{m}.{z}{i}", "fields": []}
                            for i in range(n)]),
              peri(m, 0x10000, [], derived_from=b), peri(b, 0x20000, own)]
    elif kind == "nested":
        where = rng.choice(["peripheral", "cluster"])
        at = "P." if where == "cluster" else ""
        es = []
        for i in range(n):
            own = {"kind": "cluster", "name": f"K{i}", "address_offset": 0x100 * (i + 1),
                   "registers_clusters": [reg(f"r{i}", 16 * i)]}
            if i and rng.random() < 0.8:
                own.update({"derived_from": f"{at}e{i - 1}.K{i - 1}"})
            if where == "peripheral":
                es.append(peri(f"e{i}", 0x10000 * i, [own]))
            else:
                es.append({"kind": "cluster", "name": f"e{i}", "address_offset": 0x10000 * i, "registers_clusters": [own]})
            if i > 1 and rng.random() < 0.3:
                es[i]["derived_from"] = f"e{rng.randrange(i - 1)}"
        ps = es if where == "peripheral" else [peri("P", 0, es)]
    else:
        ps = []
        for i in range(n):
            d = dict(reg("e", 0), fields=[{"kind": "field", "name": f"f{i}", "lsb": i, "msb": i}])
            d.update({"derived_from": f"P{i - 1}.e"} if i else {"size": 8, "description": "base"})
            if i and rng.random() < 0.4:
                d.update({"name": "e", "dim": 2, "dim_increment": 4})
                d["name"] = "e"
                del d["dim"], d["dim_increment"]
            ps.append(peri(f"P{i}", 0x1000 * i, [d]))
    doc = {"kind": "device", "xs_no_namespace_schema_location": "CMSIS-SVD.xsd", "schema_version": "1.3", "name": "D",
           "version": "1", "description": "d", "address_unit_bits": 8, "width": 32, "peripherals": ps}
    return doc, n


def breakit(rng, doc):
    """Damage the derivations or the names."""
    nodes = [n for n in spec.walk(doc) if n["kind"] in ("peripheral", "cluster", "register", "field")]
    n = rng.choice(nodes)
    how = rng.randrange(4)
    same = [m for m in nodes if m["kind"] == n["kind"] and m is not n]
    if how == 0:
        n["derived_from"] = "NoSuch"
    elif how == 1 and same:
        m = rng.choice(same)
        n["derived_from"], m["derived_from"] = m["name"], n["name"]
    elif how == 2 and same:
        n["name"] = rng.choice(same)["name"]
    else:
        n["derived_from"] = rng.choice(nodes)["name"]


def distinct(doc):
    """Ties in keys of address blocks and interrupts are not ordered by anything but the document, and of entries of the
    same name the first is taken."""
    for n in spec.walk(doc):
        if n.get("enumerated_values"):
            n["enumerated_values"] = list({v["name"]: v for v in n["enumerated_values"]}.values())
        for a, k in (("interrupts", "value"), ("address_blocks", "offset")):
            seen, keep = set(), []
            for x in n.get(a) or []:
                v = x.get(k) or 0
                if v not in seen:
                    seen.add(v)
                    keep.append(x)
            if n.get(a):
                n[a] = keep


def permuted(rng, doc, how, ctx):
    doc = copy.deepcopy(doc)
    moved = False
    for n in list(spec.walk(doc)):
        for a in LISTS:
            v = n.get(a)
            if not v or len(v) < 2:
                continue
            w = list(v)
            if how == "reverse":
                w.reverse()
            elif how == "derived-first":
                w.sort(key=lambda x: x.get("derived_from") is None)
            elif how == "derived-last":
                w.sort(key=lambda x: x.get("derived_from") is not None)
            else:
                rng.shuffle(w)
            if [id(x) for x in w] != [id(x) for x in v]:
                ctx.count("permuted:" + a)
                moved = moved or any(x.get("derived_from") for x in v)
            n[a] = w
    if moved:
        ctx.count("moved-derivation")
    return doc


def outcome(doc, viaxml):
    call = judge.run_xml(emit.to_xml(doc).encode()) if viaxml else judge.run_model(doc)
    return call, (observe.processed(call.value) if call.exc is None else call.exc_name)


def case(rng, ctx):
    chain = rng.random() < 0.2
    if chain:
        doc, n = chain_doc(rng)
        ctx.count(f"chain:{n}" if n < 14 else "chain-long")
    else:
        doc, _ = gen.make(rng, **{**rng.choice([profiles.DENSE_DERIVE, profiles.FIELD_DERIVE, profiles.WIDE,
                                                profiles.OVERLAP, profiles.DIMS, profiles.ENUMS, {}]), "p_enum_dup": 0.0})
    distinct(doc)
    if rng.random() < 0.3:
        breakit(rng, doc)
        chain = False
    if chain and rng.random() < 0.5:
        doc = permuted(rng, doc, "shuffle", ctx)
    viaxml = rng.random() < 0.5
    call, first = outcome(doc, viaxml)
    if chain and call.exc is not None:
        return ctx.fail(f"references that can all be resolved are refused: {call!r}", xml=emit.to_xml(doc))
    ctx.count("accepted" if call.exc is None else "refused")
    for how in ("reverse", "derived-first", "derived-last", "shuffle"):
        other = permuted(rng, doc, how, ctx)
        call2, second = outcome(other, viaxml)
        if first != second:
            d = observe.diff(first, second) if call.exc is None and call2.exc is None else []
            return ctx.fail(f"order of definitions matters ({how}): {call!r} / {call2!r} " + "; ".join(d[:3]),
                            xml=emit.to_xml(doc), permuted=emit.to_xml(other))
    ctx.seen(judge.shape(doc))
    ctx.sample(emit.to_xml(doc))
