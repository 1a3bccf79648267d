import copy

from .. import emit, gen, judge, profiles, refproc, spec

ID = "C14"
RULE = ("random documents with reserved, empty and unusably sized elements, and with names made equal (siblings, an "
        "instance of a list, an inherited child, a copy at the same place, other alternate groups, other letter case, other scopes); names and "
        "structure of the processed device, left-out warnings and rejections are compared with the reference; "
        "non-trivial: something was left out, refused, or names were made equal")
CASES = {"quick": 6000, "thorough": 100000}
REQUIRED = ["note:ignored-reserved-register", "note:ignored-reserved-field", "note:ignored-cluster",
            "note:ignored-peripheral", "note:ignored-size", "rejected:duplicate-peripheral",
            "rejected:duplicate-register-cluster", "rejected:duplicate-field", "equal-but-accepted", "clash:instance",
            "clash:inherited", "clash:inherited-copy", "clash:copy", "clash:case", "clash:group", "processed", "nothing-left-out", "like-reserved"]
NOTES = {"ignored-reserved-register", "ignored-reserved-field", "ignored-cluster", "ignored-peripheral", "ignored-size"}
PROFILES = [profiles.DROPS, {**profiles.DROPS, "p_derive": 0.0, "p_dim": 0.0}, {**profiles.DROPS, "odd_sizes": 0.0, "p_derive": 0.5},
            dict(p_dim=0.3, p_field_dim=0.3, p_derive=0.2), profiles.WIDE, {**profiles.DENSE_DERIVE, "p_empty": 0.1},
            dict(p_group=0.5, p_overlap=0.3), dict(p_empty=0.4, p_derive=0.4)]
LISTS = ("peripherals", "registers_clusters", "fields")


def clash(rng, doc, ctx):
    owners = [(n, a) for n in spec.walk(doc) for a in LISTS if n.get(a)]
    if not owners:
        return None
    for _ in range(8):
        n, a = rng.choice(owners)
        x = rng.choice(n[a])
        how = rng.randrange(7)
        if how == 0 and len(n[a]) > 1:
            y = rng.choice([y for y in n[a] if y is not x])
            if not x.get("dim") and not y.get("dim"):
                x["name"] = y["name"]
                return "sibling"
        elif how == 1:
            y = next((y for y in n[a] if y.get("dim") and y is not x and "%s" in y["name"]), None)
            if y is not None and not x.get("dim"):
                try:
                    ix = (["0", "1"] if "[%s]" in y["name"] else refproc.dim_names(y["dim"], y.get("dim_index")))
                except refproc.RefError:
                    continue
                x["name"] = y["name"].replace("[%s]", "%s").replace("%s", rng.choice(ix))
                return "instance"
        elif how == 2:
            if n.get("derived_from") and not x.get("dim"):
                base = [m for m in spec.walk(doc) if m["kind"] == n["kind"] and m["name"] == n["derived_from"].split(".")[-1]]
                kids = [k for m in base for k in m.get(a) or [] if not k.get("dim")]
                if kids:
                    if rng.random() < 0.4:  # the same once more, as if it had to be repeated
                        n[a].append(copy.deepcopy(rng.choice(kids)))
                        return "inherited-copy"
                    x["name"] = rng.choice(kids)["name"]
                    return "inherited"
        elif how == 3 and len(n[a]) > 1:
            y = rng.choice([y for y in n[a] if y is not x])
            if not x.get("dim") and not y.get("dim") and y["name"].swapcase() != y["name"]:
                x["name"] = y["name"].swapcase()
                return "case"
        elif how == 4 and a == "registers_clusters":
            y = next((y for y in n[a] if y is not x and y["kind"] == x["kind"] == "register"), None)
            if y is not None and not x.get("dim") and not y.get("dim") and not any(
                    r.get("alternate_register") for r in (x, y)):
                x["name"] = y["name"]
                x["alternate_group"] = "GroupX"
                if rng.random() < 0.5:
                    y["alternate_group"] = rng.choice(["GroupY", "GroupX"])
                return "group"
        elif how == 6 and not x.get("dim"):
            n[a].insert(rng.randrange(len(n[a]) + 1), copy.deepcopy(x))
            return "copy"
        elif how == 5:
            others = [y for m, b in owners if b == a and m is not n for y in m[b] if not y.get("dim")]
            if others and not x.get("dim"):
                x["name"] = rng.choice(others)["name"]
                return "other-scope"
    return None


def case(rng, ctx):
    doc, _ = gen.make(rng, **rng.choice(PROFILES))
    how = clash(rng, doc, ctx) if rng.random() < 0.6 else None
    xml = emit.to_xml(doc).encode()
    r = judge.judge(ctx, doc, keep=(), notes=NOTES, xml=xml)
    if r is None:
        return
    ref, call = r
    for n in ref.notes:
        ctx.count("note:" + n[0])
    if ref.error is None and any(n["kind"] in ("register", "field") and "reserve" in n["name"].lower() != "reserved" for n in spec.walk(doc)):
        ctx.count("like-reserved")
    if how:
        ctx.count("clash:" + how)
        if ref.error is None:
            ctx.count("equal-but-accepted")
    if ref.error is None and not any(n[0] in NOTES for n in ref.notes):
        ctx.count("nothing-left-out")
    if how or ref.error or any(n[0] in NOTES for n in ref.notes):
        ctx.seen(judge.shape(doc), how, ref.error)
        ctx.sample(xml.decode())
