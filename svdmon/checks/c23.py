import collections
import os
import shutil
import tempfile

from .. import emit, env, gen, judge, observe, profiles, raw, refproc, spec

ID = "C23"
RULE = ("(a) random parse-level documents written with known irregularities (white space around values and attributes, "
        "repeated elements, no schema location, no description, interrupts without value, unknown access): one parser "
        "warning each, naming the element, and no other; (b) random processable documents with and without tolerated "
        "faults (misaligned, out of range, dimension without placeholder, ...): per element name as many process warnings "
        "as the reference finds faults, none for faultless documents, whatever the entry point; non-trivial: at least one "
        "irregularity, or a judged clean document")
CASES = {"quick": 20000, "thorough": 100000}
REQUIRED = ["stripped", "repeated", "attr-space", "missing:description", "missing:location", "missing:value", "unknown:access",
            "parse:clean", "process:clean", "note:misaligned", "note:misaligned-peripheral", "note:field-exceeds",
            "note:dim-without-percent", "note:ignored-size", "note:ignored-cluster", "note:ignored-peripheral",
            "note:ignored-reserved-field", "note:ignored-reserved-register", "file", "whole-chain:clean",
            "repeated:cpu", "repeated:sauRegionsConfig", "repeated:writeConstraint", "repeated:range", "repeated:dimArrayIndex"]
STRUCTURED = ("cpu", "sauRegionsConfig", "writeConstraint", "range", "dimArrayIndex")
CLEAN = dict(p_misalign=0.0, p_exceed=0.0, p_overlap=0.0, p_alt=0.0, p_group=0.0, enums=(1, 3))
PROFILES = [CLEAN, {**CLEAN, "p_derive": 0.0, "p_dim": 0.0, "p_field_dim": 0.0}, {**CLEAN, "p_misalign": 0.2},
            {**CLEAN, "p_exceed": 0.1, "p_derive": 0.2}, {**profiles.DROPS, **CLEAN, "p_reserved": 0.15}, {**profiles.DIMS, **CLEAN},
            {**profiles.SIZES, **CLEAN, "p_misalign": 0.1}, {**profiles.ENUMS, **CLEAN}, {**CLEAN, "p_overlap": 0.2},
            {**profiles.DENSE_DERIVE, **CLEAN, "p_misalign": 0.1}]


# -- (a) ---------------------------------------------------------------------------------------------
def irregular(rng, doc, lex, ctx):
    """Changes the document in a way the parser tolerates; returns what the parsed device has to say instead."""
    exp = spec.normal(doc)
    twin = dict(zip(map(id, spec.walk(doc)), spec.walk(exp)))
    for n in list(spec.walk(doc)):
        e = twin[id(n)]
        if n["kind"] == "device":
            if rng.random() < 0.2:
                n.pop("description", None)
                e["description"] = ""
                lex.event("missing:description", "description")
            if rng.random() < 0.2:
                n.pop("xs_no_namespace_schema_location", None)
                e["xs_no_namespace_schema_location"] = ""
                lex.event("missing:location", "noNamespaceSchemaLocation")
        elif n["kind"] == "interrupt" and rng.random() < 0.2:
            n.pop("value", None)
            e["value"] = 0
            lex.event("missing:value", "value")
        if n["kind"] in ("device", "peripheral", "cluster", "register", "field") and n.get("access") and rng.random() < 0.1:
            bad = rng.choice(["bogus", "readwrite", "rw", "Read_Only"])
            n["access"] = bad
            e["access"] = None
            lex.event("unknown:access", bad)
    return exp


def parsing(rng, ctx):
    doc = raw.device(rng, p=rng.choice([0.2, 0.5]), width=rng.choice([(0, 1), (0, 2), (1, 2)]), depth=rng.choice([0, 1, 2]),
                     text=rng.choice(["plain", "nasty"]))
    on = rng.random() < 0.75
    lex = emit.Lex(rng, shuffle=rng.random() < 0.5, vendor=rng.random() < 0.5, inner_comments=rng.random() < 0.3,
                   dups=on and rng.random() < 0.5, space=on and rng.random() < 0.5, attr_space=on and rng.random() < 0.5,
                   crlf=True, split=True, foreign=rng.random() < 0.2)
    exp = irregular(rng, doc, lex, ctx) if on and rng.random() < 0.6 else spec.normal(doc)
    head = "<?xml version='1.0' encoding='utf-8'?>\n"
    xml = emit.to_xml(doc, lex, declaration=head).encode()
    call = observe.Call(lambda: env.Parser.from_xml_content(xml).get_parsed_device())
    if call.exc is not None:
        return ctx.fail(f"tolerated irregularities {lex.events} refused: {call!r}", xml=xml)
    d = observe.diff(exp, observe.parsed(call.value))
    if d:
        return ctx.fail("; ".join(d[:4]), xml=xml)
    said = [m for c, m in call.warnings]
    for what, n in collections.Counter(t for _, t in lex.events).items():
        if sum(judge.mentions(m, what) for m in said) < n:
            return ctx.fail(f"{n} irregularities of '{what}' but fewer warnings naming it: {said[:6]}", xml=xml)
    if len(said) != len(lex.events) or any(c != "ParserWarning" for c, _ in call.warnings):
        return ctx.fail(f"{len(lex.events)} irregularities {lex.events[:6]} but {len(said)} warnings {call.warnings[:6]}", xml=xml)
    for w, _ in lex.events:
        ctx.count(w)
    for k in lex.stats:
        if k.startswith("dup:") and k[4:] in STRUCTURED:
            ctx.count("repeated:" + k[4:])
    for k in ("attr-space",):
        ctx.count(k, lex.stats.get(k, 0))
    ctx.count("parse:irregular" if lex.events else "parse:clean")
    ctx.seen(xml)
    ctx.sample(xml.decode())
    return None


# -- (b) ---------------------------------------------------------------------------------------------
def disturb(rng, doc, ctx):
    nodes = [n for n in spec.walk(doc) if n["kind"] in gen.DIMABLE]
    for n in rng.sample(nodes, min(len(nodes), rng.choice([0, 1, 1, 2]))):
        how = rng.randrange(4)
        if how == 0 and "%s" not in n["name"]:
            n["dim"] = rng.choice([1, 2, 5])
            n["dim_increment"] = 4
        elif how == 1 and n["kind"] in ("register", "cluster"):
            n["address_offset"] += rng.choice([1, 2, 3])
        elif how == 2 and n["kind"] == "peripheral":
            n["base_address"] += rng.choice([1, 2, 3])
        elif how == 3 and n["kind"] == "register" and not n.get("dim"):
            n["size"] = rng.choice([8, 16, 32, 64, 128])


EXACT = {"misaligned", "misaligned-peripheral", "field-exceeds", "ignored-size", "ignored-cluster", "ignored-peripheral",
         "ignored-reserved-field", "ignored-reserved-register"}


def faults(ref, call):
    said = [m for c, m in call.warnings if c == "ProcessWarning"]
    notes = [n for n in ref.every if n[0] not in judge.SILENT]
    maybe = [n for n in notes if n[0].startswith("maybe:")]
    out = []
    if not notes and said:
        out.append(f"a faultless document gives warnings: {said[:4]}")
    out += judge.warning_faults(ref, call, strict=True)
    # faults of definitions and of enumerated values may be met once or once per instance; the others are those of
    # one element of the device each
    if maybe or any(n[0] not in EXACT for n in notes):
        return out
    names = {w for n in notes for w in judge._words(n) if isinstance(w, str) and not w.startswith("(?i)")}
    for w in names:
        if w.lower() == "reserved":
            continue
        want = sum(w in judge._words(n) for n in notes)
        have = sum(judge.mentions(m, w) for m in said)
        if want != have:
            out.append(f"{want} faults of {w} but {have} warnings: {[n for n in notes if w in n]} {[m for m in said if judge.mentions(m, w)][:6]}")
    if len(said) != len(notes):
        out.append(f"{len(notes)} faults {notes[:5]} but {len(said)} warnings {said[:5]}")
    return out


def processing(rng, ctx):
    doc, _ = gen.make(rng, **rng.choice(PROFILES))
    if rng.random() < 0.5:
        disturb(rng, doc, ctx)
    try:
        ref = refproc.process(doc)
    except refproc.Unmodelled as e:
        return ctx.count("skipped:" + str(e))
    if ref.error is not None:
        return ctx.count("rejected:" + ref.error)
    xml = emit.to_xml(doc).encode()
    call = judge.run_xml(xml)
    if call.exc is not None:
        return ctx.count("refused")
    f = faults(ref, call)
    if any(c != "ProcessWarning" for c, _ in call.warnings):
        f.append(f"other warnings for a regularly spelled document: {[w for w in call.warnings if w[0] != 'ProcessWarning'][:3]}")
    if f:
        return ctx.fail("; ".join(f[:3]), xml=xml, warnings="\n".join(m for _, m in call.warnings))
    for n in ref.notes:
        ctx.count("note:" + n[0])
    if not ref.notes:
        ctx.count("process:clean")
    ctx.seen(judge.shape(doc), ref.notes)
    ctx.sample(xml.decode())
    if ctx.index % 5 == 0:
        chain(rng, ctx, doc, xml, call)
    return None


def chain(rng, ctx, doc, xml, first):
    """Other ways to the same end announce the same; what is made of a device gives no more warnings than the device."""
    d = tempfile.mkdtemp(prefix="svdmon-c23-")
    try:
        path = os.path.join(d, "x.svd")
        with open(path, "wb") as f:
            f.write(xml)
        for name, fn in (("file", lambda: env.Process.from_svd_file(path).get_processed_device()),
                         ("map", lambda: env.PeripheralRegisterMap.from_svd_file(path).peripheral_map),
                         ("str", lambda: env.Process.from_xml_str(xml.decode()).get_processed_device())):
            other = observe.Call(fn)
            if sorted(other.warnings) != sorted(first.warnings):
                return ctx.fail(f"warnings through {name} differ: {other.warnings[:4]} / {first.warnings[:4]}", xml=xml)
            ctx.count(name)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if first.warnings:
        return None
    p = env.Process.from_xml_content(xml)

    def rest():
        dev = p.convert_processed_device_to_svd_device()
        text = env.Serializer.device_to_svd_content(dev, pretty_print=rng.random() < 0.5)
        env.Validator.validate_xml_content(text, False)
        env.Process.from_xml_content(text).get_processed_device()
    call = observe.Call(rest)
    if call.warnings or call.exc is not None:
        return ctx.fail(f"converting, serializing and reading back a faultless device: {call!r} {call.warnings[:3]}", xml=xml)
    ctx.count("whole-chain:clean")
    return None


def case(rng, ctx):
    if rng.random() < 0.5:
        parsing(rng, ctx)
    else:
        processing(rng, ctx)
