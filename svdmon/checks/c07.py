from .. import emit, gen, judge, profiles, refproc, spec
from . import c05

ID = "C07"
RULE = ("random documents dense in dimensioned peripherals, clusters, registers and fields (lists and arrays, nested, "
        "every dimIndex form, with and without derivations); the processed device is compared with the reference and "
        "with what the library makes of the manually unrolled document; non-trivial: at least one dimension, accepted")
CASES = {"quick": 8800, "thorough": 50000}
REQUIRED = ["dim:peripheral", "dim:cluster", "dim:register", "dim:field", "list", "array", "index:range", "index:letters",
            "index:names", "index:none", "nested", "processed", "display-name", "derived", "large", "inherited-dim:register", "inherited-dim:cluster", "inherited-dim:field", "twice"]
PROFILES = [{**profiles.DIMS, "p_derive": 0.0}, {**profiles.DIMS, "p_derive": 0.0, "p_size": 0.6, "p_prop": 0.6},
            {**profiles.DIMS, "p_derive": 0.0, "p_dim_noinc": 0.1, "p_overlap": 0.3},
            profiles.DIMS, {**profiles.DIMS, "p_derive": 0.4}, profiles.DIMLESS,
            dict(p_derive=0.0, p_dim=0.5, p_field_dim=0.5, max_dim=30, depth=1, peripherals=(1, 1), rcs=(1, 2), fields=(1, 2))]


def case(rng, ctx):
    doc, derived = gen.make(rng, **rng.choice(PROFILES))
    dims = [n for n in spec.walk(doc) if n.get("dim")]
    if not dims:
        return ctx.count("no-dimension")
    xml = emit.to_xml(doc).encode()
    r = c05.verdict(ctx, doc, xml, feature="dimension")
    if r is None or r[0].error is not None:
        return
    judge.count_features(ctx, doc)
    for n in dims:
        ctx.count("array" if "[%s]" in n["name"] else "list")
        ix = n.get("dim_index")
        ctx.count("index:none" if ix is None else "index:letters" if "-" in ix and ix[0].isalpha() else
                  "index:range" if "-" in ix else "index:names")
        if "%s" in (n.get("display_name") or ""):
            ctx.count("display-name")
        if any(c.get("dim") for c in spec.walk(n) if c is not n):
            ctx.count("nested")
        if n["dim"] > 10:
            ctx.count("large")
        if n["name"].count("%s") > 1:
            ctx.count("twice")
    c05.inherited_dims(doc, ctx)
    if derived:
        ctx.count("derived")
    ctx.seen(judge.shape(doc), [(n.get("dim_index"), n.get("dim_increment")) for n in dims])
    ctx.sample(xml.decode())


def _display_name_of_derived_list():
    """Instances of a list derived from a list: what are they displayed as?"""
    doc = {"kind": "device", "xs_no_namespace_schema_location": "CMSIS-SVD.xsd", "schema_version": "1.3", "name": "D",
           "version": "1", "description": "d", "address_unit_bits": 8, "width": 32, "peripherals": [
               {"kind": "peripheral", "name": "P", "base_address": 0, "interrupts": [], "address_blocks": [
                   {"kind": "addressblock", "offset": 0, "size": 64, "usage": "registers"}], "registers_clusters": [
                   {"kind": "register", "name": "R%s", "dim": 2, "dim_increment": 4, "display_name": "Reg%s",
                    "address_offset": 0},
                   {"kind": "register", "name": "S%s", "derived_from": "R%s", "address_offset": 16}]}]}
    call = judge.run_model(doc)
    if call.exc is not None:
        return False
    names = {r.name: r.display_name for r in call.value.peripherals[0].registers_clusters}
    return names.get("S1") == "Reg0" or names.get("S1") == names.get("S0")


FINDINGS = {"display-name-from-dim-base": _display_name_of_derived_list}
