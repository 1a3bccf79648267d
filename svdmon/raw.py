"""Random parse-level documents: any combination of members, no regard to whether they can be processed."""
import re

from . import spec

MANDATORY = {
    "device": ["xs_no_namespace_schema_location", "schema_version", "name", "version", "description",
               "address_unit_bits", "width"],
    "cpu": ["name", "revision", "endian", "nvic_prio_bits", "vendor_systick_config"],
    "sauconfig": [], "sauregion": ["base", "limit", "access"],
    "peripheral": ["name", "base_address"], "addressblock": ["offset", "size", "usage"],
    "interrupt": ["name", "value"], "cluster": ["name", "address_offset"], "register": ["name", "address_offset"],
    "field": ["name"], "writeconstraint": [], "enumcontainer": [], "enumvalue": ["name"], "dimarrayindex": [],
}

# absence the parser must reject (the offset of an address block and the value of an interrupt have announced defaults)
REQUIRED = {k: [a for a in v] for k, v in MANDATORY.items()}
REQUIRED["device"] = ["schema_version", "name", "version", "address_unit_bits", "width"]
REQUIRED["addressblock"] = ["size", "usage"]
REQUIRED["interrupt"] = ["name"]

WORDS = ["alpha", "Beta", "x", "UART", "T1", "_q", "ADC0"]
EXTRA = ["é", "ß", "Ω", "中", "\U0001f600", "&", "<", ">", '"', "'", "]]>", "\u00a0", "\u2028", "\u0085", "-", "%", "{}",
         "\u200b", "\ufffd", "\r", "&amp;", "&#65;", "<!--", "\u0130", "\\n", "\\",
         "\u0d0a", "\u0a0d", "\u3c3e", "\u2600"]  # the last ones look like something else when read by bytes
LATIN = ["é", "ß", "&", "<", ">", '"', "'", "]]>", "\u00a0", "-", "%", "ÿ", "£"]


class Raw:
    def __init__(self, rng, p=0.5, text="nasty", width=(0, 3), depth=2, schema=False, big=True):
        self.r, self.pr, self.textmode, self.width, self.depth, self.schema, self.big = (
            rng, p, text, width, depth, schema, big)
        self.wide = rng.random() < 0.05  # one list of this document is long

    def p(self):
        return self.r.random() < self.pr

    def n(self):
        return self.r.randint(*self.width)

    def short(self):
        """Stripped, not empty."""
        r = self.r
        s = r.choice(WORDS)
        if r.random() < 0.002:
            s += "_" + "".join(r.choice("abcdefgh_123") for _ in range(r.choice([30, 64, 130, 260, 1100, 4200])))
        if not self.schema and self.textmode != "plain":
            pool = LATIN if self.textmode == "latin" else EXTRA
            for _ in range(r.randint(0, 3)):
                s += r.choice([r.choice(pool), r.choice(pool), " ", "  ", "\t", "\n"]) + r.choice(["", "a", "0"])
            if r.random() < 0.3:
                s = r.choice(pool) + s
            s = s.strip() or "x"
        return s

    def text(self):
        """White space is significant; may also be blank."""
        r = self.r
        s = " ".join(self.short() for _ in range(r.randint(1, 3) if r.random() > 0.002 else r.choice([40, 200, 1000])))
        if not self.schema and r.random() < 0.4:
            s = r.choice(["", " ", "\n", "\t\n  ", "\r\n"]) + s + r.choice(["", " ", "\n", "\n\n   ", "\r", "\r\n"])
            if r.random() < 0.1:
                s = r.choice([" ", "\n", "\t \n"])
        return s

    def int(self):
        r = self.r
        return r.choice([0, 1, 2, 3, 4, 7, 8, 16, 31, 32, 64, 255, 0x1000, 0x40000000, 0xFFFFFFFF,
                         r.getrandbits(8), r.getrandbits(16), r.getrandbits(32),
                         *([2 ** 32, 2 ** 63 - 1, 2 ** 64 - 1, r.getrandbits(64), 2 ** 64, r.getrandbits(96)] if self.big else [])])

    def value(self, kind, a, t):
        r = self.r
        base = t.lstrip("@")
        if a == "xs_no_namespace_schema_location":
            return r.choice(["CMSIS-SVD.xsd", "CMSIS-SVD_Schema_1_3.xsd", "a&b <c>.xsd", "dir/é.xsd"])
        if a == "schema_version":
            return "1.3" if self.schema else r.choice(["1.1", "1.3", "1.3.9", "2"])
        if self.schema:
            s = self.schema_value(kind, a)
            if s is not None:
                return s
        if base == "int":
            return self.int()
        if base == "dec":
            return r.choice([0, 1, 31, 239, 1023, self.int()])
        if base == "bool":
            return r.random() < 0.5
        if base.startswith("enum:"):
            e = base[5:]
            v = r.choice(spec.ENUMS[e])
            return v if v != "CM0+" or kind != "cpu" else "CM0+"
        if base == "range":
            lo = self.int()
            return (lo, lo + self.int()) if self.schema else (lo, self.int())
        if base == "desc":
            return self.text()
        if a == "value":
            return r.choice(["0", "1", "0x1F", "#01x", "0b1010", "0bxx", "7"] + ([] if self.schema else ["abc", "1 2"]))
        return self.short()

    def schema_value(self, kind, a):
        r = self.r
        ident = "".join(r.choice("abcXYZ_019") for _ in range(r.randint(1, 6) if r.random() > 0.005 else r.randint(20, 200)))
        if ident[0].isdigit():
            ident = "n" + ident
        name = ident
        if kind in ("peripheral", "cluster", "register", "field") and a == "name":
            return name + r.choice(["", "", "%s", "[%s]", "_%s_x"])
        if a in ("name",) and kind not in ("cpu",):
            return name
        if a == "revision":
            return f"r{r.randint(0, 9)}p{r.randint(0, 9)}"
        if a == "vendor_id" or a.startswith("header_") or a.endswith("to_name") or a.startswith("alternate"):
            return ident
        if a == "display_name":
            return ident
        if a == "derived_from":
            return r.choice([ident, ident + ".b", "x.y.z"])
        if a == "dim_index":
            return r.choice(["0-3", "A-D", "A,B,C", "1, 2,3"])
        if a == "dim_name":
            return ident
        if a == "bit_range":
            hi = r.randint(0, 69)
            return f"[{hi}:{r.randint(0, hi)}]"
        if a in ("lsb", "msb", "bit_offset", "bit_width"):
            return r.randint(0, 64)
        if a == "nvic_prio_bits":
            return r.randint(2, 8)
        if a == "device_num_interrupts":
            return r.randint(0, 1024)
        if a == "sau_num_regions":
            return r.randint(0, 255)
        return None

    def node(self, kind, depth=None):
        r = self.r
        depth = self.depth if depth is None else depth
        d = {"kind": kind}
        drop = set()
        if self.schema:
            drop = self.schema_drop(kind)
        for a, _, t in spec.KINDS[kind]:
            if a in drop:
                continue
            if t.startswith("node:"):
                if self.p():
                    d[a] = self.node(t[5:], depth)
            elif t.startswith("list:") or t.startswith("wrap:") or t.startswith("flat:"):
                kinds = t.split(":")[-1].split(",")
                n = self.n()
                if kind == "device" or (self.schema and kind in ("dimarrayindex", "cluster", "enumcontainer")):
                    n = max(1, n)
                if a == "enumerated_value_containers":
                    n = min(n, 2)
                if self.schema and a == "address_blocks" and "derived_from" not in d:
                    n = max(1, n)
                if self.wide and n and r.random() < 0.1 and a not in ("enumerated_value_containers", "peripherals"):
                    self.wide = False
                    n = r.choice([10, 20, 40, 80, 300]) if kinds[0] in LEAVES else r.randint(5, 20)
                kids = []
                for _ in range(n):
                    k = r.choice(kinds)
                    if k == "cluster" and (depth <= 0 or n > 4):
                        k = "register"
                    kids.append(self.node(k, depth - (k == "cluster")))
                d[a] = kids
            elif a in MANDATORY[kind] or self.p():
                d[a] = self.value(kind, a, t)
        if self.schema:
            self.schema_fix(kind, d)
        return d

    def schema_drop(self, kind):
        r = self.r
        drop = set()
        if kind == "field":
            forms = [("bit_offset", "bit_width"), ("lsb", "msb"), ("bit_range",)]
            keep = r.choice(forms)
            for f in forms:
                if f is not keep:
                    drop |= set(f)
        if kind in ("peripheral", "cluster", "register", "field") and r.random() < 0.6:
            drop |= {"dim", "dim_increment", "dim_index", "dim_name", "dim_array_index"}
        if kind == "register":
            drop.add(r.choice(["alternate_group", "alternate_register"]))
        return drop

    def schema_fix(self, kind, d):
        r = self.r
        if "dim" in d or "dim_increment" in d or "dim_index" in d or "dim_name" in d or "dim_array_index" in d:
            d.setdefault("dim", r.randint(1, 9))
            d.setdefault("dim_increment", 4)
        if kind == "field":
            if "lsb" in d or "msb" in d:
                d.setdefault("lsb", 0)
                d.setdefault("msb", 5)
            elif "bit_width" in d or "bit_offset" in d:
                d.setdefault("bit_offset", 3)
            elif "bit_range" not in d:
                d["bit_offset"] = 1
        if kind == "writeconstraint":
            keys = [k for k in d if k != "kind"]
            keep = r.choice(keys) if keys else "write_as_read"
            for k in keys:
                if k != keep:
                    del d[k]
            if not keys:
                d[keep] = True
        if kind == "enumvalue":
            if "is_default" in d:
                d.pop("value", None)
            elif "value" not in d:
                d["value"] = "3"
        if kind == "cluster" and "description" not in d:
            d["description"] = self.text()
        if kind == "peripheral" and "derived_from" in d:
            d["derived_from"] = d["derived_from"].split(".")[0]
        if kind == "sauconfig":
            d["regions"] = d.get("regions") or []


LEAVES = ("addressblock", "interrupt", "sauregion", "enumvalue")


def device(rng, **kw):
    d = Raw(rng, **kw).node("device")
    if rng.random() < 0.01 and d.get("peripherals"):
        # clusters in clusters
        plain = Raw(rng, **{**kw, "p": 0.1, "width": (1, 1), "depth": 0})
        inner = plain.node("cluster")
        for _ in range(rng.choice([5, 12, 20, 40])):
            inner = {**{a: v for a, v in plain.node("cluster").items() if a != "registers_clusters"}, "registers_clusters": [inner]}
        p = rng.choice(d["peripherals"])
        p["registers_clusters"] = [*(p.get("registers_clusters") or []), inner]
    return d


def tame(doc):
    """Cap what multiplies on processing: dims, and field widths (a default value stands for every other value)."""
    for n in spec.walk(doc):
        if isinstance(n.get("dim"), int):
            n["dim"] = min(n["dim"], 33)
        if n["kind"] == "field":
            for a in ("lsb", "bit_offset"):
                if isinstance(n.get(a), int):
                    n[a] %= 64
            if isinstance(n.get("msb"), int):
                n["msb"] = n.get("lsb", 0) + n["msb"] % 12 - 1
            if isinstance(n.get("bit_width"), int):
                n["bit_width"] %= 12
            m = re.fullmatch(r"\[(\d+):(\d+)\]", str(n.get("bit_range")))
            if m:
                n["bit_range"] = f"[{int(m[2]) % 64 + int(m[1]) % 12}:{int(m[2]) % 64}]"
    return doc
