"""Random SVD documents (docs, see spec.py), steered by a profile of knobs."""
from . import refproc, spec

WORDS = ["alpha", "beta", "gamma", "delta", "status", "control", "data", "timer", "enable", "mode", "irq", "clock"]

DEFAULTS = dict(
    peripherals=(1, 4), rcs=(1, 4), fields=(0, 3), enums=(0, 4), depth=2,
    p_cluster=0.3, p_derive=0.3, p_dim=0.2, p_field_dim=0.1,
    p_size=0.3, p_prop=0.25, p_desc=0.4, p_misc=0.25, p_enum=0.25, p_default=0.15, p_wild=0.2, p_enum_twin=0.2,
    sizes=(8, 16, 32, 32, 64), odd_sizes=0.0, p_overlap=0.1, p_reserved=0.0, p_empty=0.0, p_alt=0.05, p_group=0.05,
    p_cpu=0.2, p_misalign=0.05, p_enum_dup=0.0, p_enum_case=0.0, p_default_clash=0.0, p_enum_range=0.0, p_partial_bits=0.15, p_interrupt=0.3,
    p_own_position=0.8, p_exceed=0.03, max_dim=3, bits_hi=32, p_shuffle=0.6, derive_tries=4, min_derived=0,
    text="plain", p_dim_plain=0.0, p_wc=0.2, p_blocks2=0.3, enum_names_clash=False, p_field_access=0.3,
    p_dim_noinc=0.0, p_names_mixed=0.0, p_field_twin=0.05, p_twice=0.1, p_wide_field=0.0, p_broad=0.03, p_reservedish=0.3,
    p_dimless=0.15, p_enum_own=0.05,
    p_scale=0.03, p_long_name=0.0, p_high=0.05, p_far=0.02, n_interrupts=(1, 3), n_blocks=(2, 3), narrow=False,
)

# documents large in one respect
SCALES = [
    dict(p_long_name=0.4),
    dict(max_dim=45, p_dim=0.35, p_field_dim=0.2, peripherals=(1, 2), rcs=(1, 2), fields=(0, 2), depth=1, p_enum=0.1),
    dict(max_dim=300, p_dim=0.25, p_field_dim=0.0, peripherals=(1, 2), rcs=(1, 2), fields=(0, 1), depth=0, p_enum=0.0),
    dict(peripherals=(12, 40), rcs=(1, 1), fields=(0, 1), depth=0, derive_tries=1),
    dict(peripherals=(1, 1), rcs=(20, 70), depth=0, fields=(0, 1), p_enum=0.1, p_dim=0.02, derive_tries=1),
    dict(peripherals=(1, 1), rcs=(1, 2), depth=0, fields=(10, 32), narrow=True, sizes=(64, 64, 32), p_size=0.9, p_enum=0.1),
    dict(peripherals=(1, 1), rcs=(1, 2), depth=0, fields=(1, 1), p_enum=0.9, enums=(30, 200)),
    dict(peripherals=(1, 1), rcs=(1, 2), depth=9, p_cluster=0.8, fields=(0, 1), p_dim=0.05, max_dim=2),
    dict(p_high=0.8, p_far=0.3),
    dict(n_interrupts=(10, 40), n_blocks=(5, 14), p_interrupt=0.8, p_blocks2=0.8, rcs=(1, 2)),
]

NASTY = ["é", "ß", "Ω", "中", "\U0001f600", "&", "<", ">", '"', "'", "]]>", "\u00a0", "\u2028", "ı", "x\u0301"]


class Gen:
    def __init__(self, rng, **knobs):
        unknown = set(knobs) - set(DEFAULTS)
        assert not unknown, unknown
        self.r = rng
        self.k = {**DEFAULTS, **knobs}
        if rng.random() < self.k["p_scale"]:
            self.k.update(rng.choice(SCALES))
        self.uid = 0
        self.parent = {}  # id(node) -> container node
        self.pending = []  # nodes that are to become derived

    # -- small things ------------------------------------------------------------------------
    def p(self, name):
        return self.r.random() < self.k[name]

    def between(self, name):
        return self.r.randint(*self.k[name])

    def unique(self, prefix):
        self.uid += 1
        return f"{prefix}_{self.uid}"

    def called(self, name):
        """A name, sometimes much longer than usual."""
        if not self.p("p_long_name"):
            return name
        return name + "_" + "".join(self.r.choice("abcdefgh_123") for _ in range(self.r.choice([20, 26, 40, 64, 130, 260]))) + "z"

    def words(self, n=3):
        r = self.r
        if self.k["text"] == "nasty":
            parts = [r.choice(WORDS + NASTY * 2) for _ in range(r.randint(1, n + 2))]
            s = r.choice([" ", "", "  ", "\n  ", "\t"]).join(parts)
            if r.random() < 0.3:
                s = r.choice([" ", "\n", "\n   "]) + s + r.choice(["", "\n", " "])
            return s
        return " ".join(r.choice(WORDS) for _ in range(r.randint(1, n)))

    def tag(self, prefix):
        """A short text value without significant white space."""
        s = f"{prefix}{self.r.randint(0, 99)}"
        if self.k["text"] == "nasty" and self.r.random() < 0.4:
            s = s + self.r.choice(NASTY[:9]) + self.r.choice(["", " ", "b"]) + "z"
        return s

    def opt(self, d, key, prob, fn):
        if self.r.random() < prob:
            d[key] = fn()

    def size(self):
        if self.p("odd_sizes"):
            return self.r.choice([1, 4, 7, 12, 20, 33, 100, 130, 260, 999])
        return self.r.choice(self.k["sizes"])

    def props(self, d, field=False):
        r, k = self.r, self.k
        if not field:
            self.opt(d, "size", k["p_size"], self.size)
            self.opt(d, "protection", k["p_prop"], lambda: r.choice(spec.ENUMS["protection"]))
            self.opt(d, "reset_value", k["p_prop"], lambda: r.choice([0, 1, 0x55, 0xFFFF, 0xDEADBEEF,
                                                                      r.getrandbits(32), r.getrandbits(64)]))
            self.opt(d, "reset_mask", k["p_prop"], lambda: r.choice([0, 0xFF, 0xFFFFFFFF, r.getrandbits(32)]))
        self.opt(d, "access", k["p_field_access"] if field else k["p_prop"], lambda: r.choice(spec.ENUMS["access"]))

    def write_constraint(self):
        r = self.r
        d = {"kind": "writeconstraint"}
        which = r.randrange(4)
        if which == 0:
            d["write_as_read"] = r.random() < 0.5
        elif which == 1:
            d["use_enumerated_values"] = r.random() < 0.5
        elif which == 2:
            a = r.choice([0, 0, r.randint(0, 50)])
            d["range_"] = (a, r.choice([a, a + r.randint(0, 99), 0 if a == 0 else a]))
        else:
            d["write_as_read"] = r.random() < 0.5
            d["range_"] = (0, r.randint(0, 9))
        return d

    def dims(self, d, kind, prefix):
        """Make d an array or a list."""
        r = self.r
        n = r.randint(1, self.k["max_dim"])
        d["dim"] = n
        d["dim_increment"] = None if self.p("p_dim_noinc") else r.choice([0x4, 0x8, 0x10, 0x20, 0x100])
        array = kind == "peripheral" or (kind in ("cluster", "register") and r.random() < 0.5)
        if array:
            d["name"] = r.choice([f"{prefix}[%s]", f"{prefix}[%s]", f"{prefix}[%s]x"])
        else:
            d["name"] = r.choice([f"{prefix}%s", f"{prefix}%s", f"{prefix}_%s_x"])
            if self.p("p_twice"):
                d["name"] = f"{prefix}_%s_%s"
        if r.random() < (0.25 if array else 0.6):
            d["dim_index"] = self.dim_index(n)
        if kind == "register" and r.random() < 0.4:
            mark = "[%s]" if array else "%s"
            d["display_name"] = r.choice([f"Show {mark}", f"{mark} shown", "Same", d["name"]])
        if d["dim_increment"] is None:
            del d["dim_increment"]

    def dim_index(self, n):
        r = self.r
        form = r.randrange(4)
        if form == 0:
            a = r.choice([0, 1, 3, 9, 99])
            return f"{a}-{a + n - 1}"
        if form == 1 and 1 < n <= 26:
            a = r.randint(0, 26 - n)
            return f"{chr(65 + a)}-{chr(65 + a + n - 1)}"
        if form == 2 or n == 1:
            names = [r.choice(["A", "b", "X1", "_y", "7", "0x", "on"]) + str(i) for i in range(n)]
        else:
            names = [f"q{i}" for i in range(n)] if n > 8 else r.sample(["A", "B", "C", "D", "q", "_", "z9", "10", "11"], n)
        return r.choice([",", ", ", ",", ",", ",\n    ", ",\t", ",  \n"]).join(names)

    # -- elements ----------------------------------------------------------------------------
    def device(self):
        r, k = self.r, self.k
        d = {"kind": "device", "xs_no_namespace_schema_location": "CMSIS-SVD.xsd", "schema_version": "1.3",
             "name": self.tag("Dev"), "version": "1.0", "description": self.words(), "address_unit_bits": 8,
             "width": 32}
        if r.random() < k["p_misc"] * 2:
            d["xs_no_namespace_schema_location"] = r.choice(["CMSIS-SVD.xsd", "CMSIS-SVD_Schema_1_1.xsd", "x y.xsd"])
            d["schema_version"] = r.choice(["1.1", "1.2", "1.3", "1.3.9"])
            d["version"] = r.choice(["1.0", "2.3.4", "0", "beta"])
            d["address_unit_bits"] = r.choice([8, 8, 16, 32])
            d["width"] = r.choice([8, 16, 32, 64])
        for a in ("vendor", "vendor_id", "series", "header_system_filename", "header_definitions_prefix"):
            self.opt(d, a, k["p_misc"], lambda: self.tag(a.replace("_", "")))
        self.opt(d, "license_text", k["p_misc"], lambda: self.words(6))
        self.opt(d, "cpu", k["p_cpu"], self.cpu)
        self.props(d)
        if d.get("size") is not None and d["size"] % 8:
            d["size"] = 32
        base = r.choice([0, 0x1000, 0x40000000])
        if self.p("p_high"):
            base = r.choice([0xFFFF0000, 0xFFFFF000, 0x100000000, 0x7FFFFFFFFF000, 0xFFFFFFFFFFFF0000])
        d["peripherals"] = []
        n = self.between("peripherals")
        names = r.sample(range(1, max(12, n + 1)), max(11, n))
        for i in range(n):
            pr, base = self.peripheral(self.called(f"P{names[i]}"), base)
            d["peripherals"].append(pr)
            self.parent[id(pr)] = d
        return d

    def cpu(self):
        r = self.r
        c = {"kind": "cpu", "name": r.choice(spec.ENUMS["cpuname"]), "revision": f"r{r.randint(0, 9)}p{r.randint(0, 9)}",
             "endian": r.choice(spec.ENUMS["endian"]), "nvic_prio_bits": r.randint(2, 8),
             "vendor_systick_config": r.random() < 0.5}
        for a in ("mpu_present", "fpu_present", "fpu_dp", "dsp_present", "icache_present", "dcache_present",
                  "itcm_present", "dtcm_present", "vtor_present"):
            self.opt(c, a, 0.5, lambda: r.random() < 0.5)
        self.opt(c, "device_num_interrupts", 0.4, lambda: r.choice([0, 1, 32, 240]))
        self.opt(c, "sau_num_regions", 0.4, lambda: r.choice([0, 4, 8]))
        if r.random() < 0.4:
            s = c["sau_regions_config"] = {"kind": "sauconfig", "regions": []}
            self.opt(s, "enabled", 0.6, lambda: r.random() < 0.5)
            self.opt(s, "protection_when_disabled", 0.6, lambda: r.choice(spec.ENUMS["protection"]))
            for i in range(r.randint(0, 3)):
                g = {"kind": "sauregion", "base": r.choice([0, r.getrandbits(32) & ~31]), "limit": r.getrandbits(32) | 31,
                     "access": r.choice(spec.ENUMS["sauaccess"])}
                self.opt(g, "enabled", 0.5, lambda: r.random() < 0.5)
                self.opt(g, "name", 0.5, lambda: f"SAU{i}")
                s["regions"].append(g)
        return c

    def peripheral(self, name, base):
        r, k = self.r, self.k
        derive = self.p("p_derive")
        if self.p("p_misalign"):
            base += r.choice([1, 2, 3])
        d = {"kind": "peripheral", "name": name, "base_address": base}
        span = 0x1000
        if self.p("p_dim"):
            self.dims(d, "peripheral", self.unique("PD"))
            if "dim_increment" in d:
                d["dim_increment"] = r.choice([0x1000, 0x1000, 0x400, 0x20])
                if self.p("p_misalign"):
                    d["dim_increment"] += r.choice([1, 2])
            span = 0x1000 * d["dim"]
        for a in ("version", "group_name", "prepend_to_name", "append_to_name", "header_struct_name",
                  "disable_condition"):
            self.opt(d, a, k["p_misc"], lambda: self.tag(a[:3]))
        self.opt(d, "description", k["p_desc"], self.words)
        self.props(d)
        d["address_blocks"] = [] if derive and r.random() < 0.6 else self.blocks()
        d["interrupts"] = [self.interrupt() for _ in range(self.between("n_interrupts"))] if self.p("p_interrupt") else []
        empty = self.p("p_empty")
        lo, hi = k["rcs"]
        n = 0 if empty else r.randint(0, max(1, hi - 1)) if derive else r.randint(lo, hi)
        self.rcs(d, n, k["depth"], derive)
        if derive:
            self.pending.append(d)
        if not self.p("p_overlap"):
            base = (base + span + 0xFFF) & ~0xFFF
        else:
            base += r.choice([0, 4, 0x10, 0x100])
        return d, base

    def blocks(self):
        r = self.r
        out, at = [], 0
        for _ in range(self.between("n_blocks") if self.p("p_blocks2") else 1):
            size = r.choice([4, 0x10, 0x40, 0x100, 0x400])
            b = {"kind": "addressblock", "offset": at, "size": size, "usage": r.choice(spec.ENUMS["token"])}
            self.opt(b, "protection", 0.2, lambda: r.choice(spec.ENUMS["protection"]))
            out.append(b)
            at += size if not self.p("p_overlap") else r.choice([0, 4, size // 2])
            if r.random() < 0.3:
                at += 0x40
        if r.random() < self.k["p_shuffle"]:
            r.shuffle(out)
        return out

    def interrupt(self):
        r = self.r
        d = {"kind": "interrupt", "name": self.unique("IRQ"), "value": r.choice([0, r.randint(0, 300), r.randint(0, 1000), r.randint(0, 1000),
                                                                                     r.choice([255, 256, 1023, 1024, 65536, 2 ** 31])])}
        self.opt(d, "description", 0.4, self.words)
        return d

    def rcs(self, owner, n, depth, derive):
        r, k = self.r, self.k
        owner["registers_clusters"] = out = []
        pool = r.sample(range(1, max(14, n + 1)), max(13, n))
        at = r.choice([0, 0, 4, 0x10]) if not derive else 0x40 * r.randint(1, 9)
        for i in range(n):
            cluster = depth > 0 and self.p("p_cluster")
            prefix = "C" if cluster else "R"
            name = self.called(self.unique(prefix) if derive else f"{prefix}{pool[i]}")
            if not cluster and self.p("p_reserved"):
                name = self.reserved()
                if any(x["name"].lower() == name.lower() for x in out):
                    continue
            c = self.cluster(name, at, depth) if cluster else self.register(name, at)
            if not cluster and self.p("p_group"):
                c["alternate_group"] = f"Grp{r.choice('ABC')}{i}"
                twins = [x for x in out if x["kind"] == "register" and not x.get("dim") and not x.get("alternate_group")]
                if twins and not c.get("dim") and r.random() < 0.6:
                    t = r.choice(twins)
                    c["name"] = t["name"]
                    c["address_offset"] = at = t["address_offset"]
            self.parent[id(c)] = owner
            out.append(c)
            step = (0x40 if cluster else 0x10) * (c.get("dim") or 1)
            if self.p("p_overlap"):
                at += r.choice([0, 1, 2, 4])
            else:
                at += r.choice([step, step, step + 0x20])
            if self.p("p_far"):
                at = (at | r.choice([0xFFF, 0xFFFF, 0xFFFFF, 0xFFFFFFF])) + 1
        if r.random() < k["p_shuffle"]:
            r.shuffle(out)
        if self.p("p_alt") and len(out) > 1:
            a, b = r.sample(out, 2)
            if a["kind"] == b["kind"] == "register" and "%s" not in b["name"] and not a.get("alternate_group"):
                a["alternate_register"] = b["name"]
            elif a["kind"] == b["kind"] == "cluster" and "%s" not in b["name"]:
                a["alternate_cluster"] = b["name"]

    def reserved(self):
        """A name marking filler, or one only looking like it."""
        if self.p("p_reservedish"):
            return self.r.choice(["RESERVED_CTRL", "Reserved1", "reserved_", "_RESERVED", "NotReserved", "Reserve", "RESERVEDx"])
        return self.r.choice(["reserved", "Reserved", "RESERVED"])

    def cluster(self, name, at, depth):
        r, k = self.r, self.k
        derive = self.p("p_derive")
        d = {"kind": "cluster", "name": name, "address_offset": at}
        if self.p("p_dim"):
            self.dims(d, "cluster", self.unique("CD"))
        self.opt(d, "description", k["p_desc"], self.words)
        self.opt(d, "header_struct_name", k["p_misc"], lambda: self.tag("hs"))
        self.props(d)
        if d.get("size") is not None and d["size"] % 8:
            d["size"] = 16
        lo, hi = k["rcs"]
        n = 0 if self.p("p_empty") else r.randint(0, 2) if derive else r.randint(max(1, lo), hi)
        self.rcs(d, n, depth - 1, derive)
        if derive:
            self.pending.append(d)
        return d

    def register(self, name, at):
        r, k = self.r, self.k
        derive = self.p("p_derive")
        d = {"kind": "register", "name": name, "address_offset": at + (r.choice([1, 2]) if self.p("p_misalign") else 0)}
        self.opt(d, "display_name", k["p_misc"], lambda: r.choice([self.tag("Disp"), self.tag("Disp"), name, "0"]))
        if self.p("p_dim") and name.lower() != "reserved":
            d.pop("display_name", None)
            self.dims(d, "register", self.unique("RD"))
        self.opt(d, "description", k["p_desc"], self.words)
        self.props(d)
        self.opt(d, "data_type", k["p_misc"], lambda: r.choice(spec.ENUMS["datatype"]))
        self.opt(d, "modified_write_values", k["p_misc"], lambda: r.choice(spec.ENUMS["mwv"]))
        self.opt(d, "write_constraint", k["p_wc"], self.write_constraint)
        self.opt(d, "read_action", k["p_misc"], lambda: r.choice(spec.ENUMS["readaction"]))
        self.fields(d, derive)
        if derive:
            self.pending.append(d)
        return d

    def fields(self, reg, derive):
        r, k = self.r, self.k
        reg["fields"] = out = []
        lo, hi = k["fields"]
        n = r.randint(0, min(1, hi)) if derive else r.randint(lo, hi)
        at = r.choice([20, 24, 27]) if derive else 0
        pool = r.sample(range(1, max(14, n + 1)), max(13, n))
        for i in range(n):
            name = self.called(self.unique("F") if derive else f"F{pool[i]}")
            if self.p("p_reserved"):
                name = self.reserved()
            f, at = self.field(name, at)
            self.parent[id(f)] = reg
            out.append(f)
            if at > 40 and self.k["p_broad"]:
                break
            if self.p("p_field_twin") and not f.get("dim") and "_fallback" not in f:
                # the same bits mean one thing when read and another when written
                twin = {"kind": "field", "name": self.unique(r.choice(["E", "FT"])), "enumerated_value_containers": []}
                twin.update({a: f[a] for a in BITS if a in f})
                f["access"], twin["access"] = r.choice([("read-only", "write-only"), ("write-only", "read-only")])
                self.parent[id(twin)] = reg
                out.append(twin)
        if r.random() < k["p_shuffle"]:
            r.shuffle(out)

    def position(self, d, lsb, msb):
        r = self.r
        form = r.randrange(3)
        if form == 0:
            d["bit_offset"], d["bit_width"] = lsb, msb - lsb + 1
        elif form == 1:
            d["lsb"], d["msb"] = lsb, msb
        else:
            d["bit_range"] = f"[{msb}:{lsb}]"

    def field(self, name, at):
        r, k = self.r, self.k
        derive = self.p("p_derive")
        width = r.choice([1, 1, 2, 3, 4, 5, 8])
        if self.p("p_wide_field"):
            width = r.choice([9, 10, 11, 12])
        lsb = at + r.choice([0, 0, 1, 2])
        if k["narrow"]:
            width, lsb = r.choice([1, 1, 1, 2]), at + r.choice([0, 0, 0, 0, 1])
        if self.p("p_exceed"):
            lsb += 40
        broad = not derive and not k["narrow"] and self.p("p_broad")
        if broad:
            lsb = at
            width = r.choice([max(1, 32 - at), max(1, 32 - at), max(1, 31 - at), 12, 16, 20, 24, 32, 33, 48, 64, 64 - at, 128])
        d = {"kind": "field", "name": name}
        nxt = lsb + width
        if self.p("p_field_dim") and name.lower() != "reserved" and not broad:
            self.dims(d, "field", self.unique("FD"))
            d["dim_increment"] = width + r.choice([0, 0, 1, 3])
            nxt = lsb + d["dim_increment"] * (d["dim"] - 1) + width
        self.position(d, lsb, lsb + width - 1)
        if derive and not self.p("p_own_position"):
            for a in ("bit_offset", "bit_width", "lsb", "msb", "bit_range"):
                d.pop(a, None)
            if self.p("p_partial_bits"):
                d.update(r.choice([{"bit_offset": lsb}, {"bit_width": width}, {"lsb": lsb}, {"msb": lsb + width - 1}]))
        self.opt(d, "description", k["p_desc"], self.words)
        self.props(d, field=True)
        self.opt(d, "modified_write_values", k["p_misc"], lambda: r.choice(spec.ENUMS["mwv"]))
        self.opt(d, "write_constraint", k["p_wc"] / 2, self.write_constraint)
        self.opt(d, "read_action", k["p_misc"] / 2, lambda: r.choice(spec.ENUMS["readaction"]))
        d["enumerated_value_containers"] = cs = []
        if self.p("p_enum") and (not derive or self.p("p_enum_own")):
            usages = [r.choice([None, "read", "write", "read-write"])]
            if self.p("p_enum_twin"):
                usages = ["read", "write"]
                r.shuffle(usages)
            for u in usages:
                c = self.broad_container(width, u) if broad and width > 8 else self.enum_container(width, u)
                self.parent[id(c)] = d
                cs.append(c)
        if derive:
            self.pending.append(d)
            d["_fallback"] = (lsb, lsb + width - 1)
        return d, nxt

    def enum_container(self, width, usage):
        r, k = self.r, self.k
        c = {"kind": "enumcontainer", "enumerated_values": []}
        if usage:
            c["usage"] = usage
        self.opt(c, "name", 0.7, lambda: self.unique("E"))
        self.opt(c, "header_enum_name", k["p_misc"], lambda: self.tag("he"))
        if self.p("p_derive"):
            self.pending.append(c)
        self.enum_values(c, width)
        return c

    def broad_container(self, width, usage):
        """A few values of a field too wide to list the others, some out of its reach."""
        r = self.r
        c = {"kind": "enumcontainer", "enumerated_values": []}
        if usage:
            c["usage"] = usage
        self.opt(c, "name", 0.7, lambda: self.unique("E"))
        pool = {0, 1, 255, 256, 65535, 2 ** width - 1, 2 ** (width - 1), 2 ** width // 3, r.randrange(2 ** width)}
        pool = {n for n in pool if n < 2 ** width}
        if self.p("p_enum_range"):
            pool |= {2 ** width, 2 ** width + 1}
        for i, n in enumerate(r.sample(sorted(pool), r.randint(1, min(4, len(pool))))):
            v = {"kind": "enumvalue", "name": self.tag(f"b{i}"), "value": self.enum_number(n)}
            if self.p("p_wild") and r.random() < 0.4 and not n % 4:
                v["value"] = r.choice(["#", "0b"]) + f"{n:0{width}b}"[:-2] + r.choice(["xx", "1x", "x0"])
                if n + 3 in pool or n + 1 in pool or n + 2 in pool:
                    v["value"] = self.enum_number(n)
            self.opt(v, "description", self.k["p_desc"], self.words)
            c["enumerated_values"].append(v)
        return c

    def enum_values(self, c, width):
        r = self.r
        top = 2 ** min(width, 8)
        used = set()
        lo, hi = self.k["enums"]
        for i in range(r.randint(lo, hi)):
            v = {"kind": "enumvalue", "name": f"v{i}"}
            if self.k["text"] == "nasty":
                v["name"] = self.tag(f"v{i}")
            self.opt(v, "description", self.k["p_desc"], self.words)
            if self.p("p_wild") and width > 1:
                bits = "".join(r.choice("01xX") for _ in range(min(width, 5)))
                if width > 8:
                    bits = "".join(r.choice("01xXxxXxxX") for _ in range(width))
                v["value"] = r.choice(["0b", "#", "0B"]) + bits
                nums = refproc.enum_numbers(v["value"])[0]
            else:
                n = r.randrange(top)
                if self.p("p_enum_range"):
                    n = top + r.choice([0, 1, 7])
                v["value"] = self.enum_number(n)
                nums = [n]
            if used & set(nums) and not self.p("p_enum_dup"):
                continue
            used |= set(nums)
            if self.p("p_enum_dup") and r.random() < 0.5 and c["enumerated_values"]:
                v["name"] = r.choice(c["enumerated_values"])["name"]
            elif self.p("p_enum_case") and c["enumerated_values"]:
                names = {x["name"] for x in c["enumerated_values"]}
                other = r.choice(c["enumerated_values"])["name"]
                other = r.choice([other.upper(), other.swapcase(), other + "_", "_" + other, other + "0"])
                if other not in names and other.lower() != "reserved" and "%s" not in other and "%S" not in other:
                    v["name"] = other
            if self.p("p_reserved"):
                v["name"] = self.reserved()
            if r.random() < 0.1:
                v["is_default"] = False
            c["enumerated_values"].append(v)
        if self.p("p_default"):
            v = {"kind": "enumvalue", "name": "dflt", "is_default": True}
            n = r.randrange(top)
            if r.random() < 0.25 and (n not in used or self.p("p_enum_dup")):  # says nothing: it stands for what is left
                v["value"] = self.enum_number(n)
            self.opt(v, "description", self.k["p_desc"], self.words)
            if c["enumerated_values"] and self.p("p_default_clash"):
                r.choice(c["enumerated_values"])["name"] = f"dflt_{r.randrange(top)}"
            c["enumerated_values"].insert(r.randint(0, len(c["enumerated_values"])), v)
        if not c["enumerated_values"]:
            c["enumerated_values"].append({"kind": "enumvalue", "name": "only", "value": "0"})

    def enum_number(self, n):
        return self.r.choice([str(n), str(n), hex(n), f"0X{n:02X}", f"#{n:b}", f"0b{n:04b}", f"0{n}" if n else "00", f"0x{n:010x}",
                              f"0X{n:016X}", f"#{n:040b}", f"{n:012d}"])

    # -- derivation --------------------------------------------------------------------------
    def index(self, doc):
        self.by_kind = {}
        self.parent = {}
        for n in spec.walk(doc):
            self.by_kind.setdefault(n["kind"], []).append(n)
            for c in spec.children(n):
                self.parent[id(c)] = n

    def chain(self, n):
        out = []
        while n["kind"] != "device":
            out.append(n)
            n = self.parent[id(n)]
        return out[::-1]

    def concrete(self, n):
        """A name n can be referred to by: its own, or one of its instances'."""
        if n.get("dim") and "%s" in (n.get("name") or "") and self.r.random() < 0.6:
            try:
                if "[%s]" in n["name"]:
                    return n["name"].replace("[%s]", str(self.r.randrange(n["dim"])))
                return n["name"].replace("%s", self.r.choice(refproc.dim_names(n["dim"], n.get("dim_index"))))
            except refproc.RefError:
                pass
        return n.get("name")

    def path(self, e, t):
        """Some way to name t from e."""
        r = self.r
        ce, ct = self.chain(e), self.chain(t)
        forms = [ct]
        up = self.parent[id(e)]
        if up["kind"] == "device":
            forms.append(ct)
        elif any(x is up for x in ct):
            i = next(i for i, x in enumerate(ct) if x is up)
            forms += [ct[i + 1:]] * 3
        parts = r.choice(forms)
        names = [self.concrete(x) for x in parts]
        # through a derived twin of a container on the way
        if len(parts) > 1 and r.random() < 0.25:
            twins = [x for x in self.by_kind.get(parts[0]["kind"], ())
                     if x.get("derived_from") == parts[0].get("name") and self.parent[id(x)] is self.parent[id(parts[0])]]
            if twins:
                names[0] = self.concrete(r.choice(twins))
        if any(n is None for n in names):
            return None
        return ".".join(names)

    @staticmethod
    def outcome(doc):
        try:
            return refproc.process(doc)
        except refproc.Unmodelled:
            return None


DIMABLE = ("peripheral", "cluster", "register", "field")
BITS = ("bit_offset", "bit_width", "lsb", "msb", "bit_range")


def make(rng, **knobs):
    """(doc, number of derivations); the reference accepts the doc unless it is not modelled."""
    while True:
        doc, derived = _make(rng, knobs)
        if elements(doc) <= refproc.MAX_ELEMENTS:
            return doc, derived


def elements(n):
    """Elements a doc stands for, before derivation."""
    k = 1 + sum(elements(c) for a in ("peripherals", "registers_clusters", "fields") for c in n.get(a) or [])
    return k * (n.get("dim") or 1)


def _make(rng, knobs):
    g = Gen(rng, **knobs)
    doc = g.device()
    # an element waiting to be derived stands on its own while the others are tried
    for e in g.pending:
        if e["kind"] == "peripheral" and not e["address_blocks"]:
            e["address_blocks"] = g.blocks()
        if e["kind"] == "field":
            e["_own"] = {a: e.pop(a) for a in BITS if a in e}
            g.position(e, *e["_fallback"])
    derived = _derive(g, doc)
    for n in spec.walk(doc):
        n.pop("_fallback", None)
        n.pop("_own", None)
    return doc, derived


def _derive(g, doc):
    g.index(doc)
    r = g.r
    todo = [e for e in g.pending if id(e) in g.parent]
    r.shuffle(todo)
    n = 0
    for e in todo:
        cands = [t for t in g.by_kind[e["kind"]] if t is not e]
        for _ in range(g.k["derive_tries"] if cands else 0):
            t = r.choice(cands)
            path = g.path(e, t)
            if path is None:
                continue
            undo = dict(e)
            if e["kind"] in DIMABLE and "%s" in t["name"] and g.p("p_dimless"):
                # takes (part of) its dimension from what it derives from
                path = ".".join([*path.split(".")[:-1], t["name"]])
                for a in ("dim", "dim_increment", "dim_index"):
                    if r.random() < 0.75:
                        e.pop(a, None)
                if "%s" not in e["name"]:
                    array = e["kind"] == "peripheral" or (e["kind"] != "field" and r.random() < 0.5)
                    e["name"] = g.unique("DL") + ("[%s]" if array else "_%s")
                if e["kind"] == "register" and r.random() < 0.7:
                    e["display_name"] = "Show " + ("[%s]" if "[%s]" in e["name"] else "%s")
            e["derived_from"] = path
            if e["kind"] == "enumcontainer":
                e["enumerated_values"] = []
            if e["kind"] == "field":
                for a in BITS:
                    e.pop(a, None)
                e.update(e["_own"])
            if e["kind"] == "peripheral" and r.random() < 0.5:
                e["address_blocks"] = []
            out = g.outcome(doc)
            if out is not None and out.error is None:
                n += 1
                break
            e.clear()
            e.update(undo)
    return n
