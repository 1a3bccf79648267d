"""Writes a doc as SVD text, in one of many equivalent spellings."""
from xml.sax.saxutils import escape as _escape, quoteattr

from . import raw, spec

XSI = "http://www.w3.org/2001/XMLSchema-instance"


def escape(s):
    """Text content; a bare carriage return would be read as a line feed."""
    return _escape(s, {"\r": "&#13;"})


class Lex:
    """Spelling choices.  Lex() is plain; Lex(rng, ...) varies everything that must not matter."""

    def __init__(self, rng=None, numbers=True, space=True, comments=True, shuffle=False, cdata=True, bools=True,
                 vendor=False, inner_comments=False, dups=False, split=False, cases=False, nested=False, crlf=False,
                 attr_space=False, foreign=False):
        self.rng = rng
        self.numbers, self.space, self.comments, self.shuffle = numbers, space, comments, shuffle
        self.cdata, self.bools, self.vendor, self.inner_comments = cdata, bools, vendor, inner_comments
        self.dups, self.split, self.cases, self.nested, self.crlf = dups, split, cases, nested, crlf
        self.attr_space, self.foreign = attr_space, foreign
        self.stats = {}
        self.events = []  # (what, tag): irregularities the parser has to announce

    def hit(self, what):
        self.stats[what] = self.stats.get(what, 0) + 1

    def p(self, prob):
        return self.rng is not None and self.rng.random() < prob

    def number(self, v, dec=False):
        if self.rng is None or not self.numbers or v < 0:
            return str(v)
        r = self.rng.randrange(9 if not dec else 3)
        forms = [lambda: str(v), lambda: "0" * self.rng.randint(1, 3) + str(v), lambda: "+" + str(v),
                 lambda: f"0x{v:x}", lambda: f"0X{v:X}", lambda: f"0x{v:08X}", lambda: f"0x{v:04x}",
                 lambda: f"#{v:b}" if v < 1 << 40 else hex(v), lambda: f"#{v:08b}" if v < 1 << 40 else hex(v)]
        self.hit(f"num{r}")
        return forms[r]()

    def boolean(self, v):
        if self.rng is None or not self.bools:
            return "true" if v else "false"
        s = self.rng.choice(["true", "1"] if v else ["false", "0"])
        self.hit(f"bool:{s}")
        return s

    def event(self, what, tag):
        self.events.append((what, tag))

    def text(self, s, verbatim, tag=None):
        """Text content; white space may be added only where it is not significant."""
        if self.rng is None:
            return escape(s)
        if self.cdata and "]]>" not in s and "\r" not in s and self.p(0.1):
            self.hit("cdata")
            body = f"<![CDATA[{s}]]>" if len(s) < 2 or self.p(0.6) else escape(s[:1]) + f"<![CDATA[{s[1:]}]]>"
        elif self.p(0.1) and s:
            self.hit("charref")
            i = self.rng.randrange(len(s))
            body = escape(s[:i]) + f"&#{ord(s[i])};" + escape(s[i + 1:])
        else:
            body = escape(s)
        if self.inner_comments and s and self.p(0.15) and "&" not in body and "<" not in body:
            self.hit("inner-comment")
            i = self.rng.randrange(len(body) + 1)
            body = body[:i] + self.rng.choice(["<!-- c -->", "<?pi x?>", "<!---->"]) + body[i:]
        if self.nested and s.strip() and self.p(0.04):
            self.hit("nested")  # elements that have no business in a value, and what follows them, are not part of it
            return body + self.rng.choice(["<b>7</b>", "<name>no</name> more", "<x/>", "<x:y xmlns:x='urn:x'>0</x:y>,", "<!-- c --><br/>0"])
        if not verbatim and self.space and self.p(0.1):
            self.hit("space")
            self.event("stripped", tag)
            ws = [" ", "\n", "\n  ", "\t", "  "]
            body = self.rng.choice(["", *ws]) + body + self.rng.choice(ws) if self.p(0.5) else \
                self.rng.choice(ws) + body + self.rng.choice(["", *ws])
        return body

    def gap(self):
        if self.rng is None:
            return "\n"
        s = self.rng.choice(["", "\n", "\n\n  ", " "])
        if self.comments and self.p(0.05):
            self.hit("comment")
            s += self.rng.choice(["<!-- a comment -->", "<!-- <name>not me</name> -->", "<?target data?>"])
        return s


# plain element content, and something it may have said before a later element overrode it
SIMPLE = {"int": "99", "bool": "true", "desc": "overridden by the later one", "str": "overridden by the later one"}


OLD_ACCESS = {"read-only": "read", "write-only": "write"}  # accepted like SVDConv does


def _value(lex, kind, attr, t, v, tag=None):
    base = t.lstrip("@")
    if base in ("int", "dec"):
        return lex.text(lex.number(v, base == "dec"), False, tag)
    if base == "bool":
        return lex.text(lex.boolean(v), False, tag)
    if base.startswith("enum:"):
        if lex.cases and base == "enum:access" and lex.p(0.3):
            lex.hit("access-case")
            if v in OLD_ACCESS and lex.p(0.5):
                lex.hit("access-deprecated")
                v = OLD_ACCESS[v]
            v = lex.rng.choice([v, v.upper(), v.lower(), v.title()])
        return lex.text(v, False, tag)
    return lex.text(v, base == "desc", tag)


def again(lex, tag, one):
    """An element with parts of its own, now and then given twice; both say the same."""
    if not (lex.dups and lex.p(0.06)):
        return one(lex)
    lex.hit("dup:" + tag)
    lex.event("repeated", tag)
    return [one(Lex()) for _ in range(lex.rng.randint(2, 3))]


def element(doc, lex, tag):
    kind = doc["kind"]
    attrs = []
    parts = []  # (text) in order; list-like groups stay one part so that their order is kept
    for a, xtag, t in spec.KINDS[kind]:
        v = doc.get(a)
        if v is None and not (t.startswith("wrap:peripherals")):
            if lex.dups and t in SIMPLE and a not in raw.MANDATORY[kind] and lex.p(0.03):
                lex.hit("empty")
                one = lex.rng.choice([f"<{xtag}/>", f"<{xtag}></{xtag}>"])
                if lex.p(0.7):
                    lex.hit("dup")
                    lex.hit("dup:emptied")
                    lex.event("repeated", xtag)
                    one = f"<{xtag}>{SIMPLE[t]}</{xtag}>{lex.gap()}" + one
                parts.append(one)
            continue
        if t == "nsloc":
            prefix = "xs" if not lex.p(0.3) else "xsi"
            attrs.append(f'xmlns:{prefix}="{XSI}"')
            attrs.append(f"{prefix}:noNamespaceSchemaLocation={quoteattr(v)}")
        elif t.startswith("@"):
            s = _value(Lex(), kind, a, t, v) if not isinstance(v, bool) else lex.boolean(v)
            s = s0 = s if isinstance(v, bool) else v
            if lex.attr_space and lex.p(0.1):
                lex.hit("attr-space")
                lex.event("stripped", xtag)
                s = lex.rng.choice([(" ", ""), ("", " "), ("\t", " "), ("  ", "")])
                s = s[0] + s0 + s[1]
            attrs.append(f"{xtag}={quoteattr(s)}")
        elif t.startswith("node:"):
            parts.append(again(lex, xtag, lambda x: element(v, x, xtag)))
        elif t.startswith("list:"):
            if v:
                parts.append([element(x, lex, xtag) for x in v])
        elif t.startswith("flat:"):
            if v:
                parts.append([element(x, lex, x["kind"]) for x in v])
        elif t.startswith("wrap:"):
            wtag = t.split(":")[1]
            v = v or []
            if not v and wtag != "peripherals":
                continue
            groups = [v]
            if lex.split and len(v) > 1 and lex.p(0.2):
                lex.hit("split-wrapper" if wtag != "peripherals" else "split-peripherals")
                k = lex.rng.randrange(1, len(v))
                groups = [v[:k], v[k:]]
            parts.append([
                f"<{wtag}>{lex.gap()}" + "".join(element(x, lex, x["kind"]) + lex.gap() for x in g) + f"</{wtag}>"
                for g in groups
            ])
        elif t == "range":
            parts.append(again(lex, "range", lambda x: (
                f"<range><minimum>{x.text(x.number(v[0]), False, 'minimum')}</minimum>{x.gap()}"
                f"<maximum>{x.text(x.number(v[1]), False, 'maximum')}</maximum></range>")))
        else:
            one = f"<{xtag}>{_value(lex, kind, a, t, v, xtag)}</{xtag}>"
            if lex.dups and lex.p(0.05) and t in ("desc", "str", "int", "bool"):
                lex.hit("dup")
                lex.hit("dup:" + t)
                lex.event("repeated", xtag)
                other = f"<{xtag}>{SIMPLE[t]}</{xtag}>"
                if lex.p(0.3):
                    lex.hit("dup:of-empty")
                    other = lex.rng.choice([f"<{xtag}/>", f"<{xtag}></{xtag}>", f"<{xtag}/>{other}", f"{other}<{xtag}/>"])
                one = f"{other}{lex.gap()}{one}"
            parts.append(one)
    if lex.rng is not None:
        lex.rng.shuffle(attrs)
    if lex.shuffle and lex.p(0.7) and len(parts) > 1:
        lex.hit("shuffle")
        lex.rng.shuffle(parts)
    body = ""
    for p in parts:
        for s in p if isinstance(p, list) else [p]:
            body += lex.gap() + s
    if lex.foreign and lex.p(0.06):
        lex.hit("foreign")
        body += foreign(lex, kind)
    if kind == "device" and lex.vendor and lex.p(0.5):
        lex.hit("vendor-ext")
        body += ("<vendorExtensions><peripheral><name>NotAPeripheral</name></peripheral>"
                 "<x:y xmlns:x='urn:x'><size>7</size></x:y></vendorExtensions>")
    if not body and lex.p(0.5):
        return f"<{tag}{''.join(' ' + x for x in attrs)}/>"
    return f"<{tag}{''.join(' ' + x for x in attrs)}>{body}{lex.gap()}</{tag}>"


INSIDE = "<name>NotMine</name><value>1</value><offset>0</offset><size>8</size><usage>registers</usage><addressOffset>0</addressOffset>"


def foreign(lex, kind):
    """A vendor's element that contains elements called like those that belong here; none of them does."""
    out = ""
    for _, xtag, t in lex.rng.sample(spec.KINDS[kind], min(4, len(spec.KINDS[kind]))):
        if t.startswith("wrap:"):
            out += f"<{t.split(':')[1]}><register>{INSIDE}</register></{t.split(':')[1]}>"
        elif t.startswith(("list:", "node:")):
            out += f"<{xtag}>{INSIDE}</{xtag}>"
        elif t.startswith("flat:"):
            out += f"<register>{INSIDE}</register>"
        elif t != "nsloc" and not t.startswith("@"):
            out += f"<{xtag}>7</{xtag}>"
    return f"<vendorExtensions>{out}</vendorExtensions>"


def to_xml(doc, lex=None, declaration="<?xml version='1.0' encoding='utf-8'?>\n"):
    lex = lex or Lex()
    head = declaration
    if lex.rng is not None and lex.comments and lex.p(0.2):
        head += "<!-- leading comment -->\n"
    tail = "\n<!-- trailing -->" if lex.rng is not None and lex.comments and lex.p(0.1) else ""
    out = head + element(doc, lex, "device") + tail
    if lex.crlf and lex.p(0.2):
        lex.hit("crlf")
        out = out.replace("\n", "\r\n")
    return out
