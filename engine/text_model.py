"""Values of the text that a program prints: format_args!, strings and their operations as terms."""
from absint import K, TRUE, FALSE, UNIT, TOP, Undecided
from reader_check import Reader

DEFAULT = (0x20 | 3 << 29, 0, 0)


def join(ps):
    """pieces with neighbouring literals merged"""
    out = []
    for p in ps:
        if p[0] == "lit":
            if not p[1]:
                continue
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + p[1])
                continue
        out.append(p)
    return tuple(out)


class Text(Reader):
    """texts: ("op","text",pieces); pieces ("lit",s) | ("arg",kind,term,(flags,width,precision))"""
    STRINGS = {}

    def opaque_const(self, c):
        if "bytes" in c:
            return ("op", "bytes", tuple(c["bytes"]))
        return TOP

    def text(self, st, v):
        v = self.deref(st, v)
        if v[0] == "s":
            return ("op", "text", join((("lit", v[1]),)))
        if v[0] == "op" and v[1] == "text":
            return v
        return ("op", "text", (("arg", "display", v, DEFAULT),))

    def string(self, st, v):
        """canonical term of a string"""
        v = self.deref(st, v)
        if v[0] == "op" and v[1] == "text":
            if not v[2]:
                return ("s", "")
            if len(v[2]) == 1:
                p = v[2][0]
                if p[0] == "lit":
                    return ("s", p[1])
        return v

    def find_primitive(self, g):
        p = g.path
        if p.startswith("core::fmt::rt::Argument") or p.startswith("core::fmt::rt::<impl") and "Argument" in p:
            if g.name.startswith("new_"):
                return Text.p_argument
            if g.name == "from_usize":
                return Text.p_argument
        if "fmt::Arguments" in p or "fmt::rt::<impl" in p:
            if g.name == "new":
                return Text.p_arguments
            if g.name.startswith("from_str") or g.name == "new_const":
                return Text.p_from_str
        if p in ("std::fmt::format", "alloc::fmt::format"):
            return Text.p_first
        if p.endswith("hint::must_use"):
            return Text.p_first
        if g.trait in ("std::ops::Deref", "core::ops::Deref") and "String" in g.full or g.name in ("as_str", "as_ref", "borrow", "as_mut_str") and "String" in g.full:
            return Text.p_same
        if g.name in ("to_owned", "to_string", "clone", "from", "into") and ("str" in g.full.lower()):
            return Text.p_string
        return super().find_primitive(g)

    def p_first(self, st, g, args, site, ctx):
        return args[0]

    def p_same(self, st, g, args, site, ctx):
        v = self.deref(st, args[0])
        return v if v[0] == "s" else ("r", ("V", v), ())

    def p_string(self, st, g, args, site, ctx):
        v = self.deref(st, args[0])
        if v[0] == "k" and g.name == "to_string":
            v = ("s", str(v[1]))
        elif g.name == "to_string" and v[0] == "op" and v[1] in ("Add", "Sub", "count", "len") or v[0] == "l":
            v = ("op", "text", (("arg", "display", v, DEFAULT),)) if g.name == "to_string" else v
        return v

    def p_argument(self, st, g, args, site, ctx):
        kind = g.name[4:] if g.name.startswith("new_") else g.name
        return ("op", "argument", kind, self.string(st, args[0]))

    def p_from_str(self, st, g, args, site, ctx):
        return self.text(st, args[0])

    def p_arguments(self, st, g, args, site, ctx):
        t = self.deref(st, args[0])
        a = self.deref(st, args[1])
        if t[0] != "op" or t[1] != "bytes" or a[0] != "t":
            raise Undecided("format with %r %r" % (t, a))
        b = t[2]
        vals = []
        for x in a[1]:
            x = self.deref(st, x)
            if x[0] != "op" or x[1] != "argument":
                raise Undecided("format argument %r" % (x,))
            vals.append(x)
        i, n, out = 0, 0, []

        def u16():
            nonlocal i
            i += 2
            return b[i - 2] | b[i - 1] << 8
        while True:
            c = b[i]
            i += 1
            if c == 0:
                break
            if c <= 0x80:
                ln = c if c < 0x80 else u16()
                out.append(("lit", bytes(b[i:i + ln]).decode()))
                i += ln
                continue
            fl, w, p = DEFAULT
            if c & 1:
                fl = b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24
                i += 4
            if c & 2:
                w = u16()
            if c & 4:
                p = u16()
            if c & 8:
                n = u16()
            if c & 16:
                w = vals[w][3]
            if c & 32:
                p = vals[p][3]
            k, v = vals[n][2], vals[n][3]
            n += 1
            out += self.piece(st, k, v, (fl, w, p))
        return ("op", "text", join(out))

    def piece(self, st, kind, v, opt):
        if kind == "display" and opt == DEFAULT:
            if v[0] == "s":
                return [("lit", v[1])]
            if v[0] == "k":
                return [("arg", kind, v, opt)]
            if v[0] == "op" and v[1] == "text":
                return list(v[2])
        return [("arg", kind, v, opt)]

    def cast(self, v, kind, ty):
        if kind == "IntToInt" and v[0] in ("op", "l"):
            return v
        return super().cast(v, kind, ty)
