"""Serialisation of the tree (serde): what is written is what is read back.

Every implementation of Serialize for a type of the tree is interpreted, once per variant, with opaque fields and a
serializer that records what it is given: that is the document.  The implementation of Deserialize for the same type is
then interpreted with a deserializer that answers from that document, by name and by position; the value that results has
to be the value that was written, on every path.
"""
from absint import K, TRUE, FALSE, UNIT, TOP, Undecided, Budget
from text_model import Text, DEFAULT, join

COLON = ":"


class Serial(Text):
    def __init__(self, dump):
        super().__init__(dump)
        self.doc = None
        self.named = True
        self.free = False
        self.MAXSTEPS = 60000

    def find_primitive(self, g):
        p = g.path
        if p.startswith("<serial::Ser as serde::"):
            return Serial.p_write
        if p.startswith("<serial::De as serde::de::MapAccess") and g.name == "next_value_seed":
            return Serial.p_value
        if p.startswith("<serial::De as serde::de::SeqAccess") and g.name == "next_element_seed":
            return Serial.p_element
        if p.startswith("<serial::De as serde::de::VariantAccess") and g.name == "newtype_variant_seed":
            return Serial.p_element
        if p.startswith("<serial::De as serde::Deserializer") and g.name in ("deserialize_newtype_struct",) and self.doc is not None:
            return None
        if p.startswith("serial::") or "::serial::" in p and not p.startswith("<"):
            n = p.rsplit("::", 1)[1]
            if n in ("by_name", "more", "key", "index", "content"):
                return getattr(Serial, "p_" + n)
        if p.startswith("<serial::Bad as serde::") and g.name != "deserialize":
            return Serial.p_bad
        if g.name in ("eq", "ne") and "str" in g.full:
            return Serial.p_eq
        if p.endswith("<impl str>::split") or p.endswith("<impl str>::rsplit"):
            return Serial.p_split
        if g.name == "add" and "String" in g.full:
            return Serial.p_add
        if "str::Split<" in g.full.replace("RSplit", "Split") and g.name in ("next", "next_back"):
            return Serial.p_next
        if "str::Split<" in g.full and g.name == "next" or "str::Split<" in g.full and g.name == "into_iter":
            return Serial.p_next if g.name == "next" else Serial.p_same_value
        if p.endswith("<impl str>::split_once"):
            return Serial.p_split_once
        if p.endswith("<impl str>::parse") or g.name == "from_str" and "usize" in g.full:
            return Serial.p_parse
        return super().find_primitive(g)

    # ---- the document is written
    def p_write(self, st, g, args, site, ctx):
        n = g.name
        t = self.pty(ctx["f"], ctx["dest"])
        vals = tuple(self.string(st, a) for a in args[1:])
        st.acts = st.acts + ((n,) + vals,)
        if n in ("serialize_seq", "serialize_tuple", "serialize_tuple_struct", "serialize_tuple_variant", "serialize_map", "serialize_struct", "serialize_struct_variant"):
            return ("a", t, 0, (args[0],), None)
        return ("a", t, 0, (UNIT,), None)

    # ---- the document is read
    def p_by_name(self, st, g, args, site, ctx):
        return TRUE if self.named else FALSE

    def done(self, st, what):
        n = sum(1 for a in st.acts if a[0] == what)
        st.acts = st.acts + ((what,),)
        return n

    def p_more(self, st, g, args, site, ctx):
        return TRUE if self.done(st, "more") < len(self.doc["fields"]) else FALSE

    def p_key(self, st, g, args, site, ctx):
        k = self.done(st, "more?") if False else sum(1 for a in st.acts if a[0] == "more") - 1
        if self.doc["variant"] is not None and not any(a[0] == "variant" for a in st.acts):
            st.acts = st.acts + (("variant",),)
            return ("s", self.doc["variant"][1])
        return ("s", self.doc["fields"][k][0])

    def p_index(self, st, g, args, site, ctx):
        if self.doc["variant"] is not None and not any(a[0] == "variant" for a in st.acts):
            st.acts = st.acts + (("variant",),)
            return K(self.doc["variant"][0])
        raise Undecided("index of a field")

    def p_content(self, st, g, args, site, ctx):
        c = self.doc["content"]
        if c is None:
            raise Undecided("text read where none is written")
        return c if c[0] == "s" else ("r", ("V", c), ())

    def given(self, st, ctx, i, g, opt):
        fs = self.doc["fields"]
        t = self.pty(ctx["f"], ctx["dest"])
        if i >= len(fs):
            if opt:
                return ("a", t, 0, (self.none(t),), None)
            raise Undecided("more is read than is written")
        if "PhantomData" not in g.full.split("_seed::", 1)[-1]:
            raise Undecided("a field is read with %s" % g.full[-120:])
        v = fs[i][1]
        st.acts = st.acts + (("took", i),)
        return ("a", t, 0, (self.some(t, v) if opt else v,), None)

    def inner(self, t):
        return self.T[t]["variants"][0]["f"][0][1]

    def none(self, t):
        return ("a", self.inner(t), 0, (), None)

    def some(self, t, v):
        return ("a", self.inner(t), 1, (v,), None)

    def p_value(self, st, g, args, site, ctx):
        return self.given(st, ctx, sum(1 for a in st.acts if a[0] == "more") - 1, g, False)

    def p_element(self, st, g, args, site, ctx):
        return self.given(st, ctx, sum(1 for a in st.acts if a[0] == "took"), g, g.name == "next_element_seed")

    def p_bad(self, st, g, args, site, ctx):
        return ("op", "bad", g.name)

    # ---- texts
    def p_eq(self, st, g, args, site, ctx):
        a, b = self.string(st, args[0]), self.string(st, args[1])
        if a[0] == "s" and b[0] == "s":
            return TRUE if (a[1] == b[1]) == (g.name == "eq") else FALSE
        raise Undecided("comparison of %r and %r" % (a, b))

    def p_same_value(self, st, g, args, site, ctx):
        return args[0]

    def parts(self, st, v, pat):
        v = self.string(st, v)
        pat = self.deref(st, pat)
        pat = chr(pat[1]) if pat[0] == "k" else pat[1] if pat[0] == "s" else None
        if pat is None:
            raise Undecided("split at %r" % (pat,))
        if v[0] == "s":
            return [("s", x) for x in v[1].split(pat)]
        if v[0] == "op" and v[1] == "text":
            if len(pat) != 1 or pat.isdigit():
                raise Undecided("split at %r" % pat)
            out = [[]]
            for q in v[2]:
                if q[0] == "lit":
                    first, *rest = q[1].split(pat)
                    out[-1].append(("lit", first))
                    out += [[("lit", x)] for x in rest]
                elif self.decimal(q):
                    out[-1].append(q)
                else:
                    raise Undecided("split of %r" % (q,))
            return [("op", "text", tuple(q for q in o if q != ("lit", ""))) for o in out]
        return None

    def decimal(self, q):
        return q[1] == "display" and q[3] == DEFAULT and (q[2] in self.numbers or linear(q[2]) and all(x in self.numbers for x in linear(q[2]) if x))

    def p_split(self, st, g, args, site, ctx):
        ps = self.parts(st, args[0], args[1])
        if g.name == "rsplit" and ps is not None:
            ps.reverse()
        return ("op", "parts", None if ps is None else tuple(ps), 0)

    def p_add(self, st, g, args, site, ctx):
        a, b = self.text(st, args[0]), self.text(st, args[1])
        return ("op", "text", join(a[2] + b[2]))

    def fork(self, st, t, some):
        """both results of an operation on an unknown text"""
        a = self.T[t]["variants"]
        k = [v["n"] for v in a]
        s2 = st.copy()
        good, badv = (k.index("Some"), k.index("None")) if "Some" in k else (k.index("Ok"), k.index("Err"))
        return [(st, ("a", t, good, (some,), None)), (s2, ("a", t, badv, () if "None" in k else (("op", "bad", "parse"),), None))]

    def p_next(self, st, g, args, site, ctx):
        t = self.pty(ctx["f"], ctx["dest"])
        pl = self.place(args[0])
        v = self.loadlv(st, pl)
        if v[0] != "op" or v[1] != "parts":
            raise Undecided("next of %r" % (v,))
        ps, n = v[2], v[3]
        if g.name == "next_back":
            raise Undecided("next_back")
        self.storelv(st, pl, v[:3] + (n + 1,))
        if ps is None:
            w = ("r", ("V", ("l", "part%d" % n, ())), ())
            return ("a", t, 1, (w,), None) if n == 0 else self.fork(st, t, w)
        if n >= len(ps):
            return ("a", t, 0, (), None)
        return ("a", t, 1, (("r", ("V", ps[n]), ()),), None)

    def p_split_once(self, st, g, args, site, ctx):
        t = self.pty(ctx["f"], ctx["dest"])
        v = self.string(st, args[0])
        ps = self.parts(st, args[0], args[1])
        if ps is None:
            return self.fork(st, t, ("t", (("r", ("V", ("l", "before", ())), ()), ("r", ("V", ("l", "after", ())), ()))))
        if len(ps) < 2:
            return ("a", t, 0, (), None)
        if len(ps) > 2:
            raise Undecided("split_once of %r" % (v,))
        return ("a", t, 1, (("t", tuple(("r", ("V", x), ()) for x in ps)),), None)

    def p_parse(self, st, g, args, site, ctx):
        t = self.pty(ctx["f"], ctx["dest"])
        v = self.string(st, args[0])
        if v[0] == "op" and v[1] == "text":
            if len(v[2]) == 1 and v[2][0][0] == "arg" and self.decimal(v[2][0]):
                return ("a", t, 0, (v[2][0][2],), None)
            if any(q[0] == "lit" and not q[1].isdigit() for q in v[2]):
                return ("a", t, 1, (("op", "bad", "parse"),), None)
            raise Undecided("parse of %r" % (v,))
        if v[0] == "s":
            raise Undecided("parse of %r" % (v,))
        return self.fork(st, t, ("l", "number", ()))

    def leaf(self, st, g, args, site):
        if g.kind == "drop" or g.name in ("drop_in_place",):
            return UNIT
        if "_failed" in g.path:
            return None
        return super().leaf(st, g, args, site)


SCALARS = {"serialize_" + n for n in "bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str bytes none some unit seq tuple map".split()}


def types(dump, trait, method, fmt):
    """type id -> implementation"""
    out = {}
    for f in dump.fns:
        if f.promoted is not None or f.name != method or not f.blocks or "serde::" + trait not in f.path:
            continue
        if not f.full.endswith("::%s::<%s>" % (method, fmt)):
            continue
        if trait == "Serialize":
            t = f.locals[1]
            t = dump.types[t if isinstance(t, int) else t[0]]
            t = t.get("to", t.get("t"))
        else:
            t = f.locals[0]
            t = dump.types[t if isinstance(t, int) else t[0]]["variants"][0]["f"][0][1]
        out.setdefault(t, f)
    return out


def same(T, a, b, con, ty=None):
    """b is the value a"""
    if a == b or linear(b) is not None and linear(b) == linear(a):
        return True
    if b[0] == "k" and a[0] == "l":
        s = con.get(a)
        return s is not None and set(s) == {b[1]}
    if b[0] == "a" and a[0] == "l":
        s = con.get(a)
        return s is not None and len(s) == 1 and next(iter(s)) == b[2] and not b[3]
    if a[0] == "a" and b[0] == "a":
        return a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]) and all(same(T, x, y, con) for x, y in zip(a[3], b[3]))
    return False


ERR = (Undecided, Budget, KeyError, IndexError, ValueError, AttributeError, TypeError)


def run(dump):
    T = dump.types
    D = Serial(dump)
    W = types(dump, "Serialize", "serialize", "serial::Ser")
    R = types(dump, "Deserialize", "deserialize", "serial::De")
    bad, und, n, ntypes, nfields = {}, {}, 0, 0, 0

    def name(t):
        return T[t].get("def", "?").rsplit("::", 1)[-1]

    def viol(key, what, f):
        bad.setdefault(key, dict(key="serial:" + key, what=what, loc=(f.path, f.loc)))

    def short(e):
        return "%s: %s" % (type(e).__name__, str(e)[:200])
    own = [t for t in W if T[t]["k"] == "adt" and T[t]["def"].startswith("fajt")]
    for t in own:
        w, r = W[t], R.get(t)
        ntypes += 1
        if r is None:
            und[name(t)] = "no implementation that reads it"
            continue
        for vi, var in enumerate(T[t]["variants"]):
            label = name(t) if T[t].get("kind") == "struct" or len(T[t]["variants"]) == 1 and var["n"] == name(t) else "%s::%s" % (name(t), var["n"])
            fields = tuple(("l", "%s.%s" % (label, x[0]), ()) for x in var["f"])
            nfields += len(fields)
            val = ("a", t, vi, fields, None)
            names = [x[0] for x in var["f"]]
            D.numbers = {f for f, x in zip(fields, var["f"]) if T[x[1]]["k"] in ("uint", "int") or T[x[1]].get("n") == "usize" or T[x[1]].get("s") == "usize"}
            D.doc = None
            try:
                ps = D.paths(w, [("r", ("V", val), ()), ("l", "ser", ())])
            except ERR as e:
                und[label] = "write: " + short(e)
                continue
            for kind, v, acts, con, st, site in ps:
                n += 1
                if kind != "ret" or any(a[0] == "havoc" for a in acts):
                    und[label] = "write: %s" % kind
                    continue
                if v[0] == "a" and v[2] == 1:
                    viol(label, "%s cannot be written" % label, w)
                    continue
                docs = document(acts)
                if docs is None:
                    und[label] = "written with %s" % ", ".join(sorted({a[0] for a in acts}))
                    continue
                lost = [nm for nm, f in zip(names, fields) if not mentions(docs, f)]
                for nm, f in zip(names, fields):
                    if nm in lost and f not in con:
                        viol("%s.%s" % (label, nm), "%s of %s is not written" % (nm, label), w)
                if any(f not in con for nm, f in zip(names, fields) if nm in lost):
                    continue
                for named in (True, False):
                    if not named and any(a[0] == "skip_field" for a in acts):
                        continue
                    D.doc, D.named = docs, named
                    how = "by name" if named else "by position"
                    try:
                        qs = D.paths(r, [("l", "de", ())])
                    except ERR as e:
                        und.setdefault(label, "read %s: %s" % (how, short(e)))
                        continue
                    for kind, u, acts2, con2, st2, site2 in qs:
                        n += 1
                        if any(a[0] == "havoc" for a in acts2):
                            und.setdefault(label, "test on an unknown value")
                            continue
                        if kind == "panic":
                            viol(label + " panic", "reading %s panics" % label, r)
                            continue
                        u = D.deref(st2, u) if u[0] != "a" else u
                        if u[0] != "a":
                            und.setdefault(label, "read %s: result %r" % (how, u))
                            continue
                        if u[2] == 1:
                            viol(label, "%s is written as %s and that is not read back (%s)" % (label, show(docs), how), r)
                            continue
                        u = u[3][0]
                        c = dict(con)
                        c.update(con2)
                        if u[0] != "a" or u[1] != t:
                            und.setdefault(label, "read %s: result %r" % (how, u))
                            continue
                        if u[2] != vi:
                            viol(label, "%s is read back as %s (%s)" % (label, T[t]["variants"][u[2]]["n"], how), r)
                            continue
                        for nm, x, y in zip(names, fields, u[3]):
                            if not same(T, x, y, c):
                                if known(y):
                                    viol("%s.%s" % (label, nm), "%s of %s is read back (%s) as %s" % (nm, label, how, view(y)), r)
                                else:
                                    und.setdefault(label, "%s is read back as %r" % (nm, y))
                if docs["content"] is not None and docs["content"][0] == "op":
                    # a text that is not one of those that are written: an error, not a panic
                    D.doc = dict(docs, content=("l", "text", ()))
                    try:
                        qs = D.paths(r, [("l", "de", ())])
                    except ERR as e:
                        und.setdefault(label, "read of another text: " + short(e))
                        continue
                    for kind, u, acts2, con2, st2, site2 in qs:
                        n += 1
                        if kind == "panic":
                            viol(label + " text", "a text that is not a %s makes the reading panic" % name(t), r)
        # an absent value inside an optional one is not told from an absent optional value
        for var in T[t]["variants"]:
            for nm, x in [(q[0], q[1]) for q in var["f"]]:
                y = x
                while T[y]["k"] == "adt" and T[y]["def"].endswith("boxed::Box"):
                    y = T[y]["args"][0] if T[y].get("args") else T[y]["variants"][0]["f"][0][1]
                if option(T, y):
                    z = T[y]["variants"][1]["f"][0][1]
                    if option(T, z) or T[z]["k"] == "tuple" and not T[z].get("e", T[z].get("f", ())):
                        viol("%s.%s absent" % (name(t), nm), "%s of %s: nothing and an empty value are written the same" % (nm, name(t)), w)
    return dict(violations=list(bad.values()), cases=n, types=ntypes, fields=nfields, undecided=und)


def option(T, t):
    return T[t]["k"] == "adt" and T[t]["def"].endswith("option::Option")


def mentions(v, x):
    if v == x:
        return True
    if isinstance(v, dict):
        return any(mentions(y, x) for y in v.values())
    return isinstance(v, (tuple, list)) and any(mentions(y, x) for y in v)


def linear(v):
    """{term: factor} of a sum"""
    if v[0] == "k" and isinstance(v[1], int):
        return {None: v[1]} if v[1] else {}
    if v[0] == "l":
        return {v: 1}
    if v[0] == "op" and v[1] in ("Add", "Sub") and len(v) == 4:
        a, b = linear(v[2]), linear(v[3])
        if a is None or b is None:
            return None
        a = dict(a)
        for x, c in b.items():
            a[x] = a.get(x, 0) + (c if v[1] == "Add" else -c)
        return {x: c for x, c in a.items() if c}
    return None


def known(v):
    """a definite value, so another one than it should be"""
    return v[0] in ("l", "k", "s", "a") or v[0] == "op" and (v[1] == "text" or linear(v) is not None)


def view(v):
    if v[0] == "l":
        return v[1].rsplit(".", 1)[-1]
    if v[0] in ("k", "s"):
        return repr(v[1])
    return "another value"


def document(acts):
    """what is written, as the reader is to find it"""
    d = dict(variant=None, fields=[], content=None, name=None)
    for a in acts:
        n, v = a[0], a[1:]
        if n == "serialize_struct":
            d["name"] = v[0][1]
        elif n == "serialize_struct_variant":
            d["variant"] = (v[1][1], v[2][1])
        elif n == "serialize_unit_variant":
            d["variant"] = (v[1][1], v[2][1])
        elif n == "serialize_newtype_variant":
            d["variant"] = (v[1][1], v[2][1])
            d["fields"].append((None, v[3]))
        elif n == "serialize_tuple_variant":
            d["variant"] = (v[1][1], v[2][1])
        elif n in ("serialize_tuple_struct", "serialize_unit_struct"):
            d["name"] = v[0][1]
        elif n == "serialize_field":
            d["fields"].append((v[0][1], v[1]) if len(v) == 2 else (None, v[0]))
        elif n == "serialize_str":
            d["content"] = v[0]
        elif n == "skip_field" or n == "end":
            pass
        else:
            return None
    if any(f[1][0] not in ("l", "a") for f in d["fields"]):
        return None
    return d


def show(d):
    if d["content"] is not None:
        return "a text"
    return "%s{%s}" % (d["variant"][1] if d["variant"] else d["name"], ", ".join(f[0] or "_" for f in d["fields"]))


if __name__ == "__main__":
    import sys
    import dump as dm
    r = run(dm.Dump(sys.argv[1] if len(sys.argv) > 1 else dm.dump_path("serial")))
    for v in r.pop("violations"):
        print("VIOL", v["key"], v["what"], v["loc"])
    u = r.pop("undecided")
    for k in list(u)[:40]:
        print("UND", k, u[k][:200])
    print(len(u), r)
