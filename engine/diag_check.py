"""Error reports: every path of the emitter, its text as terms over the source and the span of the error.

Positions are sums over the positions of the error, results of searches and lengths.  Every slice must lie between
known character boundaries in their known order; the text must be the description, the place and the source line with
the mark and the explanation.
"""
from absint import K, TRUE, FALSE, UNIT, TOP, Undecided, Budget, St
from text_model import Text, DEFAULT, join
from reader_check import _R

SRC = ("l", "source", ())
NAME = ("l", "name", ())
ERR = ("l", "error", ())
BAD = (Undecided, Budget, KeyError, IndexError, ValueError, AttributeError, TypeError, RecursionError)


def lin(v):
    """sum of atoms: ({atom: factor}, constant)"""
    if v[0] == "k":
        return {}, v[1]
    if v[0] == "op" and v[1] == "lin":
        return dict(v[2]), v[3]
    return {v: 1}, 0


def unlin(m, c):
    m = {a: f for a, f in m.items() if f}
    if not m:
        return K(c)
    if c == 0 and list(m.values()) == [1]:
        return next(iter(m))
    return ("op", "lin", tuple(sorted(m.items(), key=repr)), c)


def add(a, b, s=1):
    (x, c), (y, d) = lin(a), lin(b)
    for k, f in y.items():
        x[k] = x.get(k, 0) + s * f
    return unlin(x, c + s * d)


class Diag(Text):
    event = {}

    def __init__(self, dump):
        super().__init__(dump)
        self.MAXSTEPS = 1500000

    def find_primitive(self, g):
        p, n = g.path, g.name
        if "<impl str>::" in p or "Index<" in p and "for str" in p:
            if n == "index":
                return Diag.p_slice
            if n in ("rfind", "find"):
                return Diag.p_search
            if n == "is_char_boundary":
                return Diag.p_isb
            if n == "is_empty":
                return Diag.p_empty
            if n in ("ends_with", "starts_with", "contains"):
                return Diag.p_affix
            if n in ("len", "matches", "replace", "lines", "chars", "bytes", "split", "trim", "trim_end", "trim_start", "repeat", "char_indices"):
                return Diag.p_str
        if "String" in p and n == "len":
            return Diag.p_str
        if n == "count" and "Iterator" in p:
            return Diag.p_str
        if n == "find" and "Range<usize>" in g.full:
            return Diag.p_findpos
        if "cmp::Ord for usize" in p and n in ("max", "min"):
            return Diag.p_minmax
        if n == "write_fmt":
            return Diag.p_out
        if n in ("write_str", "write_all", "push_str") and ("Vec" in g.full or "Formatter" in g.full):
            return Diag.p_out
        if "ErrorKind as std::cmp::PartialEq" in p and n in ("eq", "ne"):
            return Diag.p_kind
        if n == "as_str" and ("Keyword" in p or "Punctuator" in p):
            return Diag.p_spelling
        if n == "default" and ("for &str" in p or "for std::string::String" in p):
            return Diag.p_new
        if g.crate == "alloc" and n == "new" and "String" in p:
            return Diag.p_new
        return super().find_primitive(g)

    def p_new(self, st, g, args, site, ctx):
        return ("op", "text", ()) if "str" not in g.path.split("for &")[-1] or "String" in g.path else ("s", "")

    def p_spelling(self, st, g, args, site, ctx):
        return ("r", ("V", ("op", "spelling", self.deref(st, args[0]))), ())

    def p_string(self, st, g, args, site, ctx):
        v = self.deref(st, args[0])
        if v[0] == "k" or v[0] == "op" and v[1] in ("lin", "count", "len"):
            if g.name == "to_string":
                return ("op", "decimal", v)
        return v

    def p_str(self, st, g, args, site, ctx):
        return ("op", g.name) + tuple(self.string(st, a) for a in args)

    def p_empty(self, st, g, args, site, ctx):
        s = self.string(st, args[0])
        if s[0] == "s":
            return K(int(not s[1]))
        return ("op", "Eq", ("op", "len", s), K(0))

    def p_affix(self, st, g, args, site, ctx):
        """a longer text at the end of a part of the source: either"""
        s, t = self.string(st, args[0]), self.string(st, args[1])
        if t[0] == "s" and not t[1]:
            return TRUE
        if s[0] == "s" and t[0] == "s":
            return K(int({"ends_with": s[1].endswith, "starts_with": s[1].startswith, "contains": s[1].__contains__}[g.name](t[1])))
        if t[0] == "s" and len(t[1]) > 1 and s[0] == "op" and s[1] == "slice":
            return ("op", g.name, s, t)
        raise Undecided("%s of %r" % (g.name, t))

    def p_isb(self, st, g, args, site, ctx):
        return ("op", "is_char_boundary", self.string(st, args[0]), self.deref(st, args[1]))

    def p_minmax(self, st, g, args, site, ctx):
        a, b = sorted((self.deref(st, args[0]), self.deref(st, args[1])), key=repr)
        return a if a == b else ("op", g.name, a, b)

    def p_search(self, st, g, args, site, ctx):
        return ("l", (g.name, self.string(st, args[0]), self.string(st, args[1])), ())

    def rng(self, st, v):
        v = self.deref(st, v)
        if v[0] != "a":
            raise Undecided("range %r" % (v,))
        names = [f[0] for f in self.T[v[1]]["variants"][0]["f"]]
        return dict(zip(names, (self.deref(st, x) for x in v[3]))), self.T[v[1]]["s"]

    def p_slice(self, st, g, args, site, ctx):
        s = self.string(st, args[0])
        r, ty = self.rng(st, args[1])
        if "RangeInclusive" in ty or "RangeToInclusive" in ty:
            raise Undecided("slice with %s" % ty)
        a = r.get("start", K(0))
        b = r.get("end", ("op", "len", s))
        st.acts = st.acts + (("slice", s, a, b, site),)
        return ("r", ("V", self.slice(s, a, b)), ())

    def slice(self, s, a, b):
        if s[0] == "op" and s[1] == "slice":
            if b == ("op", "len", s):
                b = s[4]
            else:
                b = add(s[3], b)
            return self.slice(s[2], add(s[3], a), b)
        if a == K(0) and b == ("op", "len", s):
            return s
        return ("op", "slice", s, a, b)

    def p_findpos(self, st, g, args, site, ctx):
        """the first position of a range for which a closure holds"""
        r, _ = self.rng(st, args[0])
        c = self.deref(st, args[1])
        if c[0] != "c":
            raise Undecided("search for %r" % (c,))
        ty = self.T[c[1]]
        env = ("c", c[1], tuple(("r", ("V", self.deep(st, x)), ()) if x[0] == "r" else x for x in c[2]))
        f = self.d.fns[ty["inst"]]
        x = ("l", "position", ())
        sub = Diag(self.d)
        t1 = self.T[f.locals[1]]
        a0 = ("r", ("V", env), ()) if t1["k"] == "ref" else env
        out = []
        s2 = St(((f.id, 0, None, None, 0),), {(0, 1): a0, (0, 2): ("r", ("V", x), ())}, {}, (), _R, None)
        sub.run_segment(s2, None, lambda s, k, v, w: out.append((k, v)))
        if len(out) != 1 or out[0][0] != "ret":
            raise Undecided("search with several cases")
        v = out[0][1]
        if v[0] != "op" or v[1] != "is_char_boundary" or v[3] != x:
            raise Undecided("search for %r" % (v,))
        return ("l", ("boundary", v[2], r["start"], r["end"]), ())

    def deep(self, st, v):
        v = self.deref(st, v)
        if v[0] == "a":
            return ("a", v[1], v[2], tuple(("r", ("V", self.deep(st, x)), ()) if x[0] == "r" else self.deep(st, x) for x in v[3]), v[4])
        return v

    def p_out(self, st, g, args, site, ctx):
        st.acts = st.acts + (("out", self.text(st, args[1])),)
        t = self.pty(ctx["f"], ctx["dest"])
        return ("a", t, 0, (UNIT,), None) if self.T[t]["k"] == "adt" else UNIT

    def p_kind(self, st, g, args, site, ctx):
        a, b = self.deref(st, args[0]), self.deref(st, args[1])
        if a[0] == "a":
            a, b = b, a
        if b[0] != "a" or b[3]:
            raise Undecided("comparison of the kind of an error")
        d = self.T[b[1]]["variants"][b[2]]["d"]
        v = ("op", "Eq", ("op", "discr", a, b[1]), K(d))
        return ("op", "Not", v) if g.name == "ne" else v

    def split_op(self, st, v, keyf, allg):
        return self.split_scalar(st, v, keyf, allg)

    def arith(self, op, a, b):
        ov = op.endswith("WithOverflow")
        op = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op == "Add":
            r = add(a, b)
        elif op == "Sub":
            r = add(a, b, -1)
        elif op == "Mul" and (a[0] == "k" or b[0] == "k"):
            if b[0] != "k":
                a, b = b, a
            m, c = lin(a)
            r = unlin({x: f * b[1] for x, f in m.items()}, c * b[1])
        else:
            r = ("op", op, a, b)
        return ("t", (r, FALSE)) if ov else r

    def binop(self, op, a, b):
        if op in self.CMP and a[0] != "k" and b[0] != "k" and a == b:
            return K(int(self.CMP[op](0, 0)))
        if op.replace("WithOverflow", "").replace("Unchecked", "") in ("Add", "Sub", "Mul") and not (a[0] == "k" and b[0] == "k") and TOP not in (a, b):
            return self.arith(op, a, b)
        return super().binop(op, a, b)

    def unop(self, op, a):
        if op == "Neg" and a[0] != "k":
            m, c = lin(a)
            return unlin({x: -f for x, f in m.items()}, -c)
        return super().unop(op, a)

    def split_cmp(self, st, op, a, b, keyf, allg):
        neg = {"Ge": "Lt", "Le": "Gt", "Ne": "Eq"}
        v = ("op", op, a, b)
        flip = op in neg
        if flip:
            op = neg[op]
        if op == "Gt":
            v = ("op", "Lt", b, a)
        else:
            v = ("op", op, a, b)
        return self.split_scalar(st, v, (lambda x: keyf(1 - x)) if flip else keyf, allg)

    def split(self, st, v, keyf, allg):
        # a position compared with a constant is one fact, not a case distinction over positions
        if v[0] == "op" and v[1] in self.CMP and v[2][0] != "k" and v[3][0] == "k" and not (v[2][0] == "op" and v[2][1] == "discr"):
            w = v[2]
            if not (w[0] == "l" and w in st.con):
                return self.split_cmp(st, v[1], v[2], v[3], keyf, allg)
        return super().split(st, v, keyf, allg)

    def cast(self, v, kind, ty):
        return v if kind == "IntToInt" else super().cast(v, kind, ty)

    def leaf(self, st, g, args, site):
        if g.kind == "drop":
            return UNIT
        if "_failed" in g.path or "panicking" in g.path:
            return None
        raise Undecided("call of %s" % g.path)


def known(v):
    """built of the operations whose meaning is compared"""
    if not isinstance(v, tuple) or not v:
        return True
    if v[0] == "?":
        return False
    if v[0] == "op":
        if v[1] not in ("lin", "len", "count", "matches", "slice", "max", "min", "decimal", "replace", "text"):
            return False
        if v[1] == "count" and v[2][:2] != ("op", "matches"):
            return False
        if v[1] == "text":
            return all(p[0] == "lit" or known(p[2]) for p in v[2])
        if v[1] == "lin":
            return all(known(a) for a, _ in v[2])
        return all(known(x) for x in v[2:] if isinstance(x, tuple))
    if v[0] == "l":
        return isinstance(v[1], str) or v[1][0] in ("find", "rfind", "boundary") and all(known(x) for x in v[1][1:])
    return v[0] in ("k", "s")


class Facts:
    """what a path knows about searches"""

    def __init__(self, D, con):
        self.D, self.con = D, con

    def payload(self, x):
        return self.D.proj(self.D.proj(x, ("v", 1)), ("f", 0))

    def opt(self, x, some, none):
        s = self.con.get(x)
        if s == frozenset([1]):
            return some(self.payload(x))
        if s == frozenset([0]):
            return none
        return None


def field(D, T, v, ty, name):
    i = [f[0] for f in T[ty]["variants"][0]["f"]].index(name)
    return D.proj(v, ("f", i))


def run(dump):
    T = dump.types
    D = Diag(dump)
    bad, und, n = {}, {}, 0
    f = dump.fns[dump.roots["root_emit"]] if isinstance(dump.roots, dict) else None

    def viol(key, what, loc=None):
        bad.setdefault(key, dict(key="report:" + key, what=what, loc=loc or (emit.path, emit.loc)))
    ref = lambda v: ("r", ("V", v), ())
    emits = [g for g in dump.fns if g.name == "emit_error" and g.blocks and g.promoted is None and "Vec<u8>" in g.full]
    if len(emits) != 1 or f is None:
        return dict(violations=[], cases=0, undecided={"emit_error": "%d definitions" % len(emits)})
    emit = emits[0]
    try:
        ps = D.paths(f, [ref(NAME), ref(SRC), ref(("l", "out", ())), ref(ERR)])
        ety = [i for i, t in enumerate(T) if t.get("s") == "fajt_parser::error::Error"][0]
        kty = [i for i, t in enumerate(T) if t.get("s") == "fajt_parser::error::ErrorKind"][0]
        sty = [i for i, t in enumerate(T) if t.get("s") == "fajt_ast::Span"][0]
        kind, span = field(D, T, ERR, ety, "kind"), field(D, T, ERR, ety, "span")
        start, end = field(D, T, span, sty, "start"), field(D, T, span, sty, "end")
    except BAD as e:
        return dict(violations=[], cases=0, undecided={"emit_error": "%s: %s" % (type(e).__name__, str(e)[:300])})
    length = ("op", "len", SRC)
    kinds = {v["d"]: v["n"] for v in T[kty]["variants"]}
    LF, TAB = K(10), K(9)
    for k, v, acts, con, st, site in ps:
        n += 1
        F = Facts(D, con)
        if any(a[0] == "havoc" for a in acts):
            und["emit_error"] = "test on an unknown value %r" % ([a for a in acts if a[0] == "havoc"][0],)
            continue

        def boundary(p):
            return F.opt(("l", ("boundary", SRC, p, length), ()), lambda x: x, length)
        bs, be0 = boundary(start), boundary(end)
        # ---- slices
        points = {K(0): 0, length: 9}
        be = None
        if bs is not None and be0 is not None:
            be = bs if bs == be0 else ("op", "max") + tuple(sorted((bs, be0), key=repr))
            points[bs], points[be] = 2, 3
            if bs == length:
                points[length] = 9

        def rank(p):
            return points.get(p)
        ls = le = None
        raw = {start, end}
        trouble = unsure = False
        for a in acts:
            if a[0] != "slice":
                continue
            s, x, y = a[1:4]
            if s[0] == "op" and s[1] == "slice":
                o = s
                x, y = add(o[3], x), (o[4] if y == ("op", "len", s) else add(o[3], y))
                s = o[2]
            if s != SRC:
                und["slice"] = "slice of %r" % (s,)
                trouble = True
                continue
            if bs is not None and ls is None:
                ls = F.opt(("l", ("rfind", D.slice(SRC, K(0), bs), LF), ()), lambda p: add(p, K(1)), K(0))
                if ls is not None and ls != K(0):
                    points[ls] = 1
            if be is not None and le is None:
                le = F.opt(("l", ("find", D.slice(SRC, be, length), LF), ()), lambda p: add(p, be), length)
                if le is not None and le != length:
                    points[le] = 5
            bad_at = [p for p in (x, y) if p in raw]
            if bad_at:
                viol("slice", "the source is cut at a position of the error, which need not be the start of a character")
                trouble = True
            elif rank(x) is None or rank(y) is None:
                unsure = "bounds of a slice: %r..%r" % (x, y)
                if not known(x) or not known(y):
                    und["slice"] = unsure
                    trouble = True
            elif rank(x) > rank(y) and not (x == y or bs == length or be == length):
                viol("order", "the source is cut from a later to an earlier position")
                trouble = True
        if k == "panic":
            viol("panic", "the report of an error panics: %s" % (v[1] if v[0] == "s" else v,))
            continue
        if k != "ret":
            und["emit_error"] = "path ends with %s" % k
            continue
        if trouble:
            continue
        searches = [c for c in con if c[0] == "l" and isinstance(c[1], tuple)]
        if bs is None or be is None or ls is None or le is None:
            if bs is not None and be is not None and searches and all(known(c) for c in searches) and all(known(p[2]) for a in acts if a[0] == "out" for p in a[1][2] if p[0] == "arg" and p[2] != ERR):
                viol("line", "the source line of an error is not searched from its position")
            else:
                und["emit_error"] = "positions that the analysis does not follow"
            continue
        before = len(bad)
        # ---- the text
        out = list(join([p for a in acts if a[0] == "out" for p in a[1][2]]))
        odd = [p for p in out if p[0] == "arg" and p[2] != ERR and not known(p[2]) and not (p[2][0] == "op" and p[2][1] == "spelling")] or [p for p in out if p[0] == "arg" and isinstance(p[3][1], tuple) and not known(p[3][1])]
        if odd:
            und["text"] = "part of the text: %r" % (odd[0],)
            continue
        kd = [next(iter(s)) for c, s in con.items() if (c == kind or c == ("op", "discr", kind, kty)) and len(s) == 1]
        for c, s in con.items():
            if c[0] == "op" and c[1] == "Eq" and c[2][0] == "op" and c[2][1] == "discr" and c[2][2] == kind and s == frozenset([1]):
                kd.append(c[3][1])
        kn = kinds.get(kd[0]) if kd else None
        line = add(("op", "count", ("op", "matches", D.slice(SRC, K(0), bs), LF)), K(1))
        if bs == K(0):
            line = K(1)
        col = add(add(bs, ls, -1), K(1))
        text = D.slice(SRC, ls, le)

        def num(p):
            """number shown by a piece"""
            t = p[2]
            return t[2] if t[0] == "op" and t[1] == "decimal" else t
        i = 0

        def need(what, test):
            nonlocal i
            j = i
            while j < len(out):
                if test(out[j]):
                    i = j + 1
                    return out[j]
                j += 1
            viol(what.split()[0] + " " + what.split()[-1], "the report has no %s" % what)
            return None
        # description of the error and place
        if not out or out[0][0] != "arg" or out[0][1] != "display" or out[0][2] != ERR or out[0][3] != DEFAULT:
            viol("description", "the report does not start with the description of the error")
            continue
        i = 1
        head = []
        for p in out[1:]:
            head.append(p)
            if p[0] == "lit" and "\n" in p[1] and len(head) > 1:
                break
        nonempty = any(s == frozenset([0]) and c[0] == "op" and c[1] == "Eq" and c[3] == K(0) for c, s in con.items())
        hs = [("lit", p[1].split("\n")[0] if x == len(head) - 1 and x else p[1]) if p[0] == "lit" else p for x, p in enumerate(head)]
        place = [("lit", "\n --> "), ("arg", "display", NAME, DEFAULT)]
        full = place + [("lit", ":"), ("arg", "display", line, DEFAULT), ("lit", ":"), ("arg", "display", col, DEFAULT)]
        hs = list(join(hs))
        if nonempty and hs != full:
            viol("place", "the place of an error is not given as file, line and column of its start" )
            continue
        if not nonempty and hs not in (place, full):
            viol("place", "the place of an error without a position is not the file")
            continue
        if kn == "EndOfStream":
            continue
        i = 1 + len(head)
        if head and head[-1][0] == "lit":
            i = len(head)
        if need("source line", lambda p: p[0] == "arg" and p[2] in (text, ("op", "replace", text, TAB, ("s", "    ")))) is None:
            continue
        tabs = ("op", "count", ("op", "matches", D.slice(SRC, ls, bs), TAB))
        off = add(add(bs, ls, -1), unlin({tabs: 3}, 0)) if bs != ls else K(0)
        mx = K(65535)
        cap = lambda x: ("op", "min") + tuple(sorted((x, mx), key=repr))
        offs = {cap(off), off}
        lens = {cap(add(be, bs, -1)), add(be, bs, -1)}
        rest = out[i:]
        wid = [p for p in rest if p[0] == "arg" and p[3][1] in offs]
        mark = [p for p in rest if p[0] == "arg" and p[3][1] in lens]
        if not mark:
            viol("mark", "the mark below the source line is not as long as the error")
        if not wid:
            viol("offset", "the mark is not below the start of the error")
        # ---- explanation
        if kn in ("ForbiddenIdentifier", "UnexpectedToken", "ExpectedIdentifier"):
            if not any(p[0] == "lit" and len(p[1].strip()) > 8 for p in rest):
                viol("explanation " + kn, "the report of %s has no explanation" % kn)
        if kn in ("ForbiddenIdentifier", "UnexpectedToken", "ExpectedIdentifier") and mark:
            shown = [p[2] for p in rest if p[0] == "arg" and p not in wid and p not in mark]

            def says(path):
                """the thing at this place of the error is shown, itself or by its spelling"""
                for v in shown:
                    if v[0] == "op" and v[1] == "spelling":
                        v = v[2]
                    if v[0] == "l" and v[1] == "error" and v[2][:len(path)] == path:
                        return True
                return False

            def disc(path, ty):
                """discriminants the thing at this place of the error may have (None: any)"""
                for c, s in con.items():
                    if c == ("l", "error", path) or (c[0] == "op" and c[1] == "discr" and c[2] == ("l", "error", path)):
                        return s
                return None
            found = D.slice(SRC, bs, be) in shown
            KW, ID, PU = 0, 1, 2
            P = (("f", 0), ("v", {"ForbiddenIdentifier": 6, "UnexpectedToken": 4, "ExpectedIdentifier": 3}[kn]))
            if kn == "ForbiddenIdentifier":
                if not says(P + (("f", 0),)) and not found:
                    viol("word", "the explanation of a forbidden identifier does not show the identifier")
            elif kn == "ExpectedIdentifier":
                d = disc(P + (("f", 0),), None)
                if (d is None or d <= {KW, ID, PU}) and not says(P + (("f", 0),)) and not found:
                    viol("found", "the explanation of ExpectedIdentifier does not show the token that was found")
            else:
                o = disc(P + (("f", 1),), None)
                if o is None or 1 in o:
                    X = P + (("f", 1), ("v", 1), ("f", 0))
                    d = disc(X, None)
                    if (d is None or d <= {KW, ID, PU}) and not says(X):
                        viol("expected", "the explanation of UnexpectedToken does not show the token that was expected")
                    if not found and not says(P + (("f", 0),)):
                        viol("found", "the explanation of UnexpectedToken does not show the token that was found")
        if unsure and len(bad) == before:
            und["slice"] = unsure
    return dict(violations=list(bad.values()), cases=n, undecided=und)


if __name__ == "__main__":
    import sys, dump as dm
    r = run(dm.Dump(sys.argv[1]) if len(sys.argv) > 1 else dm.Dump())
    print(r["cases"], "paths", str(r["undecided"])[:600])
    for v in r["violations"]:
        print(v["key"], v["what"][:300])
