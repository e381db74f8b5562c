"""Code generation.

For every node type, in pretty and in minified mode, and for every combination of the variants, options and flags that
the generator tests, `traverse` with the generator as the visitor is interpreted abstractly.  Its events are what is
appended to (or removed from) the output string and the visits of children.  The resulting automaton is compared with an
automaton generated from the grammar template of the node type (C21); the white space between two tokens and the removal
of characters are decided by a fixpoint over the automata of all node types (C22)."""
from collections import defaultdict
from absint import K, UNIT, TOP, Undecided, mapval, names
from pathdom import PathDomain, NFA, NeedCube, NeedElem, cubes, names_of
from traverse_check import node_types, TRAVERSE, VISITOR, TraverseDomain
import codegen_spec as cs
from codegen_spec import ALL, CLS, REPS, class_of, char_pred

IGN = ("ign",)
VIS_PREFIX = "fajt_ast::traverse::Visitor::"


class Gen(PathDomain):
    def __init__(self, dump, minified):
        super().__init__(dump)
        self.minified = minified
        self.nodes = set()
        td = TraverseDomain(dump, None)
        self.is_node = td.is_node
        self.overrides, self.defaults = {}, {}
        self.gen_ty = None
        for f in dump.fns:
            if f.trait == "fajt_ast::traverse::Visitor":
                if f.full.startswith("<fajt_codegen::"):
                    self.overrides[f.name] = f
                elif "Defaults as" in f.full:
                    self.defaults[f.name] = f
        fs = [f for f in dump.fns if f.path.startswith("fajt_codegen::generate_code") and f.blocks]
        if not self.overrides or not fs:
            raise Undecided("no code generator")
        t = dump.types[self.overrides[sorted(self.overrides)[0]].locals[1]]["to"]
        self.gen_ty = t
        self.imprecise = set()

    # ---------------------------------------------------------------- the generator
    def gen_value(self):
        t = self.T[self.gen_ty]
        fs = []
        for i, (n, ft) in enumerate(t["variants"][0]["f"]):
            fs.append(self.gen_field(n, ft, ("skip", i)))
        return ("a", self.gen_ty, 0, tuple(fs), None)

    def gen_field(self, name, ft, key):
        t = self.T[ft]
        s = t["s"]
        if name == "minified":
            return K(self.minified)
        if t["k"] == "bool" or s == "bool":
            return IGN
        if s.replace(" ", "").endswith("mutstd::string::String"):
            return ("r", ("O", 0), ())
        if t["k"] == "adt" and t["def"] == "fajt_codegen::GeneratorContext":
            return ("a", ft, 0, tuple(self.gen_field(n, x, key) for n, x in t["variants"][0]["f"]), None)
        if "Rc<" in s or s.startswith("fajt_codegen::"):
            return ("l", "index", ())
        return IGN

    def init_state(self, st):
        st.mem[("G", 0)] = self.gen_value()
        st.mem[("O", 0)] = ("out",)
        st.last = (ALL, ("?", ()), None, ())

    # ---------------------------------------------------------------- output state: (last chars, marks, popped, iterations)
    def guard(self, st):
        return (st.last[0], st.last[1])

    def mark(self, st, cell):
        base, ms = st.last[1]
        return dict(ms).get(cell, 0 if base == "0" else None)

    def set_mark(self, st, cell, v):
        lc, (base, ms), pend, it = st.last
        d = dict(ms)
        if v is None and base == "?":
            d.pop(cell, None)
        elif v is None:
            raise Undecided("position of unknown origin")
        elif v == 0 and base == "0":
            d.pop(cell, None)
        else:
            d[cell] = v
        st.last = (lc, (base, tuple(sorted(d.items()))), pend, it)

    def invalidate(self, st, popped):
        def f(v):
            if v == ("lc",):
                return TOP
            if v == ("pc",) and not popped:
                return TOP
            if v[0] in ("pos", "mk"):
                return TOP if popped else ("old",)
            if v[0] == "old":
                return TOP if popped else None
            if v[0] == "col":
                return TOP
            if v[0] == "op":
                return TOP if self.mentions(v) else None
            return None
        for r, v in list(st.mem.items()):
            n = mapval(v, f)
            if n != v:
                st.mem[r] = n

    def mentions(self, v):
        return any(isinstance(x, tuple) and x and (x[0] in ("lc", "pc", "pos", "mk", "col") or self.mentions(x)) for x in v)

    def out_event(self, st, label, lc, site, ctx, value=UNIT, marks=("0", ())):
        g = self.guard(st)
        pend = st.last[2]
        lbl = label + (g,)
        if pend is not None:
            lbl = ("flush", ("pop", pend[2], (pend[0], pend[1])), lbl)
        self.invalidate(st, False)
        st.last = (lc, marks, None, st.last[3])
        self.emit(st, lbl, value, site, ctx)
        return None

    def term_label(self, st, v):
        l = ("ret", self.guard(st))
        if st.last[2] is not None:
            p = st.last[2]
            return ("flush", ("pop", p[2], (p[0], p[1])), l)
        return l

    # ---------------------------------------------------------------- calls
    def find_primitive(self, g):
        p, nm = g.path, g.name
        if g.trait == TRAVERSE and nm == "traverse" and self.is_node(self.T[g.locals[1]]["to"]):
            return Gen.m_child
        s = PRIMS.get(p)
        if s:
            return getattr(Gen, s)
        if p.startswith("std::char::methods::<impl char>::is_"):
            return Gen.p_cpred
        if g.trait and g.trait.endswith("ToString") and g.crate != "fajt_ast" or p == "<T as std::string::ToString>::to_string":
            if g.blocks is None and ("<str as" in g.full or "<char as" in g.full or "String as" in g.full):
                return Gen.m_same
        return super().find_primitive(g)

    def m_same(self, st, g, args, site, ctx):
        return self.deref(st, args[0])

    def m_refsame(self, st, g, args, site, ctx):
        return ("r", ("V", self.strip(self.deref(st, args[0]))), ())

    def virtual(self, st, d, f, bb, t, fn, args, site, on_event, on_term):
        name = fn["virt"]
        if not name.startswith(VIS_PREFIX):
            raise Undecided("virtual call of " + name)
        m = name[len(VIS_PREFIX):]
        g = self.overrides.get(m) or self.defaults.get(m)
        if g is None:
            raise Undecided("visitor method %s is gone" % m)
        return self.enter(st, d, f, bb, t, g, args, site, on_event, on_term)

    def m_child(self, st, g, args, site, ctx):
        v = self.strip(self.deref(st, args[0]))
        lv = self.resolve(st, args[1])
        gen = self.loadlv(st, lv)
        ok = gen[0] == "a" and gen[1] == self.gen_ty
        if ok:
            t = self.T[self.gen_ty]
            for i, (n, ft) in enumerate(t["variants"][0]["f"]):
                want = self.gen_field(n, ft, None)
                have = gen[3][i]
                if want == IGN:
                    if lv[0] == "M":
                        self.storelv(st, ("M", lv[1], lv[2] + (("f", i),)), IGN)
                elif want[0] == "r":
                    ok = ok and self.deref(st, have) == ("out",)
                elif want[0] == "a":
                    for j, (n2, _) in enumerate(self.T[ft]["variants"][0]["f"]):
                        if n2 == "minified":
                            ok = ok and have[0] == "a" and have[3][j] == want[3][j]
                else:
                    ok = ok and have == want
        label = ("child", self.show(st, v), self.d.tname(self.T[g.locals[1]]["to"]), "visitor" if ok else "other")
        return self.out_event(st, label, ALL, site, ctx, marks=("?", ()))

    def show(self, st, v):
        if v[0] != "l":
            return ("?",)
        n = v[1]
        if isinstance(n, tuple) and n[0] == "elem":
            cur = dict(st.last[3]).get(n[1])
            return ("l", ("elem" if cur and cur[0] == n[2] else "elemprev", n[1]), v[2])
        return v

    # ---------------------------------------------------------------- the output string
    def is_out(self, st, a):
        return self.deref(st, a) == ("out",)

    def p_push(self, st, g, args, site, ctx):
        if not self.is_out(st, args[0]):
            raise Undecided("a string that is not the output")
        return self.push_char(st, self.deref(st, args[1]), site, ctx)

    def push_char(self, st, c, site, ctx):
        if c == ("pc",):
            p = st.last[2]
            if p is None:
                raise Undecided("a removed character is added later")
            self.invalidate(st, True)
            st.last = (p[0], p[1], None, st.last[3])
            return UNIT
        if c[0] == "k":
            return self.out_event(st, ("push", chr(c[1])), frozenset([class_of(c[1])]), site, ctx)
        if c[0] == "l":
            return self.out_event(st, ("rawc", self.show(st, c)), ALL - {"START"}, site, ctx)
        raise Undecided("character %r" % (c,))

    def p_push_str(self, st, g, args, site, ctx):
        if not self.is_out(st, args[0]):
            raise Undecided("a string that is not the output")
        v = self.strip(self.deref(st, args[1]))
        if v[0] == "s":
            if v[1] == "":
                return UNIT
            return self.out_event(st, ("push", v[1]), frozenset([class_of(ord(v[1][-1]))]), site, ctx)
        if v == ("ws",):
            lc, m, _, _ = st.last
            return self.out_event(st, ("blank",), lc | {" "}, site, ctx, marks=("?", ()))
        if v[0] == "l":
            kind = self.raw_kind(v)
            first = self.cube.get(("l", v[1], v[2] + ("#first",)))
            if first == "":
                return UNIT
            lc = cs.RAW_LAST[kind]
            marks = ("0", ()) if kind in cs.NONEMPTY else ("?", ())
            if kind not in cs.NONEMPTY and first is None:
                lc = lc | st.last[0]
            return self.out_event(st, ("raw", self.show(st, v), kind, first), lc, site, ctx, marks=marks)
        if v[0] == "chr":
            return self.push_char(st, v[1], site, ctx)
        raise Undecided("text %r" % (v,))

    def raw_kind(self, v):
        return cs.RAW.get((self.cur_type, self.field_names(v)), "text")

    def field_names(self, v):
        t, out, var = self.cur_ty, [], 0
        if isinstance(v[1], tuple):
            return None
        for e in v[2]:
            while self.T[t].get("box"):
                t = self.T[t]["args"][0]
            if e[0] == "v":
                var = e[1]
                if self.T[t]["akind"] == "enum":
                    out.append(self.T[t]["variants"][var]["n"])
            elif e[0] == "f":
                f = self.T[t]["variants"][var]["f"][e[1]]
                if not f[0].isdigit():
                    out.append(f[0])
                t, var = f[1], 0
        return ".".join(out)

    def p_pop(self, st, g, args, site, ctx):
        if not self.is_out(st, args[0]):
            raise Undecided("a string that is not the output")
        if st.last[2] is not None:
            raise Undecided("two characters are removed")
        lc, marks, _, it = st.last
        oty = self.pty(ctx["f"], ctx["dest"])
        out = []
        if "START" in lc:
            s2 = st.copy()
            s2.last = (frozenset(["START"]), marks, None, it)
            out.append((s2, ("a", oty, 0, (), None)))
        self.invalidate(st, True)
        st.last = (ALL, ("?", ()), (lc - {"START"}, marks, self.site_loc(site)), it)
        if lc - {"START"}:
            out.append((st, ("a", oty, 1, (("pc",),), None)))
        return out

    def p_len(self, st, g, args, site, ctx):
        v = self.strip(self.deref(st, args[0]))
        if v == ("out",):
            return ("pos",)
        if v[0] == "l":
            return ("len", v)
        return TOP

    def p_is_empty_str(self, st, g, args, site, ctx):
        v = self.strip(self.deref(st, args[0]))
        if v == ("out",):
            return ("op", "outempty")
        if v[0] == "s":
            return K(int(v[1] == ""))
        if v[0] == "l":
            return ("op", "strempty", v)
        return TOP

    def p_chars(self, st, g, args, site, ctx):
        return ("chars", self.strip(self.deref(st, args[0])))

    def p_new_ws(self, st, g, args, site, ctx):
        v = self.strip(self.deref(st, args[0]))
        if v[0] == "s" and v[1] != "" and set(v[1]) <= {" ", "\t"}:
            return ("ws",)
        raise Undecided("repetition of %r" % (v,))

    def opt(self, ctx, x):
        t = self.pty(ctx["f"], ctx["dest"])
        return ("a", t, 0, (), None) if x is None else ("a", t, 1, (x,), None)

    def last_char(self, st, ctx):
        lc, m, p, it = st.last
        out = []
        if "START" in lc:
            s2 = st.copy()
            s2.last = (frozenset(["START"]), m, p, it)
            out.append((s2, self.opt(ctx, None)))
        if lc - {"START"}:
            st.last = (lc - {"START"}, m, p, it)
            out.append((st, self.opt(ctx, ("lc",))))
        return out

    def p_last(self, st, g, args, site, ctx):
        v = self.deref(st, args[0])
        if v == ("chars", ("out",)):
            return self.last_char(st, ctx)
        return NotImplemented

    def p_next(self, st, g, args, site, ctx):
        v = self.deref(st, args[0])
        if v[0] != "chars":
            return NotImplemented
        s = v[1]
        lv = self.resolve(st, args[0])
        if lv[0] == "M":
            self.storelv(st, lv, ("chars2",))
        if s[0] == "s":
            return self.opt(ctx, K(ord(s[1][0])) if s[1] else None)
        if s == ("ws",):
            return self.opt(ctx, K(32))
        if s[0] == "l":
            kind = self.raw_kind(s)
            out = []
            for key, s2 in self.path_split(st, ("l", s[1], s[2] + ("#first",)), list(cs.RAW_FIRST[kind]), lambda x: x):
                out.append((s2, self.opt(ctx, ("cc", key) if key != "" else None)))
            return out
        raise Undecided("first character of %r" % (s,))

    def p_ends_with(self, st, g, args, site, ctx):
        v = self.strip(self.deref(st, args[0]))
        if v == ("out",) and args[1][0] == "k":
            return ("op", "Eq", ("lc",), args[1]) if "START" not in st.last[0] else ("op", "endswith", args[1])
        if v[0] == "l" and self.raw_kind(v) == "number" and args[1] in (K(46), ("s", ".")):
            return self.has_dot(st, v, site, True)
        raise Undecided("ends_with")

    def p_starts_with(self, st, g, args, site, ctx):
        v = self.strip(self.deref(st, args[0]))
        if v[0] == "s" and args[1][0] == "k":
            return K(int(v[1][:1] == chr(args[1][1])))
        raise Undecided("starts_with")

    def p_all(self, st, g, args, site, ctx):
        v = self.deref(st, args[0])
        if v[0] != "chars" or v[1][0] != "l":
            return NotImplemented
        s = v[1]
        if self.raw_kind(s) != "number":
            raise Undecided("test on every character of %r" % (s,))
        kind, s2 = self.number_kind(st, s)
        want = g.name == "all"
        res = {c: self.pure(s2, args[1], ("cc", c)) for c in ("D", "_", ".", "L")}

        def always(c, x):
            return res[c] == {int(x)}
        if all(always(c, want) for c in {"int": "D_", "dec": "D_.", "other": "D_.L"}[kind]):
            return K(int(want))
        if always("D", not want):
            return K(int(not want))
        if kind == "dec" and always(".", not want) or kind == "other" and always(".", not want) and always("L", not want):
            return K(int(not want))
        self.imprecise.add(self.site_loc(site))
        return [(s2.copy(), K(0)), (s2.copy(), K(1))]

    def number_kind(self, st, s):
        """an integer without prefix, a number that ends with its decimal point, or any other"""
        (kind, s2), = self.path_split(st, ("l", s[1], s[2] + ("#num",)), ["int", "dec", "other"], lambda x: x)
        return kind, s2

    def has_dot(self, st, v, site, end):
        kind, s2 = self.number_kind(st, v)
        if kind == "other" and not end:
            self.imprecise.add(self.site_loc(site))
            return [(s2.copy(), K(0)), (s2.copy(), K(1))]
        return [(s2, K(int(kind == "dec")))]

    def p_contains(self, st, g, args, site, ctx):
        v = self.strip(self.deref(st, args[0]))
        if v[0] == "l" and self.raw_kind(v) == "number" and args[1] in (K(46), ("s", ".")):
            return self.has_dot(st, v, site, False)
        raise Undecided("contains")

    def pure(self, st, clo, arg):
        """values of a closure without captures"""
        from absint import St
        c = self.deref(st, clo)
        if c[0] != "c" or c[2]:
            raise Undecided("closure")
        inst = self.T[c[1]]["inst"]
        s = St(((inst, 0, None, None, 0),), {(0, 1): ("r", ("V", c), ()), (0, 2): arg}, {}, (), 1, st.last)
        out = set()

        def on_event(*a):
            raise Undecided("event in a closure")

        def on_term(s2, kind, v, site):
            if kind != "ret" or v[0] != "k":
                for g, _ in self.split(s2, v, lambda x: x, [0, 1]):
                    out.add(g)
            else:
                out.add(v[1])
        self.run_segment(s, on_event, on_term)
        return out

    # ---------------------------------------------------------------- positions
    def p_cell_get(self, st, g, args, site, ctx):
        c = self.resolve(st, args[0])
        c = c[1] if c[0] == "V" else self.loadlv(st, c)
        if c[0] == "l" and c[1] == "index":
            return ("mk", c[2])
        if c[0] == "cell":
            return c[1]
        return IGN

    def p_cell_set(self, st, g, args, site, ctx):
        c = self.deref(st, args[0])
        if c[0] != "l" or c[1] != "index":
            raise Undecided("cell %r" % (c,))
        v = args[1]
        if v == ("pos",):
            m = 1
        elif v == ("old",) or v[0] == "k":
            m = 0
        elif v[0] == "mk":
            m = self.mark(st, v[1])
        else:
            m = None
        g0 = self.guard(st)
        if st.last[2] is not None:
            # the removal is final
            p = st.last[2]
            st.last = (st.last[0], st.last[1], None, st.last[3])
            self.set_mark(st, c[2], m)
            self.emit(st, ("flush", ("pop", p[2], (p[0], p[1])), ("mark", c[2], m, g0)), ("mk", c[2]), site, ctx)
            return None
        self.set_mark(st, c[2], m)
        self.emit(st, ("mark", c[2], m, g0), ("old",), site, ctx)
        return None

    def binop(self, op, a, b):
        ovf = op.endswith("WithOverflow")
        if a[0] == "k" and b[0] == "k" and op[:3] == "Add" and a[1] + b[1] > 3:
            r = ("big",)
            return ("t", (r, K(0))) if ovf else r
        if ovf:
            if a[0] == "k" and b[0] == "k":
                return super().binop(op, a, b)
            if op[:3] == "Sub" and a[0] == "len" and b == K(1):
                return ("t", (("len-1", a[1]), ("op", "empty", a[1])))
            r = self.arith(op[:3], a, b)
            return ("t", (r, K(0)))
        if a == IGN or b == IGN:
            return IGN
        if op in self.CMP:
            flip = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}
            for o, x, y in ((op, a, b), (flip.get(op, op), b, a)):
                if x[0] == "idx" and y[0] == "k":
                    if x[2] == 0:
                        return K(int(self.CMP[o](0, y[1])))
                    rs = {int(self.CMP[o](i, y[1])) for i in range(1, y[1] + 3)}
                    if len(rs) == 1:
                        return K(rs.pop())
                    raise Undecided("test on an index")
                if (x[0], y[0]) in (("idx1", "len"), ("idx", "len-1")) and x[1] == y[1] and o in ("Lt", "Ne", "Eq", "Ge"):
                    return ("op", "last", x[1], x[3], int(o in ("Eq", "Ge")))
                if x[0] in ("idx", "idx1") and y[0] in ("idx", "idx1", "len", "len-1"):
                    raise Undecided("test on an index")
        return super().binop(op, a, b)

    def arith(self, op, a, b):
        r = self.index_sum(op[:3], a, b)
        if r is not None:
            return r
        if op[:3] == "Sub" and a == ("pos",) and b[0] == "mk":
            return ("col", b[1])
        if op[:3] == "Add" and (a == ("big",) or b == ("big",)):
            return ("big",)
        return IGN if IGN in (a, b) or a[0] in ("pos", "col", "big", "mk", "old") else TOP

    def index_sum(self, op, a, b):
        if op == "Add":
            for x, y in ((a, b), (b, a)):
                if x[0] == "idx" and y == K(1):
                    return ("idx1",) + x[1:]
        if op == "Sub" and a[0] == "len" and b == K(1):
            return ("len-1", a[1])
        return None

    def m_enum_next(self, st, g, args, site, ctx):
        it = self.deref(st, args[0])
        if it[0] != "a" or it[3][0][0] != "it" or it[3][0][1] != "seq" or it[3][1][0] not in ("k", "big"):
            return NotImplemented
        seq = it[3][0][2]
        cur = dict(st.last[3]).get(seq, (None,))[0]
        n = 0 if cur is None else 1
        k = 0 if cur is None else 1 - cur
        oty = self.option_ty(g)
        return self.seq_next(st, it[3][0], site, ctx,
                             lambda x: ("a", oty, 0, (), None) if x is None else ("a", oty, 1, (("t", (("idx", seq, n, k), x)),), None))

    def split_last(self, st, v, keyf):
        """whether the current element is the last: a guess that the next step of the iteration keeps"""
        _, _, seq, k, want = v
        d = dict(st.last[3])
        e = d.get(seq)
        if e is None or e[0] != k:
            raise Undecided("index of an earlier element")
        if e[1]:
            return [(keyf(want), st)]
        if len(e) > 3:
            return [(keyf(int(e[3] == want)), st)]
        out = []
        for last in (0, 1):
            s2 = st.copy()
            s2.last = st.last[:3] + (tuple(sorted({**d, seq: e + (last,)}.items(), key=repr)),)
            out.append((keyf(int(last == want)), s2))
        return out

    def discr(self, v, t):
        if v == IGN:
            return IGN
        return super().discr(v, t)

    def proj_other(self, v, e):
        return IGN if v == IGN else TOP

    # ---------------------------------------------------------------- tests
    def split_char(self, st, v, keyf):
        if v == ("lc",):
            cl = st.last[0]
        elif v == ("pc",):
            if st.last[2] is None:
                raise Undecided("test of a removed character")
            cl = st.last[2][0]
        else:
            cl = frozenset([v[1]])
        groups = defaultdict(set)
        for c in cl:
            for code in REPS[c]:
                groups[keyf(code)].add(c)
        out = []
        for k, cs_ in sorted(groups.items(), key=lambda x: repr(x[0])):
            s2 = st.copy()
            fs = frozenset(cs_)
            if v == ("lc",):
                s2.last = (fs,) + st.last[1:]
            elif v == ("pc",):
                p = st.last[2]
                s2.last = st.last[:2] + ((fs,) + p[1:],) + st.last[3:]
            out.append((k, s2))
        return out

    def split_value(self, st, v, keyf, allg):
        if v[0] in ("lc", "pc", "cc"):
            return self.split_char(st, v, keyf)
        if v[0] == "col":
            return self.split_eq(st, v[1], lambda eq: keyf(0) if eq else keyf(7))
        if v[0] == "len":
            x = v[1]
            out = []
            for e, s2 in self.path_split(st, ("l", x[1], x[2] + ("#empty",)), [0, 1], lambda y: y):
                ks = {keyf(0)} if e else {keyf(1), keyf(2), keyf(50)}
                if len(ks) > 1:
                    if keyf(2) != keyf(50):
                        raise Undecided("test on a length")
                    out += self.path_split(s2, ("l", x[1], x[2] + ("#single",)), [0, 1], lambda one: keyf(1) if one else keyf(2))
                    continue
                out.append((ks.pop(), s2))
            return out
        if v[0] == "big":
            ks = {keyf(4), keyf(50)}
            if len(ks) > 1:
                raise Undecided("test on a count")
            return [(ks.pop(), st)]
        if v == IGN:
            return [(g, st.copy()) for g in dict.fromkeys(allg or [keyf(0), keyf(1)])]
        return None

    def split_eq(self, st, cell, keyf):
        m = self.mark(st, cell)
        if m is not None:
            return [(keyf(m), st)]
        out = []
        for x in (0, 1):
            s2 = st.copy()
            self.set_mark(s2, cell, x)
            out.append((keyf(x), s2))
        return out

    def split_cmp(self, st, op, a, b, keyf, allg):
        if a[0] == "mk" and b == ("pos",):
            a, b = b, a
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        if a == ("pos",) and b[0] == "mk":
            val = {"Eq": (0, 1), "Ne": (1, 0), "Gt": (1, 0), "Le": (0, 1), "Ge": (1, 1), "Lt": (0, 0)}[op]
            return self.split_eq(st, b[1], lambda eq: keyf(val[eq]))
        return None

    def split_op(self, st, v, keyf, allg):
        if v[1] == "cpred":
            return self.split_char(st, v[3], lambda code: keyf(int(char_pred(v[2], code))))
        if v[1] == "last":
            return self.split_last(st, v, keyf)
        if v[1] in ("outempty", "endswith"):
            lc, m, p, it = st.last
            out = []
            if "START" in lc:
                s2 = st.copy()
                s2.last = (frozenset(["START"]), m, p, it)
                out.append((keyf(int(v[1] == "outempty")), s2))
            if lc - {"START"}:
                st.last = (lc - {"START"}, m, p, it)
                if v[1] == "outempty":
                    out.append((keyf(0), st))
                else:
                    out += self.split_char(st, ("lc",), lambda code: keyf(int(code == v[2][1])))
            return out
        if v[1] == "strempty":
            kind = self.raw_kind(v[2])
            if kind in cs.NONEMPTY:
                return [(keyf(0), st)]
            return self.path_split(st, ("l", v[2][1], v[2][2] + ("#first",)), list(cs.RAW_FIRST[kind]), lambda x: keyf(int(x == "")))
        if v[1] == "empty" and v[2] != ("out",):
            return self.empty_split(st, v[2], keyf)
        return super().split_op(st, v, keyf, allg)

    def empty_split(self, st, x, keyf):
        if self.nonempty(x):
            return [(keyf(0), st)]
        return self.path_split(st, ("l", x[1], x[2] + ("#empty",)), [0, 1], keyf)

    def nonempty(self, x):
        return (self.cur_type, self.field_names(x)) in cs.NONEMPTY_SEQ

    def p_cpred(self, st, g, args, site, ctx):
        v = self.deref(st, args[0])
        if v[0] == "k":
            return K(int(char_pred(g.name, v[1])))
        if v[0] in ("lc", "pc", "cc"):
            char_pred(g.name, 65)
            return ("op", "cpred", g.name, v)
        return TOP

    def havoc(self, st, v, allg):
        if v == IGN:
            return [(g, st.copy()) for g in allg]
        if allg is None:
            raise Undecided("test on an unknown value %r" % (v,))
        fr = self.lastfr[-1]
        self.imprecise.add((self.d.fns[fr[0]].path, self.d.fns[fr[0]].loc))
        return super().havoc(st, v, allg)

    # ---------------------------------------------------------------- sequences
    def combos(self, seq, demands):
        out = [{}]
        for path, options in demands.get(seq, []):
            nxt = []
            for c in out:
                if self.consistent(c, path):
                    nxt += [{**c, path: o} for o in options]
                else:
                    nxt.append(c)
            out = nxt
        return [(c, tuple(sorted(c.items(), key=repr))) for c in out]

    def consistent(self, c, path):
        for i, e in enumerate(path):
            if e[0] == "v" and path[:i] in c and c[path[:i]] != e[1]:
                return False
        return True

    def seq_next(self, st, it, site, ctx, wrap):
        seq = it[2]
        iters = dict(st.last[3])
        cur, ended, drawn = iters.get(seq, (None, False, False))[:3]
        last = dict(enumerate(iters.get(seq, ()))).get(3)
        if ended and any("fajt_codegen" in (self.d.fns[x[0]].path or "") for x in self.lastfr):
            raise Undecided("second iteration over %r" % (seq,))
        self.gc(st)
        k = 0 if cur is None else 1 - cur
        nm = set()
        for v in st.mem.values():
            names_of(v, nm)
        if ("elem", seq, k) in nm:
            k = 2
            if ("elem", seq, k) in nm or cur == 2:
                raise Undecided("elements of an iteration are kept")
        empty = self.cube.get(("l", seq[1], seq[2] + ("#empty",)))
        if self.nonempty(seq):
            empty = 0
        g = self.guard(st)
        before = {x[2]: o for x, o in st.con.items() if x[1] == ("elem", seq, cur)} if cur is not None else {}
        rest = self.cur_type == "ArrayAssignmentPattern" and any(o == 1 and self.field_names(x) == "rest" for x, o in self.cube.items() if x[1] == "self")

        def go(s2, label, value, con, entry):
            if ended:      # the traversal goes through a list which the visitor has written already
                label, entry = ("again", seq, g), (entry[0], True, drawn)
            s2.con = {x: y for x, y in s2.con.items() if x[1] != ("elem", seq, k)}
            s2.con.update(con)
            d = dict(st.last[3])
            d[seq] = entry
            s2.last = st.last[:3] + (tuple(sorted(d.items(), key=repr)),)
            if st.last[2] is not None:
                raise Undecided("a removed character is pending in a loop")
            self.emit(s2, label, value, site, ctx)
        single = self.cube.get(("l", seq[1], seq[2] + ("#single",)))
        more = True if single is None else min(drawn + 1, 2)
        if ended or not (empty == 0 and not drawn) and not (single == 0 and drawn < 2) and last != 0 and not (rest and before.get(()) == 1):
            go(st.copy(), ("end", seq, g), wrap(None), {}, (cur, True, drawn))
        if empty != 1 and (drawn if ended else last != 1 and not (single == 1 and drawn)):
            el = ("l", ("elem", seq, k), ())
            for c, suffix in self.combos(seq, self.demands):
                if not cs.follows(self.cur_type, self.field_names(seq), before, c):
                    continue
                con = {("l", ("elem", seq, k), p): o for p, o in c.items()}
                go(st.copy(), ("next", seq, suffix, g), wrap(("r", ("V", el), ())), con, (k, False, more))
        return None

    def gc_con(self, st):
        if st.con:
            al = set()
            for v in st.mem.values():
                names_of(v, al)
            for seq, (cur, *_) in st.last[3]:
                if cur is not None:
                    al.add(("elem", seq, cur))
            st.con = {k: v for k, v in st.con.items() if k[1] in al or k[1][0] != "elem"}

    def m_seq_last(self, st, g, args, site, ctx):
        v = self.strip(self.deref(st, args[0]))
        if v[0] != "l":
            return TOP
        e = dict(st.last[3]).get(v)
        if e is None or not e[1]:
            raise Undecided("last element before the end of the iteration")
        if not e[2]:
            return self.opt(ctx, None)
        return self.opt(ctx, ("r", ("V", ("l", ("elem", v, e[0]), ())), ()))

    def intrinsic(self, st, name, tys, args):
        return super().intrinsic(st, name, tys, args)


PRIMS = {
    "<std::iter::Enumerate<I> as std::iter::Iterator>::next": "m_enum_next",
    "std::string::String::push": "p_push",
    "std::string::String::push_str": "p_push_str",
    "<std::string::String as std::ops::AddAssign<&str>>::add_assign": "p_push_str",
    "std::string::String::pop": "p_pop",
    "std::string::String::len": "p_len",
    "core::str::<impl str>::len": "p_len",
    "std::vec::Vec::<T, A>::len": "p_len",
    "core::slice::<impl [T]>::len": "p_len",
    "std::string::String::is_empty": "p_is_empty_str",
    "core::str::<impl str>::is_empty": "p_is_empty_str",
    "core::str::<impl str>::chars": "p_chars",
    "core::str::<impl str>::ends_with": "p_ends_with",
    "core::str::<impl str>::starts_with": "p_starts_with",
    "core::str::<impl str>::contains": "p_contains",
    "<std::str::Chars<'a> as std::iter::Iterator>::last": "p_last",
    "<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::next_back": "p_last",
    "<std::str::Chars<'a> as std::iter::Iterator>::next": "p_next",
    "std::iter::Iterator::all": "p_all",
    "std::iter::Iterator::any": "p_all",
    "std::str::<impl str>::repeat": "p_new_ws",
    "std::cell::Cell::<T>::get": "p_cell_get",
    "std::cell::Cell::<T>::set": "p_cell_set",
    "std::cell::Cell::<T>::replace": "p_cell_set",
    "<std::rc::Rc<T, A> as std::ops::Deref>::deref": "m_refsame",
    "<std::rc::Rc<T, A> as std::clone::Clone>::clone": "m_same",
    "<std::string::String as std::clone::Clone>::clone": "m_same",
    "core::slice::<impl [T]>::last": "m_seq_last",
    "<str as std::string::ToString>::to_string": "m_same",
}


# -------------------------------------------------------------------- unit automata
def units(text):
    """words, single punctuation characters and white space"""
    out = []
    for ch in text:
        if ch.isalnum() or ch in "_$":
            if out and out[-1][0] == "w" and not out[-1][2]:
                out[-1] = ("w", out[-1][1] + ch, False)
            else:
                out.append(("w", ch, False))
        elif ch == "\n":
            out.append(("nl",))
        elif ch in " \t":
            out.append(("sp",))
        else:
            out.append(("p", ch))
    return [x[:2] for x in out]


def refine(nfa):
    """Splits the labels of an automaton into units: edges (kind..., guard)."""
    out = NFA(nfa.name)
    out.n = nfa.n
    out.start = nfa.start
    out.final = set(nfa.final)

    def put(a, label, b, loc):
        if label[0] == "flush":
            m = out.new()
            out.add(a, ("pop", label[1][2]), m, label[1][1])
            put(m, label[2], b, loc)
        elif label[0] == "push":
            us = units(label[1])
            for i, u in enumerate(us):
                m = b if i == len(us) - 1 else out.new()
                out.add(a, u + (label[2] if i == 0 else None,), m, loc)
                a = m
        else:
            out.add(a, label, b, loc)
    for a in list(nfa.edges):
        for label, b in nfa.edges[a]:
            put(a, label, b, nfa.locs.get((a, label)))
    return out


def run(dump, types=None):
    from absint import Budget
    td = TraverseDomain(dump, None)
    nodes = [t for t in node_types(dump, td) if dump.tname(t) not in cs.NOT_PRINTED]
    impls = {}
    for f in dump.fns:
        if f.trait == TRAVERSE and f.name == "traverse" and f.blocks:
            impls[td.self_ty(f)] = f
    R = {"violations": [], "undecided": {}, "types": 0, "cubes": 0, "states": 0}
    modes = {}
    for minified in (0, 1):
        dom = Gen(dump, minified)
        per = {}
        for t in nodes:
            name = dump.tname(t)
            if types and name not in types:
                continue
            f = impls.get(t)
            if f is None:
                R["undecided"][name] = "no reachable Traverse implementation"
                continue
            if name not in cs.TEMPLATES and not cs.is_plain(dump, t):
                R["undecided"][name] = "no template"
                continue
            args = [("r", ("V", ("l", "self", ())), ()), ("r", ("G", 0), ())]
            dom.cur_ty, dom.cur_type = t, name
            dom.imprecise = set()

            def one(cube, demands):
                a = dom.analyse(f, args, cube, demands)
                bu = cs.Builder(dump, dom, t, cube, demands)
                b = bu.build()
                b.glue = bu.glue
                return refine(a), b
            try:
                res = cubes(one)
            except (Undecided, Budget, NeedElem) as e:
                R["undecided"][name] = "%s: %s" % (type(e).__name__, str(e)[:200])
                continue
            res = [(c, ab) for c, ab in res if cs.possible(name, c, dom)]
            per[name] = (t, f, res, set(dom.imprecise))
            R["types"] += 1
            R["cubes"] += len(res)
            R["states"] += sum(a.n for _, (a, b) in res)
        modes[minified] = (dom, per)
    for minified, (dom, per) in modes.items():
        flow = cs.Flow(dump, dom, per)
        flow.run()
        cs.compare(dump, dom, per, flow, minified, R)
    return R


if __name__ == "__main__":
    import sys, time
    from dump import Dump
    t0 = time.time()
    d = Dump(*sys.argv[1:2])
    r = run(d, set(sys.argv[2:]))
    for v in r["violations"]:
        print(v["prop"], v["key"], "|", v["what"], "|", v["loc"])
    for k, v in r["undecided"].items():
        print("UNDECIDED", k, v)
    print({k: v for k, v in r.items() if k not in ("violations", "undecided")}, "%.1fs" % (time.time() - t0))
