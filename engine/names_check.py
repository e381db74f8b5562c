"""BoundNames: every name a pattern or parameter list binds is found, once, and nothing else.
The functions are interpreted to automata of collected names; the order does not matter (the names are sorted before use)."""
from pathdom import PathDomain, NFA, cubes, NeedCube, NeedElem
from absint import K, UNIT, TOP, Undecided, Budget

SELFS = {"get_bound_names": "BindingPattern", "bound_names": "FormalParameters"}
COL = ("tk", "collected")

# feeds the elements of a sequence to a sink
SYN_DRAIN = {
    "locals": 6,
    "blocks": [
        {"s": [["=", [5], ["ref", True, [1]]]], "t": ["call", {"syn": "next"}, [["m", [5]]], [4], 1], "l": "?"},
        {"s": [], "t": ["switch", ["c", [4, ["f", 0, 0]]], [["0", 3]], 2], "l": "?"},
        {"s": [["=", [5], ["use", ["m", [4, ["f", 1, 0]]]]]], "t": ["call", {"syn": "feed"}, [["c", [2]], ["m", [5]]], [5], 0], "l": "?"},
        {"s": [["=", [0], ["use", ["c", [3]]]]], "t": ["ret"], "l": "?"},
    ],
}
# calls the function of a `map` and feeds its result
SYN_MAP = {
    "locals": 6,
    "blocks": [
        {"s": [], "t": ["call", {"op": ["c", [1]]}, [["m", [3]]], [4], 1], "l": "?"},
        {"s": [], "t": ["call", {"syn": "feed"}, [["c", [2]], ["m", [4]]], [5], 2], "l": "?"},
        {"s": [["=", [0], ["use", ["c", [2]]]]], "t": ["ret"], "l": "?"},
    ],
}


class NamesDomain(PathDomain):
    def __init__(self, dump, own):
        super().__init__(dump)
        self.own = own
        self.syn_drain = self.synthetic("drain", SYN_DRAIN, 3)
        self.syn_map = self.synthetic("mapfeed", SYN_MAP, 3)

    def find_primitive(self, g):
        if g.name in SELFS and g.crate == "fajt_parser" and not g.closure and g.id not in (self.own,) or g.id == self.own:
            return NamesDomain.m_names
        if g.path in PRIMS:
            return PRIMS[g.path]
        if g.trait == "std::iter::Iterator" and g.name == "next" and ("Flatten" in g.path or "Option" in g.path):
            return NamesDomain.m_next
        if g.name == "into_iter" and "IntoIterator" in (g.trait or "") and "I as" in g.path:
            return NamesDomain.m_ident
        if g.name in ("deref", "deref_mut", "as_ref", "as_mut", "borrow") and "String" in g.path:
            return NamesDomain.m_ident
        return super().find_primitive(g)

    def pattern(self, st, v):
        v = self.strip(self.deref(st, v))
        if v[0] != "l":
            raise Undecided("names of %r" % (v,))
        return v

    def m_names(self, st, g, args, site, ctx):
        return ("op", "names", self.pattern(st, args[0]), K(0))

    def m_col(self, st, g, args, site, ctx):
        return COL

    def m_uninit(self, st, g, args, site, ctx):
        return ("b", ("t", ()))

    def m_into_vec(self, st, g, args, site, ctx):
        from joint import Joint
        return Joint.m_into_vec(self, st, g, args, site, ctx)

    def target(self, st, r):
        v = self.deref(st, r)
        if v != COL and v[0] != "vec" and not (v[0] == "op" and v[1] == "names"):
            raise Undecided("collecting into %r" % (v,))

    def m_push(self, st, g, args, site, ctx):
        self.target(st, args[0])
        return self.consume(st, args[1], site, ctx, UNIT)

    def m_append(self, st, g, args, site, ctx):
        self.target(st, args[0])
        return self.consume(st, self.deref(st, args[1]) if args[1][0] == "r" else args[1], site, ctx, UNIT)

    def m_extend(self, st, g, args, site, ctx):
        self.target(st, args[0])
        v = args[1]
        if v[0] in ("ad", "it") or v[0] == "op" and v[1] == "ad":
            return self.drain(st, v, ctx, site)
        return self.consume(st, self.deref(st, v) if v[0] == "r" else v, site, ctx, UNIT)

    def m_collect(self, st, g, args, site, ctx):
        if "Vec" not in self.T[self.pty(ctx["f"], ctx["dest"])]["s"]:
            raise Undecided("collect")
        return self.drain(st, args[0], ctx, site)

    def labels(self, st, v):
        """what is collected when the value is added"""
        if v == COL:
            return []
        if v[0] == "vec":
            return [x for y in v[2] for x in self.labels(st, y)]
        if v[0] == "op" and v[1] == "names":
            return [("names", v[2])]
        x = self.strip(self.deref(st, v))
        if x[0] == "l" and isinstance(x[2][-1] if x[2] else None, tuple):
            return [("name", x)]
        raise Undecided("collecting %r" % (v,))

    def consume(self, st, v, site, ctx, result):
        ls = self.labels(st, v)
        if len(ls) > 1:
            raise Undecided("several names at once")
        if not ls:
            return result
        self.emit(st, ls[0], result, site, ctx)
        return None

    def enter_syn(self, st, fid, args, dest, ret, site):
        nd = len(st.fr)
        for i, a in enumerate(args):
            st.mem[(nd, i + 1)] = a
        st.fr = st.fr + ((fid, 0, totuple(dest), ret, site),)
        return "ENTER"

    def drain(self, st, it, ctx, site, sink=("emit",)):
        while it[0] == "op" and it[1] == "ad":
            kind = it[2][1]
            if kind == "flatten":
                sink = ("flatten", sink)
            elif kind in ("map",):
                sink = ("map", it[3], sink)
            elif kind in ("flat_map", "filter_map"):
                sink = ("map", it[3], ("flatten", sink))
            it = it[4]
        if it[0] != "it":
            raise Undecided("iteration over %r" % (it,))
        return self.enter_syn(st, self.syn_drain.id, [it, ("op", "sink", sinkval(sink), K(0)), COL], ctx["dest"], ctx["ret"], site)

    def syn_feed(self, st, args, site, ctx):
        sink = sinkof(args[0])
        v = args[1]
        while True:
            if sink[0] == "emit":
                r = self.consume(st, v, site, ctx, COL)
                if r is not None:
                    self.finish(st, ctx, r)
                return
            if sink[0] == "map":
                self.enter_syn(st, self.syn_map.id, [sink[1], ("op", "sink", sinkval(sink[2]), K(0)), v], ctx["dest"], ctx["ret"], site)
                ctx["on_event"](st, ("tau",), site)
                return
            # flatten
            if v == COL or v[0] == "vec" or v[0] == "op" and v[1] == "names":
                if sink[1] != ("emit",):
                    raise Undecided("nested iteration")
                sink = sink[1]
                continue
            x = v if v[0] == "a" else self.strip(self.deref(st, v))
            if x[0] == "a" and "Option" in self.T[x[1]]["s"]:
                if x[2] == 0:
                    self.finish(st, ctx, COL)
                    return
                v, sink = x[3][0], sink[1]
                continue
            if x[0] == "l":
                some = self.path_split(st, x, [0, 1], lambda o: o)
                (k, s2), = some
                if not k:
                    self.finish(s2, ctx, COL)
                    return
                st = s2
                v, sink = ("r", ("V", ("l", x[1], x[2] + (("v", 1), ("f", 0)))), ()), sink[1]
                continue
            raise Undecided("flatten of %r" % (x,))

    def finish(self, st, ctx, value):
        self.assign(st, ctx["d"], ctx["f"], ctx["dest"], value)
        self.goto(st, ctx["ret"])
        ctx["on_event"](st, ("tau",), None)

    def adaptor(kind):
        def m(self, st, g, args, site, ctx):
            f = args[1] if len(args) > 1 else K(0)
            return ("op", "ad", ("s", kind), f, args[0])
        return m

    def m_next(self, st, g, args, site, ctx):
        it = self.deref(st, args[0])
        if it[0] == "op" and it[1] == "ad" and it[2][1] == "flatten" and it[4][0] == "it":
            seq = it[4][2]
            if (((), [0, 1])) not in self.demands.get(seq, []):
                raise NeedElem(seq, (), [0, 1])
            oty = self.option_ty(g)
            el = ("l", ("elem", seq), ())

            def at(c):
                s2 = st.copy()
                s2.con = {k: x for k, x in s2.con.items() if k[1] != ("elem", seq)}
                s2.con.update(c)
                return s2
            self.emit(at({}), ("end", seq), ("a", oty, 0, (), None), site, ctx)
            combos = [{}]
            for path, options in self.demands.get(seq, []):
                combos = [{**c, ("l", ("elem", seq), path): o} for c in combos for o in options] if True else combos
            seen = set()
            for c in combos:
                some = c[el]
                if not some:
                    c = {el: 0}
                k = tuple(sorted(((k[2], v) for k, v in c.items()), key=repr))
                if k in seen:
                    continue
                seen.add(k)
                lbl = ("next", seq) + k
                if some:
                    x = ("r", ("V", ("l", el[1], (("v", 1), ("f", 0)))), ())
                    self.emit(at(c), lbl, ("a", oty, 1, (x,), None), site, ctx)
                else:
                    ctx["on_event"](at({}), lbl, site)
            return None
        return super().m_next(st, g, args, site, ctx)

    def term_label(self, st, v):
        if v == COL:
            return None
        ls = self.labels(st, v)
        if not ls:
            return None
        if len(ls) > 1:
            raise Undecided("several names at once")
        return ls[0]


def totuple(x):
    return tuple(totuple(y) for y in x) if isinstance(x, (list, tuple)) else x


def sinkval(s):
    if s[0] == "emit":
        return ("s", "emit")
    if s[0] == "map":
        return ("op", "smap", s[1], sinkval(s[2]))
    return ("op", "sflat", sinkval(s[1]), K(0))


def sinkof(v):
    def go(x):
        if x[0] == "s":
            return ("emit",)
        if x[1] == "smap":
            return ("map", x[2], go(x[3]))
        return ("flatten", go(x[2]))
    return go(v[2])


V = "std::vec::Vec::<T, A>::"
I = "std::iter::Iterator::"
PRIMS = {
    "std::vec::Vec::<T>::new": NamesDomain.m_col,
    "std::vec::Vec::<T>::with_capacity": NamesDomain.m_col,
    "std::boxed::Box::<T>::new_uninit": NamesDomain.m_uninit,
    "std::boxed::box_assume_init_into_vec_unsafe": NamesDomain.m_into_vec,
    V + "push": NamesDomain.m_push,
    V + "append": NamesDomain.m_append,
    "<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend": NamesDomain.m_extend,
    I + "collect": NamesDomain.m_collect,
}
for _k in ("flatten", "map", "flat_map", "filter_map"):
    PRIMS[I + _k] = NamesDomain.adaptor(_k)


class Spec:
    """the names of a type, in any order"""

    def __init__(self, dump, dom, ty, cube, demands):
        self.d, self.T, self.dom, self.cube, self.demands = dump, dump.types, dom, cube, demands
        self.n = NFA("spec")
        obligations = self.of(ty, ("l", "self", ()))
        n = self.n
        full = frozenset(range(len(obligations)))
        nodes = {full: n.new()}
        n.start = nodes[full]
        work = [full]
        while work:
            s = work.pop()
            if not s:
                n.final.add(nodes[s])
            for i in s:
                r = s - {i}
                if r not in nodes:
                    nodes[r] = n.new()
                    work.append(r)
                o = obligations[i]
                if o[0] == "seq":
                    loop = n.new()
                    n.eps[nodes[s]].add(loop)
                    n.add(loop, ("end", o[1]), nodes[r])
                    for label, inner in o[2]:
                        m = n.new()
                        n.add(loop, label, m)
                        for x in inner:
                            k = n.new()
                            n.add(m, x, k)
                            m = k
                        n.eps[m].add(loop)
                else:
                    n.add(nodes[s], o, nodes[r])

    def tname(self, t):
        return self.T[t].get("def", "").split("::")[-1]

    def variants(self, t):
        return {v["n"]: (i, v["d"]) for i, v in enumerate(self.T[t]["variants"])}

    def field(self, t, v, name, var=0):
        while self.T[t].get("box"):
            t = self.T[t]["args"][0]
        fs = self.T[t]["variants"][var]["f"]
        j = next((j for j, x in enumerate(fs) if x[0] == name), None)
        if j is None:
            raise Undecided("field %s.%s is gone" % (self.tname(t), name))
        pre = (("v", var),) if self.T[t]["akind"] == "enum" else ()
        return fs[j][1], ("l", v[1], v[2] + pre + (("f", j),))

    def option(self, t, v):
        """the value inside of an option, or None"""
        if v not in self.cube:
            raise NeedCube(v, [0, 1])
        if not self.cube[v]:
            return None
        t, v = self.T[t]["args"][0], ("l", v[1], v[2] + (("v", 1), ("f", 0)))
        while self.T[t].get("box"):
            t = self.T[t]["args"][0]
        return t, v

    def rest(self, t, v):
        r = self.option(*self.field(t, v, "rest"))
        return [("names", r[1])] if r else []

    def combos(self, seq, need):
        for p, o in need:
            if (p, o) not in self.demands.get(seq, []):
                raise NeedElem(seq, p, o)
        out = [{}]
        for p, o in self.demands.get(seq, []):
            nxt = []
            for c in out:
                ok = all(c.get(p[:i], e[1]) == e[1] for i, e in enumerate(p) if e[0] == "v")
                nxt += [{**c, p: x} for x in o] if ok else [c]
            out = nxt
        return [(("next", seq) + tuple(sorted(c.items(), key=repr)), c) for c in out]

    def of(self, ty, v):
        name = self.tname(ty)
        if name == "FormalParameters":
            bt, bv = self.field(ty, v, "bindings")
            et = self.T[bt]["args"][0]
            p = self.field(et, ("l", ("elem", bv), ()), "pattern")[1]
            return [("seq", bv, [(l, [("names", p)]) for l, c in self.combos(bv, [])])] + self.rest(ty, v)
        if name == "BindingPattern":
            vs = self.variants(ty)
            if v not in self.cube:
                raise NeedCube(v, [x[1] for x in vs.values()])
            var = next(n for n, x in vs.items() if x[1] == self.cube[v])
            i = vs[var][0]
            t, x = self.T[ty]["variants"][i]["f"][0][1], ("l", v[1], v[2] + (("v", i), ("f", 0)))
            if var == "Ident":
                return [("name", self.field(t, x, "name")[1])]
            if var == "Array":
                st, sv = self.field(t, x, "elements")
                ot = self.T[st]["args"][0]
                el = ("l", ("elem", sv), (("v", 1), ("f", 0)))
                p = self.field(self.T[ot]["args"][0], el, "pattern")[1]
                return [("seq", sv, [(l, [("names", p)] if c[()] else []) for l, c in self.combos(sv, [((), [0, 1])])])] + self.rest(t, x)
            if var == "Object":
                st, sv = self.field(t, x, "props")
                pt = self.T[st]["args"][0]
                pv = self.variants(pt)
                el = ("l", ("elem", sv), ())
                alts = []
                for l, c in self.combos(sv, [((), [d for _, d in pv.values()])]):
                    pn = next(n for n, y in pv.items() if y[1] == c[()])
                    j = pv[pn][0]
                    it, iv = self.T[pt]["variants"][j]["f"][0][1], ("l", el[1], (("v", j), ("f", 0)))
                    if pn == "Single":
                        idt, idv = self.field(it, iv, "ident")
                        alts.append((l, [("name", self.field(idt, idv, "name")[1])]))
                    elif pn == "Named":
                        bt, bv = self.field(it, iv, "binding")
                        alts.append((l, [("names", self.field(bt, bv, "pattern")[1])]))
                    else:
                        raise Undecided("property %s of an object binding" % pn)
                return [("seq", sv, alts)] + self.rest(t, x)
            raise Undecided("binding pattern " + var)
        raise Undecided("names of " + name)


def notau(n):
    for a in list(n.edges):
        for l, b in list(n.edges[a]):
            if l == ("tau",):
                n.edges[a].discard((l, b))
                n.eps[a].add(b)
    return n


def outside(A, B):
    """a word of A that B does not have: (word, label, loc)"""
    start = (A.closure([A.start]), B.closure([B.start]))
    seen = {start: ()}
    work = [start]
    for x, y in work:
        w = seen[x, y]
        if x & A.final and not y & B.final:
            return w, ("END",), None
        for s in sorted(x):
            for l, t in sorted(A.edges.get(s, ()), key=repr):
                to = {m for q in y for l2, m in B.edges.get(q, ()) if l2 == l}
                if not to:
                    return w, l, A.locs.get((s, l))
                n = (A.closure([t]), B.closure(to))
                if n not in seen:
                    seen[n] = w + (l,)
                    work.append(n)
    return None

# ------------------------------------------------------------------------------------------------ the first duplicate of a sorted list
LIST = ("l", "list", ())


def shift(v):
    """the name of every element when one more is taken"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "tk" and isinstance(v[1], int):
            return ("tk", v[1] - 1)
        return tuple(shift(x) for x in v)
    return v


class DupDomain(PathDomain):
    """Elements are named by their distance from the one taken last: ("tk", 0); ("tk", 1) is the next one.
    mem[("G", "more")]: whether there is a next one, once that is known."""

    def find_primitive(self, g):
        n = g.name
        if n in ("deref", "as_slice", "as_ref") and ("Vec" in g.path):
            return DupDomain.m_ident
        if n in ("iter", "into_iter") and g.nargs == 1:
            return DupDomain.m_it
        if g.path == "std::iter::Iterator::peekable":
            return lambda self, st, g, args, site, ctx: args[0]
        if n == "next" and g.trait == "std::iter::Iterator":
            return DupDomain.m_take
        if n == "peek":
            return DupDomain.m_peek
        if g.path == "core::slice::<impl [T]>::windows":
            return lambda self, st, g, args, site, ctx: ("it", "win", LIST, args[1])
        if n in ("eq", "ne") and g.nargs == 2:
            return DupDomain.m_eq
        return super().find_primitive(g)

    def m_it(self, st, g, args, site, ctx):
        v = self.strip(self.deref(st, args[0])) if args[0][0] == "r" else args[0]
        return v if v[0] == "it" else ("it", "one", v, K(0))

    def more(self, st):
        return st.mem.get(("G", "more"))

    def learn(self, st, site, ctx):
        """whether there is one more element: two states at the same place"""
        for x in (0, 1):
            s2 = st.copy()
            s2.mem[("G", "more")] = K(x)
            ctx["on_event"](s2, ("more", x), site)

    def ref(self, k):
        return ("r", ("V", ("tk", k)), ())

    def m_peek(self, st, g, args, site, ctx):
        m = self.more(st)
        if m is None:
            self.learn(st, site, ctx)
            return None
        return self.opt(g, self.ref(1) if m[1] else None, True)

    def opt(self, g, x, ref=False):
        t = g.locals[0]
        return ("a", t, 0, (), None) if x is None else ("a", t, 1, (("r", ("V", x), ()) if ref else x,), None)

    def m_take(self, st, g, args, site, ctx):
        it = self.deref(st, args[0])
        if it[0] != "it" or it[2] != LIST:
            raise Undecided("next of %r" % (it,))
        m = self.more(st)
        if m is None:
            self.learn(st, site, ctx)
            return None
        win = it[1] == "win"
        if win and self.canonk(it[3]) != 2:
            raise Undecided("windows")
        if win and ("G", "first") not in st.mem:
            if m[1]:
                self.take(st)
                st.mem[("G", "first")] = K(1)
                self.learn(st, site, ctx)
                return None
            return self.opt(g, None)
        if not m[1]:
            return self.opt(g, None)
        self.take(st)
        return self.opt(g, ("r", ("V", ("vec", None, (("tk", -1), ("tk", 0)))), ()) if win else self.ref(0))

    def canonk(self, v):
        return v[1] if v[0] == "k" else None

    def take(self, st):
        for k in list(st.mem):
            st.mem[k] = shift(st.mem[k])
        del st.mem[("G", "more")]

    def m_eq(self, st, g, args, site, ctx):
        a, b = (self.deref(st, x) for x in args)
        while a[0] == "r":
            a = self.deref(st, a)
        while b[0] == "r":
            b = self.deref(st, b)
        if a[0] != "tk" or b[0] != "tk":
            raise Undecided("comparison of %r" % (a,))
        lo, hi = sorted((a[1], b[1]))
        neg = g.name == "ne"
        self.emit_all(st, [(("eq", lo, hi, x), K(x ^ neg)) for x in (0, 1)], site, ctx)
        return None

    def term_label(self, st, v):
        if v[0] == "a" and v[2] == 0:
            return ("ret", None)
        if v[0] == "a":
            x = v[3][0]
            while x[0] == "r":
                x = self.deref(st, x)
            if x[0] == "tk":
                return ("ret", "some")
        raise Undecided("result %r" % (v,))


def duplicates(dump, R):
    fs = [f for f in dump.fns if f.name == "get_first_duplicate" and f.crate == "fajt_parser" and f.blocks is not None and f.nargs == 1]
    if len(fs) != 1:
        R["undecided"]["get_first_duplicate"] = "%d functions of this name" % len(fs)
        return
    f = fs[0]
    dom = DupDomain(dump)
    try:
        a = dom.analyse(f, [("r", ("V", LIST), ())], {}, {})
    except (Undecided, Budget, NeedElem, NeedCube) as e:
        R["undecided"]["get_first_duplicate"] = "%s: %s" % (type(e).__name__, str(e)[:200])
        return
    R["functions"].append(f.path)
    R["states"] += a.n
    R["cubes"] += 1
    # (last taken known to differ from the one before / not compared yet / equal found / no more elements)
    # state of the specification: (elements seen: 0, 1, 2+; newest pair compared; found; ended)
    start = (frozenset([(0, True, False, False)]), a.start)
    seen = {start}
    work = [start]
    where = (f.path, f.loc)

    def bad(key, what, loc):
        R["violations"].append(dict(key="duplicates:" + key, what="get_first_duplicate: " + what, loc=loc or where))
    for S, x in work:
        for l, y in sorted(a.edges.get(x, ()), key=repr):
            loc = a.locs.get((x, l))
            new = set()
            for n, cmp_, found, end in S:
                if l[0] == "more":
                    if l[1]:
                        if n >= 1 and not cmp_ and not found:
                            bad("skipped", "takes another element before the two last ones were compared", loc)
                        new.add((min(n + 1, 2), n == 0, found, False))
                    else:
                        new.add((n, cmp_, found, True))
                elif l[0] == "eq":
                    if l[2] - l[1] != 1:
                        bad("compare", "compares elements that are no neighbours", loc)
                        new.add((n, cmp_, found, end))
                    else:
                        new.add((n, True, found or bool(l[3]), end))
                elif l[0] == "ret":
                    if found and l[1] is None:
                        bad("missed", "returns nothing although two neighbours are equal", loc)
                    if not found and l[1] is not None:
                        bad("wrong", "returns an element although no neighbours were found equal", loc)
                    if not found and l[1] is None and (not end or not cmp_):
                        bad("early", "returns nothing before all neighbours were compared", loc)
                elif l[0] == "panic":
                    bad("panic", "may panic", loc)
            if new:
                k = (frozenset(new), y)
                if k not in seen:
                    seen.add(k)
                    work.append(k)


def run(dump):
    from traverse_check import path_str, show_cube
    R = dict(violations=[], undecided={}, cubes=0, states=0, functions=[])
    for name, tyname in SELFS.items():
        fs = [f for f in dump.fns if f.name == name and f.crate == "fajt_parser" and f.blocks is not None and not f.closure and f.kind == "item"]
        fs = [f for f in fs if f.nargs == 1]
        if len(fs) != 1:
            R["undecided"][name] = "%d functions of this name" % len(fs)
            continue
        f = fs[0]
        ty = dump.adt("fajt_ast::" + tyname)
        dom = NamesDomain(dump, f.id)

        def one(cube, demands):
            a = notau(dom.analyse(f, [("r", ("V", ("l", "self", ())), ())], cube, demands))
            return a, Spec(dump, dom, ty, cube, demands).n
        try:
            res = cubes(one)
        except (Undecided, Budget, NeedElem) as e:
            R["undecided"][name] = "%s: %s" % (type(e).__name__, str(e)[:200])
            continue
        R["functions"].append(f.path)

        def text(l):
            if l[0] in ("name", "names"):
                return "%s %s" % ("the name" if l[0] == "name" else "the names of", path_str(dump, ty, l[1]))
            return {"next": "another element", "end": "no more element", "END": "the end", "E": "the end", "panic": "a panic"}.get(l[0], str(l[0]))
        for cube, (a, b) in res:
            R["cubes"] += 1
            R["states"] += a.n
            d = outside(a, b)
            if d:
                word, label, loc = d
                what = "%s %s: %s where it should not be%s" % (name, show_cube(dump, ty, cube), text(label), ", after " + ", ".join(text(w) for w in word) if word else "")
                R["violations"].append(dict(key="names:%s:%s" % (name, text(label)), what=what, loc=loc or (f.path, f.loc)))
    duplicates(dump, R)
    return R


if __name__ == "__main__":
    import sys
    from dump import Dump
    r = run(Dump(*sys.argv[1:2]))
    for v in r["violations"]:
        print(v["key"], "|", v["what"], v["loc"])
    print({k: v for k, v in r.items() if k != "violations"})
