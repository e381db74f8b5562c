"""Abstract interpretation with access paths.

The arguments of the analysed function are opaque structures named by their access path ("self.body", "self.left", one
symbolic element per loop over a sequence).  What the function does with them - calls of cut functions, text that it
writes - are events; the result is a nondeterministic automaton over events for every combination (cube) of the
discriminants of its arguments that the function inspects.
"""
from collections import defaultdict
from absint import Interp, St, K, TRUE, FALSE, UNIT, TOP, Undecided, Budget
import dump as dm


class NeedCube(Exception):
    def __init__(self, key, options):
        self.key, self.options = key, options


class NeedElem(Exception):
    def __init__(self, seq, path, options):
        self.seq, self.path, self.options = seq, path, options


class NFA:
    def __init__(self, name):
        self.name = name
        self.start = None
        self.edges = defaultdict(set)     # node -> {(label, node)}
        self.eps = defaultdict(set)
        self.final = set()
        self.locs = {}
        self.n = 0

    def new(self):
        self.n += 1
        return self.n - 1

    def add(self, a, label, b, loc=None):
        self.edges[a].add((label, b))
        if loc is not None:
            self.locs.setdefault((a, label), loc)

    def size(self):
        return self.n, sum(len(x) for x in self.edges.values())

    def closure(self, s):
        out = set(s)
        w = list(s)
        while w:
            for y in self.eps.get(w.pop(), ()):
                if y not in out:
                    out.add(y)
                    w.append(y)
        return frozenset(out)

    def live(self):
        """nodes from which a final node can be reached"""
        rev = defaultdict(set)
        for a, es in self.edges.items():
            for l, b in es:
                rev[b].add(a)
        for a, es in self.eps.items():
            for b in es:
                rev[b].add(a)
        good = set(self.final)
        w = list(good)
        while w:
            for m in rev[w.pop()]:
                if m not in good:
                    good.add(m)
                    w.append(m)
        return good


def nfa_diff(A, B):
    """None when the languages agree, else (word, label, 'missing'|'extra', loc): `extra` = A does something B does not."""
    ga, gb = A.live(), B.live()
    sa = frozenset(x for x in A.closure([A.start]) if x in ga)
    sb = frozenset(x for x in B.closure([B.start]) if x in gb)
    seen = {(sa, sb): None}
    work = [(sa, sb)]
    for k in work:
        x, y = k

        def word():
            w, kk = [], k
            while seen[kk] is not None:
                kk, l = seen[kk]
                w.append(l)
            return w[::-1]
        fa = any(s in A.final for s in x)
        fb = any(s in B.final for s in y)
        if fa != fb:
            return word(), "END", "extra" if fa else "missing", None
        la, lb = defaultdict(set), defaultdict(set)
        for s in x:
            for l, t in A.edges.get(s, ()):
                if t in ga:
                    la[l].add(t)
        for s in y:
            for l, t in B.edges.get(s, ()):
                if t in gb:
                    lb[l].add(t)
        for l in sorted(set(la) | set(lb), key=repr):
            if l not in lb:
                return word(), l, "extra", next((A.locs.get((s, l)) for s in x if (s, l) in A.locs), None)
            if l not in la:
                loc = next((A.locs[(s, l2)] for s in x for l2, t in A.edges.get(s, ()) if (s, l2) in A.locs), None)
                return word(), l, "missing", loc
            n = (A.closure(la[l]) & ga, B.closure(lb[l]) & gb)
            n = (frozenset(n[0]), frozenset(n[1]))
            if n not in seen:
                seen[n] = (k, l)
                work.append(n)
    return None


SYN_FOLD = {
    "locals": 6,
    "blocks": [
        {"s": [["=", [5], ["ref", True, [1]]]], "t": ["call", {"syn": "next"}, [["m", [5]]], [4], 1], "l": "?"},
        {"s": [], "t": ["switch", ["c", [4, ["f", 0, 0]]], [["0", 3]], 2], "l": "?"},
        {"s": [["=", [5], ["use", ["m", [4, ["f", 1, 0]]]]]], "t": ["call", {"op": ["c", [3]]}, [["m", [2]], ["m", [5]]], [2], 0], "l": "?"},
        {"s": [["=", [0], ["use", ["m", [2]]]]], "t": ["ret"], "l": "?"},
    ],
}


class PathDomain(Interp):
    MAXNODES = 20000
    ROOTS = ("self",)

    def __init__(self, dump):
        super().__init__(dump)
        self.syn_fold = self.synthetic("fold", SYN_FOLD, 3)
        self.stats = defaultdict(int)

    def synthetic(self, name, spec, nargs):
        for f in self.d.fns:
            if f.path == "synthetic::" + name:
                return f
        f = dm.Fn({"path": "synthetic::" + name, "full": "synthetic::" + name, "crate": "synthetic", "kind": "item", "nargs": nargs,
                   "locals": [0] * spec["locals"], "blocks": spec["blocks"], "closure": False, "loc": "?", "targs": []})
        f.id = len(self.d.fns)
        self.d.fns.append(f)
        return f

    # ---------------------------------------------------------------- analysis of one function
    def analyse(self, f, args, cube, demands, spec_start=None):
        """NFA of the events of f under the given cube."""
        self.cube, self.demands = cube, demands
        nfa = NFA(f.full)
        keys = {}
        work = []
        st0 = St(((f.id, 0, None, None, 0),), {(0, i + 1): a for i, a in enumerate(args)}, {}, (), 1, None)
        self.init_state(st0)

        def node(st):
            self.gc(st)
            self.gc_con(st)
            k = self.key(st)
            n = keys.get(k)
            if n is None:
                n = keys[k] = nfa.new()
                work.append((n, st))
                if nfa.n > self.MAXNODES:
                    raise Budget("%s: too many states" % f.path)
            return n

        nfa.start = node(st0)
        while work:
            n, st = work.pop()
            st = st.copy()
            pend = st.acts
            if pend:
                # the state is at a call whose event has not been emitted yet
                st.acts = ()

            def on_event(s2, label, site):
                m = node(s2)
                nfa.add(n, label, m, self.site_loc(site))

            def on_term(s2, kind, v, site):
                if kind == "ret":
                    lbl = self.term_label(s2, v)
                    if lbl is None:
                        nfa.final.add(n)
                    else:
                        fin = keys.get("FIN")
                        if fin is None:
                            fin = keys["FIN"] = nfa.new()
                            nfa.final.add(fin)
                        nfa.add(n, lbl, fin, self.site_loc(site))
                else:
                    fin = keys.get("FIN")
                    if fin is None:
                        fin = keys["FIN"] = nfa.new()
                        nfa.final.add(fin)
                    nfa.add(n, ("panic", str(v)), fin, self.site_loc(site))
            self.run_segment(st, on_event, on_term)
        self.stats["functions"] += 1
        self.stats["states"] += nfa.n
        return nfa

    def init_state(self, st):
        pass

    def term_label(self, st, v):
        return None

    def gc_con(self, st):
        if not st.con:
            return
        al = set()
        for v in st.mem.values():
            names_of(v, al)
        st.con = {k: v for k, v in st.con.items() if k[1] in al or k[1][0] != "elem"}

    def emit(self, st, label, value, site, ctx):
        """Ends the segment with an event; `value` goes to the destination of the call."""
        self.assign(st, ctx["d"], ctx["f"], ctx["dest"], value)
        self.goto(st, ctx["ret"])
        ctx["on_event"](st, label, site)

    def emit_all(self, st, alts, site, ctx):
        for label, value in alts:
            self.emit(st.copy(), label, value, site, ctx)
        return None

    # ---------------------------------------------------------------- tests on paths
    def norm_path(self, v):
        return v

    def split_discr(self, st, x, t, keyf, allg):
        if x[0] == "l":
            ds = [v["d"] for v in self.T[t]["variants"]]
            return self.path_split(st, x, ds, keyf)
        return super().split_discr(st, x, t, keyf, allg)

    def split_scalar(self, st, v, keyf, allg, values=(0, 1)):
        return self.path_split(st, v, list(values), keyf)

    def path_split(self, st, x, options, keyf):
        name = x[1]
        if isinstance(name, tuple) and name[0] == "elem":
            r = st.con.get(x)
            if r is None:
                if len(options) == 1:
                    return [(keyf(options[0]), st)]
                raise NeedElem(name[1], x[2], options)
            return [(keyf(r), st)]
        r = self.cube.get(x)
        if r is None:
            if len(options) == 1:
                return [(keyf(options[0]), st)]
            raise NeedCube(x, options)
        return [(keyf(r), st)]

    # ---------------------------------------------------------------- sequences
    def strip(self, v):
        """The structure a reference or box leads to."""
        while v[0] == "b":
            v = v[1]
        return v

    def seq_next(self, st, it, site, ctx, wrap):
        """Event `next` of a sequence; returns None (events are emitted)."""
        seq = it[2]
        alts = []
        alts.append((("end", seq), wrap(None), {}))
        el = ("l", ("elem", seq), ())
        combos = [{}]
        for path, options in self.demands.get(seq, []):
            nxt = []
            for c in combos:
                if self.consistent(c, seq, path):
                    nxt += [{**c, ("l", ("elem", seq), path): o} for o in options]
                else:
                    nxt.append(c)
            combos = nxt
        for c in combos:
            lbl = ("next", seq) + tuple(sorted(((k[2], v) for k, v in c.items()), key=repr))
            alts.append((lbl, wrap(("r", ("V", el), ())), c))
        for lbl, v, c in alts:
            s2 = st.copy()
            s2.con = {k: x for k, x in s2.con.items() if k[1] != ("elem", seq)}
            s2.con.update(c)
            self.emit(s2, lbl, v, site, ctx)
        return None

    def consistent(self, c, seq, path):
        """a demanded path below a variant exists only if that variant was chosen"""
        for i, e in enumerate(path):
            if e[0] == "v":
                k = ("l", ("elem", seq), path[:i])
                if k in c and self.variant_of_discr(c[k]) != e[1]:
                    return False
        return True

    def variant_of_discr(self, d):
        return d

    # ---------------------------------------------------------------- models of the standard library
    def find_primitive(self, g):
        p = g.path
        M = self.models()
        if p in M:
            return M[p]
        return None

    MODELS = None

    def models(self):
        if self.MODELS is None:
            cls = type(self)
            m = {}
            for nm in ("core::slice::<impl [T]>::iter_mut", "core::slice::<impl [T]>::iter",
                       "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
                       "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
                       "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
                       "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter"):
                m[nm] = cls.m_iter
            for nm in ("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
                       "std::vec::Vec::<T, A>::as_slice", "<std::string::String as std::ops::Deref>::deref", "std::string::String::as_str"):
                m[nm] = cls.m_ident
            for nm in ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::next", "<std::slice::Iter<'a, T> as std::iter::Iterator>::next"):
                m[nm] = cls.m_next
            for nm in ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::fold", "<std::slice::Iter<'a, T> as std::iter::Iterator>::fold"):
                m[nm] = cls.m_fold
            m["<std::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut"] = cls.m_unbox
            m["<std::boxed::Box<T, A> as std::ops::Deref>::deref"] = cls.m_unbox
            m["<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut"] = cls.m_unbox
            m["<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref"] = cls.m_unbox
            m["std::vec::Vec::<T, A>::is_empty"] = cls.m_is_empty
            m["core::slice::<impl [T]>::is_empty"] = cls.m_is_empty
            self.MODELS = m
        return self.MODELS

    def m_ident(self, st, g, args, site, ctx):
        return args[0]

    def m_unbox(self, st, g, args, site, ctx):
        v = self.deref(st, args[0])
        if args[0][0] == "r" and args[0][1][0] != "V":
            lv = self.resolve(st, args[0])
            if lv[0] == "M":
                return ("r", lv[1], lv[2] + ("b",))
        return ("r", ("V", self.strip(v)), ())

    def resolve(self, st, r):
        """location a chain of references leads to"""
        n = 0
        lv = ("M", r[1], r[2]) if r[1][0] != "V" else ("V", self.projpath(r[1][1], r[2]))
        while n < 8:
            v = self.loadlv(st, lv)
            if v[0] != "r":
                return lv
            lv = ("M", v[1], v[2]) if v[1][0] != "V" else ("V", self.projpath(v[1][1], v[2]))
            n += 1
        return lv

    def m_iter(self, st, g, args, site, ctx):
        v = self.strip(self.deref(st, args[0]))
        if v[0] == "l":
            return ("it", "seq", v, K(0))
        raise Undecided("iteration over %r" % (v,))

    def m_next(self, st, g, args, site, ctx):
        it = self.deref(st, args[0])
        if it[0] != "it":
            raise Undecided("next of %r" % (it,))
        opt = self.d.fns[g.id].locals
        oty = self.option_ty(g)

        def wrap(x):
            if x is None:
                return ("a", oty, 0, (), None)
            return ("a", oty, 1, (x,), None)
        return self.seq_next(st, it, site, ctx, wrap)

    def option_ty(self, g):
        return g.locals[0]

    def syn_next(self, st, args, site, ctx):
        it = self.deref(st, args[0])
        if it[0] != "it":
            raise Undecided("next of %r" % (it,))
        return self.seq_next(st, it, site, ctx, lambda x: ("t", (K(0), UNIT)) if x is None else ("t", (K(1), x)))

    def m_fold(self, st, g, args, site, ctx):
        nd = len(st.fr)
        for i, a in enumerate(args):
            st.mem[(nd, i + 1)] = a
        st.fr = st.fr + ((self.syn_fold.id, 0, totuple(ctx["dest"]), ctx["ret"], site),)
        return "ENTER"

    def m_is_empty(self, st, g, args, site, ctx):
        v = self.strip(self.deref(st, args[0]))
        if v[0] == "l":
            return ("op", "empty", v)
        return TOP

    def split_op(self, st, v, keyf, allg):
        if v[1] == "empty":
            x = v[2]
            return self.path_split(st, ("l", x[1], x[2] + ("#empty",)), [0, 1], keyf)
        return None

    def do_call(self, st, d, f, bb, t, on_event, on_term):
        if "syn" in t[1]:
            args = [self.operand(st, d, f, o) for o in t[2]]
            site = self.chain(st.fr[-1][4], f.id, bb)
            ctx = dict(d=d, f=f, dest=t[3], ret=t[4], on_event=on_event, on_term=on_term)
            getattr(self, "syn_" + t[1]["syn"])(st, args, site, ctx)
            return []
        return super().do_call(st, d, f, bb, t, on_event, on_term)


def totuple(x):
    return tuple(totuple(y) for y in x) if isinstance(x, (list, tuple)) else x


def names_of(v, out):
    from absint import names
    names(v, out)


def cubes(run):
    """Splits on demand: run(cube, demands) is repeated until no test is left open.
    Returns [(cube, result)]."""
    demands = {}
    while True:
        try:
            out = []
            work = [{}]
            while work:
                c = work.pop()
                try:
                    out.append((c, run(c, demands)))
                except NeedCube as e:
                    for o in e.options:
                        c2 = dict(c)
                        c2[e.key] = o
                        work.append(c2)
            return out
        except NeedElem as e:
            l = demands.setdefault(e.seq, [])
            if (e.path, e.options) in l:
                raise Undecided("demand loop on %r" % (e.seq,))
            l.append((e.path, e.options))
            l.sort(key=lambda x: (len(x[0]), repr(x)))
