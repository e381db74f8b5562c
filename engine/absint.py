"""Abstract interpretation of the dumped MIR.

The interpreter walks the control flow graph of one function (everything it calls is analysed in its calling
context, except for the *cut* functions and the modelled leaves) over a finite abstract domain and yields a
transition system: nodes are abstract states at event boundaries (a token is consumed, a cut function is called, ...),
edges are events.  Nothing is executed; values that depend on the input are symbolic names of the event that
produced them, tests on them refine the set of classes the name can belong to.
"""
import sys
from collections import defaultdict

sys.setrecursionlimit(20000)
TOP = ("?",)
UNIT = ("t", ())


class Undecided(Exception):
    """The analyser met a construct it has no sound transfer function for."""


import time


class Budget(Exception):
    pass


def K(n):
    return ("k", n)


TRUE, FALSE = ("k", 1), ("k", 0)


class St:
    __slots__ = ("fr", "mem", "con", "acts", "R", "last", "anc")

    def __init__(self, fr, mem, con, acts, R, last, anc=None):
        self.fr, self.mem, self.con, self.acts, self.R, self.last, self.anc = fr, mem, con, acts, R, last, anc

    def copy(self):
        return St(self.fr, dict(self.mem), self.con, self.acts, self.R, self.last, self.anc)


class Edge:
    __slots__ = ("src", "dst", "ev", "site", "acts", "con")

    def __init__(self, src, dst, ev, site, acts, con):
        self.src, self.dst, self.ev, self.site, self.acts, self.con = src, dst, ev, site, acts, con


class TS:
    """Transition system."""

    def __init__(self, name):
        self.name = name
        self.nodes = {}
        self.node_list = []
        self.edges = []
        self.terms = []  # (node, kind, value, acts, con, R, site)
        self.sites = {}
        self.stats = defaultdict(int)
        self.problems = []

    def node(self, key):
        n = self.nodes.get(key)
        if n is None:
            n = len(self.node_list)
            self.nodes[key] = n
            self.node_list.append(key)
            return n, True
        return n, False


def mapval(v, f):
    """Bottom-up rename of the symbolic leaves of a value."""
    k = v[0]
    if k in ("k", "s", "?", "fn", "z0"):
        return v
    r = f(v)
    if r is not None:
        return r
    if k == "a":
        fs = v[3]
        nf = tuple(mapval(x, f) for x in fs)
        return v if nf == fs else ("a", v[1], v[2], nf, v[4])
    if k == "t":
        nf = tuple(mapval(x, f) for x in v[1])
        return v if nf == v[1] else ("t", nf)
    if k == "c":
        nf = tuple(mapval(x, f) for x in v[2])
        return v if nf == v[2] else ("c", v[1], nf)
    if k == "b":
        return ("b", mapval(v[1], f))
    if k == "op":
        return ("op", v[1]) + tuple(mapval(x, f) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[2:])
    if k == "r" and v[1][0] == "V":
        return ("r", ("V", mapval(v[1][1], f)), v[2])
    return v


class Interp:
    """Generic MIR interpreter; domains subclass it."""

    MAXNODES = 6000
    MAXSTEPS = 3000000

    def __init__(self, dump):
        self.d = dump
        self.T = dump.types
        self.prim_cache = {}
        self.promoted_cache = {}
        self.chains = {}
        self.chain_list = [None]
        self.lastfr = None

    # ------------------------------------------------------------ chains / sites
    def chain(self, parent, fid, bb):
        k = (parent, fid, bb)
        c = self.chains.get(k)
        if c is None:
            c = len(self.chain_list)
            self.chains[k] = c
            self.chain_list.append(k)
        return c

    def site_loc(self, c):
        """Source location of a site: innermost frame of the project."""
        locs = []
        while c:
            parent, fid, bb = self.chain_list[c]
            f = self.d.fns[fid]
            if f.crate and f.crate.startswith("fajt") and not f.path.startswith("fajt_common::io"):
                l = f.blocks[bb]["l"] if f.blocks and f.blocks[bb] else f.loc
                locs.append((f.path, l))
            c = parent
        if not locs:
            return ("?", "?")
        return locs[0]

    # ------------------------------------------------------------ types
    def pty(self, f, place):
        t = f.locals[place[0]]
        for e in place[1:]:
            t = self.proj_ty(t, e)
        return t

    def proj_ty(self, t, e):
        k = e[0]
        if k == "f":
            return e[2]
        ty = self.T[t]
        if k == "d":
            if "to" in ty:
                return ty["to"]
            if ty.get("box"):
                return ty["args"][0]
            raise Undecided("deref of " + ty["s"])
        if k in ("i", "ci"):
            return ty["to"]
        return t

    # ------------------------------------------------------------ places and values
    def lval(self, st, d, f, place):
        """-> ('M', root, path) | ('V', value)"""
        lv = ("M", (d, place[0]), ())
        t = f.locals[place[0]]
        for e in place[1:]:
            k = e[0]
            if k == "d":
                v = self.loadlv(st, lv)
                if v[0] == "r":
                    if v[1][0] == "V":
                        lv = ("V", self.projpath(v[1][1], v[2]))
                    else:
                        lv = ("M", v[1], v[2])
                elif self.T[t].get("box"):
                    lv = self.sub(lv, "b")
                elif v[0] in ("l", "tk", "?", "z", "tke", "op"):
                    lv = ("V", v)
                elif v[0] == "s":
                    lv = ("V", v)
                else:
                    # a value used through a reference we do not track: the value itself
                    lv = ("V", v)
            elif k == "f":
                if self.T[t].get("box") or (lv[0] == "M" and lv[2] and lv[2][-1] == "bp"):
                    if not (lv[0] == "M" and lv[2] and lv[2][-1] == "bp"):
                        lv = self.sub(lv, "bp")
                else:
                    lv = self.sub(lv, ("f", e[1]))
            elif k == "v":
                lv = self.sub(lv, ("v", e[1]))
            elif k == "i":
                iv = st.mem.get((d, e[1]), TOP)
                lv = self.sub(lv, ("i", iv))
            elif k == "ci":
                lv = self.sub(lv, ("i", ("ci", e[1], e[3])))
            elif k == "ss":
                lv = self.sub(lv, ("ss", e[1], e[2], e[3]))
            else:
                lv = ("V", TOP)
            t = self.proj_ty(t, e)
        return lv

    def sub(self, lv, e):
        if lv[0] == "M":
            return ("M", lv[1], lv[2] + (e,))
        return ("V", self.proj(lv[1], e))

    def root(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if root[0] == "P":
            return self.promoted_cache.get(root, TOP)
        return self.special_root(st, root)

    def special_root(self, st, root):
        return TOP

    def loadlv(self, st, lv):
        if lv[0] == "V":
            return lv[1]
        root, path = lv[1], lv[2]
        if path and path[-1] == "bp":
            return ("r", root, path[:-1] + ("b",))
        v = self.root(st, root)
        return self.projpath(v, path)

    def projpath(self, v, path):
        for e in path:
            v = self.proj(v, e)
        return v

    def proj(self, v, e):
        k = v[0]
        if e == "b":
            if k == "b":
                return v[1]
            if k in ("l", "tk", "z", "?"):
                return v
            return v
        t = e[0]
        if t == "v":
            if k == "l":
                return ("l", v[1], v[2] + (e,))
            if k in ("tk", "tkres", "tke"):
                return self.tk_proj(v, e)
            return v
        if t == "f":
            if k == "a":
                return v[3][e[1]] if e[1] < len(v[3]) else TOP
            if k == "t":
                return v[1][e[1]] if e[1] < len(v[1]) else TOP
            if k == "c":
                return v[2][e[1]] if e[1] < len(v[2]) else TOP
            if k == "l":
                return ("l", v[1], v[2] + (("f", e[1]),))
            if k in ("tk", "tkres", "tke"):
                return self.tk_proj(v, e)
            if k == "b":
                return self.proj(v[1], e)
            if k == "z":
                return ("l", ("zf", v[1]), (e,))
            return self.proj_other(v, e)
        if t == "i":
            if k == "t":
                i = e[1]
                if i[0] == "k" and i[1] < len(v[1]):
                    return v[1][i[1]]
                if i[0] == "ci" and not i[2] and i[1] < len(v[1]):
                    return v[1][i[1]]
            return self.proj_other(v, e)
        return TOP

    def proj_other(self, v, e):
        return TOP

    def tk_proj(self, v, e):
        return TOP

    def storelv(self, st, lv, val):
        if lv[0] == "V":
            return  # write through an untracked reference
        root, path = lv[1], lv[2]
        if not path:
            st.mem[root] = val
            return
        old = self.root(st, root)
        st.mem[root] = self.upd(old, path, val)

    def upd(self, old, path, val):
        if not path:
            return val
        e = path[0]
        k = old[0]
        if e == "b":
            return ("b", self.upd(old[1] if k == "b" else (old if k in ("l", "z", "tk") else TOP), path[1:], val))
        if e[0] == "v":
            if k == "a" and old[2] != e[1]:
                return ("a", old[1], e[1], self.upd(("t", ()), path[1:], val)[1], old[4])
            return self.upd(old, path[1:], val) if k != "l" else self.upd(("l", old[1], old[2] + (e,)), path[1:], val)
        if e[0] == "f":
            i = e[1]
            if k in ("a", "t", "c"):
                fs = {"a": 3, "t": 1, "c": 2}[k]
                l = list(old[fs])
                while len(l) <= i:
                    l.append(TOP)
                l[i] = self.upd(l[i], path[1:], val)
                return old[:fs] + (tuple(l),) + old[fs + 1:]
            if k == "l":
                return ("upd", old, i, self.upd(self.proj(old, e), path[1:], val)) if False else self.upd_lazy(old, i, path, val)
            l = [TOP] * (i + 1)
            l[i] = self.upd(TOP, path[1:], val)
            return ("t", tuple(l))
        if e[0] == "i" and k == "t" and e[1][0] == "k":
            l = list(old[1])
            l[e[1][1]] = self.upd(l[e[1][1]], path[1:], val)
            return ("t", tuple(l))
        return TOP

    def upd_lazy(self, old, i, path, val):
        # partially overwritten opaque struct: a tuple of projections, wide enough for every struct of the project
        l = [("l", old[1], old[2] + (("f", j),)) for j in range(16)]
        l[i] = self.upd(l[i], path[1:], val)
        return ("t", tuple(l))

    def assign(self, st, d, f, place, val):
        if len(place) == 1:
            st.mem[(d, place[0])] = val
        else:
            self.storelv(st, self.lval(st, d, f, place), val)

    def const(self, c):
        k = c["c"]
        if k == "int":
            return ("k", int(c["v"]))
        if k == "str":
            return ("s", c["v"])
        if k == "fn":
            return ("fn", c["inst"])
        if k == "zst":
            t = self.T[c["ty"]]
            if t["k"] == "closure":
                return ("c", c["ty"], ())
            if t["k"] == "fndef" and "inst" in t:
                return ("fn", t["inst"])
            if t["k"] == "adt":
                return ("a", c["ty"], 0, (), None)
            return UNIT
        if k == "adt":
            t = self.T[c["ty"]]
            fs = tuple(self.const(x) for x in c["f"])
            if t["k"] == "adt":
                return ("a", c["ty"], c["variant"], fs, None)
            return ("t", fs)
        if k == "promoted":
            return self.promoted(c["inst"])
        if k == "rtcheck":
            return FALSE
        if k == "intr":
            return ("intr", c["path"])
        if k == "opaque":
            return self.opaque_const(c)
        return TOP

    def opaque_const(self, c):
        return TOP

    def promoted(self, inst):
        r = self.promoted_cache.get(("ret", inst))
        if r is not None:
            return r
        f = self.d.fns[inst]
        st = St(((inst, 0, None, None, 0),), {}, {}, (), 1, None)
        mem = {}
        st.mem = mem
        b = 0
        while True:
            blk = f.blocks[b]
            for s in blk["s"]:
                if s[0] == "=":
                    self.assign(st, 0, f, s[1], self.rvalue(st, 0, f, s[2], None))
            t = blk["t"]
            if t[0] == "goto":
                b = t[1]
            elif t[0] == "call" and t[4] is not None and isinstance(t[1], dict) and "inst" in t[1]:
                v = self.const_call(self.d.fns[t[1]["inst"]], [self.operand(st, 0, f, o) for o in t[2]])
                self.assign(st, 0, f, t[3], v)
                b = t[4]
            else:
                break
        # rename the frame of the promoted to a global root
        def fix(v):
            if v[0] == "r" and isinstance(v[1], tuple) and len(v[1]) == 2 and v[1][0] == 0:
                return ("r", ("P", inst, v[1][1]), v[2])
            return None
        for (d, l), v in mem.items():
            self.promoted_cache[("P", inst, l)] = mapval(v, fix)
        r = mapval(mem.get((0, 0), TOP), fix)
        self.promoted_cache[("ret", inst)] = r
        return r

    def const_call(self, g, args, depth=0):
        """value of a call in a constant"""
        if g.ctor is not None:
            return self.mk_adt(None, g.ctor[0], g.ctor[1], tuple(args), None)
        if g.blocks is None or depth > 6 or len(args) != g.nargs:
            return TOP
        st = St(((g.id, 0, None, None, 0),), {(0, i + 1): a for i, a in enumerate(args)}, {}, (), 1, None)
        b = n = 0
        while n < 200:
            n += 1
            blk = g.blocks[b]
            for s in blk["s"]:
                if s[0] == "=":
                    self.assign(st, 0, g, s[1], self.rvalue(st, 0, g, s[2], None))
            t = blk["t"]
            if t[0] == "goto":
                b = t[1]
            elif t[0] == "call" and t[4] is not None and isinstance(t[1], dict) and "inst" in t[1]:
                v = self.const_call(self.d.fns[t[1]["inst"]], [self.operand(st, 0, g, o) for o in t[2]], depth + 1)
                self.assign(st, 0, g, t[3], v)
                b = t[4]
            elif t[0] == "ret":
                v = st.mem.get((0, 0), TOP)
                return v if not refs(v) else TOP
            else:
                return TOP
        return TOP

    def operand(self, st, d, f, o):
        if o[0] == "k":
            return self.const(o[1])
        p = o[1]
        if len(p) == 1:
            v = st.mem.get((d, p[0]))
            return v if v is not None else TOP
        return self.loadlv(st, self.lval(st, d, f, p))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, d, f, r, site):
        k = r[0]
        if k == "use":
            return self.operand(st, d, f, r[1])
        if k == "ref":
            lv = self.lval(st, d, f, r[2])
            if lv[0] == "V":
                return ("r", ("V", lv[1]), ())
            if lv[2] and lv[2][-1] == "bp":
                return ("r", lv[1], lv[2])
            return ("r", lv[1], lv[2])
        if k == "discr":
            v = self.loadlv(st, self.lval(st, d, f, r[1]))
            t = self.pty(f, r[1])
            return self.discr(v, t)
        if k == "agg":
            fs = tuple(self.operand(st, d, f, o) for o in r[3])
            if r[1] == "adt":
                return self.mk_adt(st, r[2], r[4], fs, site)
            if r[1] == "closure":
                return ("c", r[2], fs)
            if r[1] == "rawptr":
                return fs[0]
            return ("t", fs)
        if k == "bin":
            a, b = self.operand(st, d, f, r[2]), self.operand(st, d, f, r[3])
            if r[1] in ("BitOr", "BitAnd"):
                v = self.bool_op(f, r, a, b)
                if v is not None:
                    return v
            return self.binop(r[1], a, b)
        if k == "un":
            return self.unop(r[1], self.operand(st, d, f, r[2]))
        if k == "cast":
            v = self.operand(st, d, f, r[2])
            return self.cast(v, r[1], r[3])
        if k == "unsize":
            v = self.operand(st, d, f, r[1])
            return self.unsize(st, v, r[2], r[3], r[4])
        if k == "repeat":
            return ("t", tuple(self.operand(st, d, f, r[1]) for _ in range(min(r[2], 64))))
        return TOP

    def cast(self, v, kind, ty):
        if v[0] == "c" and "ClosureFnPointer" in kind:
            return v
        if v[0] == "a" and kind.startswith("IntToInt"):
            return v
        if v[0] == "k":
            t = self.T[ty]
            if t["k"] == "int" and not t["signed"]:
                return ("k", v[1] & ((1 << t["bits"]) - 1))
        return v

    def unsize(self, st, v, ty, src, vt):
        return v

    def mk_adt(self, st, ty, variant, fs, site):
        return ("a", ty, variant, fs, None)

    def discr(self, v, t):
        if v[0] == "a":
            return ("k", self.T[v[1]]["variants"][v[2]]["d"])
        if v[0] == "b":
            return self.discr(v[1], t)
        if v[0] == "?":
            return TOP
        if v[0] == "z" and v[2] is not None:
            return ("k", self.T[v[2][0]]["variants"][v[2][1]]["d"])
        return ("op", "discr", v, t)

    CMP = {
        "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b,
        "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b,
    }
    ARI = {
        "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b,
        "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b,
        "AddUnchecked": lambda a, b: a + b, "SubUnchecked": lambda a, b: a - b,
        "Shl": lambda a, b: a << b, "Shr": lambda a, b: a >> b,
    }

    def bool_op(self, f, r, a, b):
        """truth values: what does not depend on the unknown operand"""
        o = r[2] if r[2][0] != "k" else r[3]
        if o[0] == "k" or self.T[self.pty(f, o[1])]["k"] != "bool":
            return None
        absorb = TRUE if r[1] == "BitOr" else FALSE
        unit = FALSE if r[1] == "BitOr" else TRUE
        if absorb in (a, b):
            return absorb
        if a == unit or a == b:
            return b
        if b == unit:
            return a
        for x, y in ((a, b), (b, a)):
            if x[0] == "op" and x[1] == r[1] and y in x[2:]:
                return x
        return None

    def binop(self, op, a, b):
        if a[0] == "k" and b[0] == "k":
            if op in self.CMP:
                return ("k", int(self.CMP[op](a[1], b[1])))
            if op in self.ARI:
                return ("k", self.ARI[op](a[1], b[1]))
            if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
                r = self.ARI[op[:3]](a[1], b[1])
                return ("t", (("k", r), ("k", int(r < 0))))
        if a[0] == "?" or b[0] == "?":
            return TOP
        if op in self.CMP:
            return ("op", op, a, b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            for x, y in ((a, b), (b, a)):
                if x[0] == "k" and x[1] in (0, 1):
                    if op == "BitAnd" and x[1] == 0:
                        return FALSE
                    if op == "BitOr" and x[1] == 0:
                        return y
            return ("op", op, a, b)
        return self.arith(op, a, b)

    def arith(self, op, a, b):
        return TOP

    def unop(self, op, a):
        if op == "Not":
            if a[0] == "k":
                return ("k", 1 - a[1]) if a[1] in (0, 1) else ("k", ~a[1])
            if a[0] == "?":
                return TOP
            return ("op", "Not", a)
        if op == "PtrMetadata":
            return self.metadata(a)
        if op == "Neg" and a[0] == "k":
            return ("k", -a[1])
        return TOP

    def metadata(self, a):
        return TOP

    # ------------------------------------------------------------ splitting on symbolic scalars
    def split(self, st, v, keyf, allg):
        """[(group, state)] partition of the state by the value of a scalar."""
        k = v[0]
        if k == "k":
            return [(keyf(v[1]), st)]
        if k == "op":
            op = v[1]
            if op == "Not":
                return self.split(st, v[2], lambda x: keyf(1 - x), allg)
            if op == "discr":
                return self.split_discr(st, v[2], v[3], keyf, allg)
            if op in self.CMP or op in ("BitAnd", "BitOr", "BitXor"):
                fn = self.CMP.get(op) or self.ARI[op]
                a, b = v[2], v[3]
                if b[0] == "k":
                    return self.split(st, a, lambda x: keyf(int(fn(x, b[1]))), allg)
                if a[0] == "k":
                    return self.split(st, b, lambda x: keyf(int(fn(a[1], x))), allg)
                if a == b and op in self.CMP:
                    return [(keyf(int(fn(0, 0))), st)]
                special = self.split_cmp(st, op, a, b, keyf, allg)
                if special is not None:
                    return special
                out = []
                for av, s2 in self.split(st, a, lambda x: x, None):
                    for g, s3 in self.split(s2, b, lambda x: keyf(int(fn(av, x))), allg):
                        out.append((g, s3))
                return out
            r = self.split_op(st, v, keyf, allg)
            if r is not None:
                return r
        if k == "l":
            return self.split_scalar(st, v, keyf, allg)
        r = self.split_value(st, v, keyf, allg)
        if r is not None:
            return r
        return self.havoc(st, v, allg)

    def split_cmp(self, st, op, a, b, keyf, allg):
        return None

    def split_op(self, st, v, keyf, allg):
        return None

    def split_value(self, st, v, keyf, allg):
        return None

    def havoc(self, st, v, allg):
        if allg is None:
            raise Undecided("test on an unknown value %r" % (v,))
        out = []
        for g in allg:
            s2 = st.copy()
            s2.acts = st.acts + (("havoc", v),)
            out.append((g, s2))
        return out

    def split_discr(self, st, x, t, keyf, allg):
        if x[0] in ("tk", "tkres", "tke"):
            return self.tk_split(st, x, t, keyf, allg)
        if x[0] == "l":
            vs = self.T[t].get("variants")
            if vs is None:
                return self.havoc(st, x, allg)
            allowed = st.con.get(x)
            groups = {}
            for v in vs:
                if allowed is None or v["d"] in allowed:
                    groups.setdefault(keyf(v["d"]), set()).add(v["d"])
            out = []
            if len(groups) == 1:
                return [(next(iter(groups)), st)]
            for g, s in groups.items():
                s2 = st.copy()
                s2.con = dict(st.con)
                s2.con[x] = frozenset(s)
                out.append((g, s2))
            return out
        return self.havoc(st, x, allg)

    def split_scalar(self, st, v, keyf, allg, values=(0, 1)):
        allowed = st.con.get(v) or frozenset(values)
        groups = {}
        for x in allowed:
            groups.setdefault(keyf(x), set()).add(x)
        if len(groups) == 1:
            return [(next(iter(groups)), st)]
        out = []
        for g, s in groups.items():
            s2 = st.copy()
            s2.con = dict(st.con)
            s2.con[v] = frozenset(s)
            out.append((g, s2))
        return out

    def tk_split(self, st, x, t, keyf, allg):
        return self.havoc(st, x, allg)

    # ------------------------------------------------------------ garbage collection and keys
    def gc(self, st):
        """Drop what no live value can reach."""
        mem = st.mem
        keep = set()
        work = []
        n = len(st.fr)
        for d, fr in enumerate(st.fr):
            f = self.d.fns[fr[0]]
            self.d.prepare(f)
            if d == n - 1:
                lv = f.live[fr[1]]
            else:
                up = st.fr[d + 1]
                rb = up[3]
                lv = set(f.live[rb]) if rb is not None else set()
                if up[2] is not None:
                    if len(up[2]) == 1:
                        lv.discard(up[2][0])
                    else:
                        lv.add(up[2][0])
            for l in lv:
                work.append((d, l))
        for root in mem:
            if not isinstance(root[0], int):
                work.append(root)
        while work:
            r = work.pop()
            if r in keep:
                continue
            v = mem.get(r)
            if v is None:
                continue
            keep.add(r)
            for x in refs(v):
                if x not in keep:
                    work.append(x)
        if len(keep) != len(mem):
            st.mem = {r: v for r, v in mem.items() if r in keep}

    def names_alive(self, st):
        out = set()
        for v in st.mem.values():
            names(v, out)
        for a in st.acts:
            for x in a[1:]:
                if isinstance(x, tuple):
                    names(x, out)
        return out

    def key(self, st):
        return (st.fr, frozenset(st.mem.items()), frozenset(st.con.items()), st.acts, st.last)

    # ------------------------------------------------------------ running a segment
    deadline = None

    def run_segment(self, st0, on_event, on_term):
        """Explores from st0 until events.  States that meet at a join point are merged (relation R is joined)."""
        joins = {}
        work = [st0]
        steps = 0
        while work:
            st = work.pop()
            while st is not None:
                steps += 1
                if steps > self.MAXSTEPS or not steps & 1023 and self.deadline and time.time() > self.deadline:
                    raise Budget("segment too long")
                fr = st.fr[-1]
                f = self.d.fns[fr[0]]
                bb = fr[1]
                self.lastfr = st.fr
                self.d.prepare(f)
                if f.npred[bb] > 1:
                    self.gc(st)
                    k = self.key(st)
                    old = joins.get(k)
                    if old is not None:
                        a = st.anc
                        while a is not None and a[1] != k:
                            a = a[0]
                        if a is not None:
                            # back at a state of its own path
                            if a[2] == st.R:
                                self.on_cycle(st)
                                break
                        else:
                            new = old | st.R
                            if new == old:
                                break
                            joins[k] = new
                            st.R = new
                    else:
                        joins[k] = st.R
                    st.anc = (st.anc, k, st.R)
                nxt = self.step_block(st, f, bb, on_event, on_term)
                if not nxt:
                    break
                st = nxt[0]
                work.extend(nxt[1:])
        self.nsteps = getattr(self, "nsteps", 0) + steps

    def on_cycle(self, st):
        """A state that repeats itself without an event."""

    def step_block(self, st, f, bb, on_event, on_term):
        d = len(st.fr) - 1
        blk = f.blocks[bb]
        chain = st.fr[-1][4]
        for i, s in enumerate(blk["s"]):
            if s[0] == "=":
                site = (chain, f.id, bb, i)
                self.assign(st, d, f, s[1], self.rvalue(st, d, f, s[2], site))
            elif s[0] == "dead":
                st.mem.pop((d, s[1]), None)
            elif s[0] == "setd":
                lv = self.lval(st, d, f, s[1])
                v = self.loadlv(st, lv)
                t = self.pty(f, s[1])
                fs = v[3] if v[0] == "a" else (v[1] if v[0] == "t" else ())
                self.storelv(st, lv, ("a", t, s[2], fs, None))
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [self.goto(st, t[1])]
        if k == "drop":
            return self.on_drop(st, d, f, t)
        if k == "switch":
            v = self.operand(st, d, f, t[1])
            table = {int(x[0]): x[1] for x in t[2]}
            other = t[3]
            if v[0] == "k":
                return [self.goto(st, table.get(v[1], other))]
            allg = list(dict.fromkeys(list(table.values()) + [other]))
            # never enter blocks that are unreachable
            out = []
            for g, s2 in self.split(st, v, lambda x: table.get(x, other), allg):
                if f.blocks[g]["t"][0] == "unreachable" and not f.blocks[g]["s"]:
                    continue
                if s2 is st:
                    s2 = st.copy()
                out.append(self.goto(s2, g))
            return out
        if k == "ret":
            return self.do_return(st, on_term)
        if k == "assert":
            if t[4].startswith(("MisalignedPointerDereference", "NullPointerDereference", "NullReferenceConstructed")):
                return [self.goto(st, t[3])]    # a check on raw pointers inside of boxes and slices
            v = self.operand(st, d, f, t[1])
            exp = 1 if t[2] else 0
            out = []
            for ok, s2 in self.split(st, v, lambda x: int(x == exp), [1, 0]):
                if s2 is st:
                    s2 = st.copy()
                if ok:
                    out.append(self.goto(s2, t[3]))
                else:
                    on_term(s2, "panic", ("s", t[4]), self.chain(chain, f.id, bb))
            return out
        if k == "call":
            return self.do_call(st, d, f, bb, t, on_event, on_term)
        if k == "unreachable":
            return []
        raise Undecided("terminator %s in %s" % (t, f.path))

    def on_drop(self, st, d, f, t):
        return [self.goto(st, t[2])]

    def goto(self, st, bb):
        fr = st.fr[-1]
        st.fr = st.fr[:-1] + ((fr[0], bb, fr[2], fr[3], fr[4]),)
        return st

    def do_return(self, st, on_term):
        d = len(st.fr) - 1
        v = st.mem.get((d, 0), UNIT)
        fr = st.fr[-1]
        if d == 0:
            on_term(st, "ret", v, fr[4])
            return []
        st.fr = st.fr[:-1]
        st.mem = {r: x for r, x in st.mem.items() if r[0] != d}
        f = self.d.fns[st.fr[-1][0]]
        self.assign(st, d - 1, f, fr[2], v)
        return [self.goto(st, fr[3])]

    # ------------------------------------------------------------ calls
    def do_call(self, st, d, f, bb, t, on_event, on_term):
        fn = t[1]
        args = [self.operand(st, d, f, o) for o in t[2]]
        dest, ret = t[3], t[4]
        chain = st.fr[-1][4]
        site = self.chain(chain, f.id, bb)
        if "intr" in fn:
            r = self.intrinsic(st, fn["intr"], fn["tys"], args)
            if ret is None:
                on_term(st, "panic", ("s", fn["intr"]), site)
                return []
            self.assign(st, d, f, dest, r)
            return [self.goto(st, ret)]
        if "op" in fn:
            v = self.operand(st, d, f, fn["op"])
            if v[0] == "fn":
                inst = v[1]
            elif v[0] == "c":
                inst = self.T[v[1]]["inst"]
                g = self.d.fns[inst]
                return self.enter(st, d, f, bb, t, g, [("r", ("V", v), ())] + args, site, on_event, on_term, closure_direct=True)
            else:
                raise Undecided("call of an unknown function value in %s" % f.path)
        elif "virt" in fn:
            return self.virtual(st, d, f, bb, t, fn, args, site, on_event, on_term)
        else:
            inst = fn["inst"]
        g = self.d.fns[inst]
        return self.enter(st, d, f, bb, t, g, args, site, on_event, on_term)

    def virtual(self, st, d, f, bb, t, fn, args, site, on_event, on_term):
        raise Undecided("virtual call %s" % fn["virt"])

    def intrinsic(self, st, name, tys, args):
        if name in ("discriminant_value",):
            v = self.deref(st, args[0])
            return self.discr(v, tys[0])
        return TOP

    def deref(self, st, v):
        n = 0
        while v[0] == "r" and n < 8:
            if v[1][0] == "V":
                v = self.projpath(v[1][1], v[2])
            else:
                v = self.loadlv(st, ("M", v[1], v[2]))
            n += 1
        return v

    def deref1(self, st, v):
        if v[0] == "r":
            if v[1][0] == "V":
                return self.projpath(v[1][1], v[2])
            return self.loadlv(st, ("M", v[1], v[2]))
        return v

    def enter(self, st, d, f, bb, t, g, args, site, on_event, on_term, closure_direct=False):
        dest, ret = t[3], t[4]
        p = self.primitive(g)
        if p is not None:
            r = p(self, st, g, args, site, dict(d=d, f=f, dest=dest, ret=ret, on_event=on_event, on_term=on_term))
            if r is NotImplemented:
                pass
            elif isinstance(r, str):
                return [st]
            elif r is None:
                return []
            elif isinstance(r, list):
                out = []
                for s2, v in r:
                    if ret is None:
                        continue
                    self.assign(s2, d, f, dest, v)
                    out.append(self.goto(s2, ret))
                return out
            else:
                if ret is None:
                    on_term(st, "panic", ("s", g.path), site)
                    return []
                self.assign(st, d, f, dest, r)
                return [self.goto(st, ret)]
        if g.ctor is not None:
            ty, var = g.ctor
            self.assign(st, d, f, dest, self.mk_adt(st, ty, var, tuple(args), (st.fr[-1][4], f.id, bb, "ctor")))
            return [self.goto(st, ret)]
        if g.blocks is None:
            r = self.leaf(st, g, args, site)
            if r is None:
                on_term(st, "panic", ("s", g.path), site)
                return []
            if ret is None:
                on_term(st, "panic", ("s", g.path), site)
                return []
            if isinstance(r, list):
                out = []
                for s2, v in r:
                    self.assign(s2, d, f, dest, v)
                    out.append(self.goto(s2, ret))
                return out
            self.assign(st, d, f, dest, r)
            return [self.goto(st, ret)]
        # recursion?
        for fr in st.fr:
            if fr[0] == g.id:
                return self.recursion(st, d, f, bb, t, g, args, site, on_event, on_term)
        if len(st.fr) > 60:
            raise Undecided("call stack too deep at %s" % g.path)
        nargs = g.nargs
        if g.closure and not closure_direct and len(args) == 2 and nargs != 2 or (g.closure and not closure_direct and len(args) == 2 and args[1][0] == "t" and g.kind == "item"):
            a0, tup = args
            args = [a0] + list(tup[1]) if tup[0] == "t" else [a0] + [self.proj(tup, ("f", i)) for i in range(nargs - 1)]
        if g.closure and closure_direct is True:
            # the closure body may take its environment by value
            pass
        if g.kind == "onceshim" and len(args) == 2 and nargs != 2:
            args = [args[0]] + list(args[1][1])
        if len(args) != nargs:
            if g.spread is not None and g.spread >= 0:
                pass
            raise Undecided("argument count of %s: %d, expected %d" % (g.full, len(args), nargs))
        nd = d + 1
        for i, a in enumerate(args):
            st.mem[(nd, i + 1)] = a
        st.fr = st.fr + ((g.id, 0, tuple_place(dest), ret, site),)
        return [st]

    def recursion(self, st, d, f, bb, t, g, args, site, on_event, on_term):
        raise Undecided("recursive call of %s" % g.path)

    def leaf(self, st, g, args, site):
        if g.kind == "drop":
            return UNIT
        return TOP

    def primitive(self, g):
        p = self.prim_cache.get(g.id, False)
        if p is False:
            p = self.find_primitive(g)
            self.prim_cache[g.id] = p
        return p

    def find_primitive(self, g):
        return None


def tuple_place(p):
    return tuple(tuple_place(y) for y in p) if isinstance(p, (list, tuple)) else p


def refs(v, out=None):
    if out is None:
        out = []
    k = v[0]
    if k == "r":
        if v[1][0] == "V":
            refs(v[1][1], out)
        else:
            out.append(v[1])
    elif k == "a":
        for x in v[3]:
            refs(x, out)
    elif k == "t":
        for x in v[1]:
            refs(x, out)
    elif k == "c":
        for x in v[2]:
            refs(x, out)
    elif k == "b":
        refs(v[1], out)
    elif k in ("op", "it"):
        for x in v[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                refs(x, out)
    return out


def names(v, out):
    """Names (event, vector, ...) that occur in a value."""
    k = v[0]
    if k in ("l", "tk", "e", "z", "v"):
        out.add(v[1])
        if isinstance(v[1], tuple) and v[1] and v[1][0] in ("pred", "zf"):
            for x in v[1][1:]:
                if isinstance(x, tuple):
                    names_in(x, out)
    elif k == "r":
        if v[1][0] == "V":
            names(v[1][1], out)
    elif k == "a":
        for x in v[3]:
            names(x, out)
    elif k == "t":
        for x in v[1]:
            names(x, out)
    elif k == "c":
        for x in v[2]:
            names(x, out)
    elif k == "b":
        names(v[1], out)
    elif k in ("op", "it"):
        for x in v[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                names(x, out)


def names_in(x, out):
    if x and isinstance(x[0], str):
        names(x, out)
    else:
        for y in x:
            if isinstance(y, tuple):
                names_in(y, out)
