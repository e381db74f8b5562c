"""Traversal: every child node is visited exactly once, in source order, between enter and exit."""
from pathdom import PathDomain, NFA, nfa_diff, cubes, NeedCube, NeedElem
from absint import K, UNIT, TOP, Undecided

# Data that is not a node of its own: positions, kinds, flags.
NOT_NODES = {"Span", "VariableKind", "MethodKind", "SourceType", "TraceVisitor"}
# Children are visited in the order of their syntax, which is the order of declaration except here.
ORDER = {
    "ExprAssignment": ["left", "operator", "right"],
    "ExprBinary": ["left", "operator", "right"],
    "ExprLogical": ["left", "operator", "right"],
}
# Children whose relative order in the source depends on the node (prefix/postfix) or on the clause.
UNORDERED = {
    "ExprUpdate": [("operator", "argument")],
    "NamedExport": [("name", "alias_of")],
}
TRAVERSE = "fajt_ast::traverse::Traverse"
VISITOR = "fajt_ast::traverse::Visitor::"


class TraverseDomain(PathDomain):
    def __init__(self, dump, own):
        super().__init__(dump)
        self.own = own  # the function that is analysed

    def find_primitive(self, g):
        if g.trait == TRAVERSE and g.name == "traverse" and g.id != self.own:
            t = self.self_ty(g)
            if self.is_node(t):
                return TraverseDomain.m_visit
        return super().find_primitive(g)

    def self_ty(self, g):
        return self.T[g.locals[1]]["to"]

    def is_node(self, t):
        ty = self.T[t]
        return ty["k"] == "adt" and ty["def"].startswith("fajt_ast::") and ty["def"].split("::")[-1] not in NOT_NODES

    def m_visit(self, st, g, args, site, ctx):
        v = self.strip(self.deref(st, args[0]))
        vis = self.deref(st, args[1])
        self.emit(st, ("visit", self.show(v), self.d.tname(self.self_ty(g)), "visitor" if vis == ("l", "visitor", ()) else "other"), UNIT, site, ctx)
        return None

    def show(self, v):
        return v if v[0] == "l" else ("?",)

    def virtual(self, st, d, f, bb, t, fn, args, site, on_event, on_term):
        ctx = dict(d=d, f=f, dest=t[3], ret=t[4], on_event=on_event, on_term=on_term)
        name = fn["virt"]
        if not name.startswith(VISITOR):
            raise Undecided("virtual call of " + name)
        vis = self.deref(st, args[0])
        node = self.strip(self.deref(st, args[1]))
        kind = name[len(VISITOR):].split("_")[0]
        lbl = (kind, self.show(node), "visitor" if vis == ("l", "visitor", ()) else "other")
        self.methods.add((kind, name[len(VISITOR):]))
        if kind == "enter":
            self.emit_all(st, [(lbl + (0,), K(0)), (lbl + (1,), K(1))], site, ctx)
        else:
            self.emit(st, lbl, UNIT, site, ctx)
        return []


def vpath(path, i):
    return path + (("v", i),)


class SpecBuilder:
    def __init__(self, dump, dom, ty):
        self.d, self.T, self.dom, self.ty = dump, dump.types, dom, ty

    flip = False

    def build(self, cube, demands):
        n = NFA("spec")
        self.n, self.cube, self.demands = n, cube, demands
        root = ("l", "self", ())
        n.start = n.new()
        fin = n.new()
        a0, a1, b = n.new(), n.new(), n.new()
        n.add(n.start, ("enter", root, "visitor", 0), b)
        n.add(n.start, ("enter", root, "visitor", 1), a1)
        e = self.fields(self.ty, root, a1)
        n.eps[e].add(b)
        n.add(b, ("exit", root, "visitor"), fin)
        n.final.add(fin)
        return n

    def choose(self, x, options):
        if isinstance(x[1], tuple):
            return None
        r = self.cube.get(x)
        if r is None:
            if len(options) == 1:
                return options[0]
            raise NeedCube(x, options)
        return r

    def fields(self, ty, v, node):
        t = self.T[ty]
        vs = t["variants"]
        path = v[2]
        if t["akind"] == "enum":
            if not vs:
                return node
            # variants without children need not be told apart
            if not any(self.has_child(x) for var in vs for _, x in var["f"]):
                return node
            d = self.choose(v, [x["d"] for x in vs])
            i = next(i for i, x in enumerate(vs) if x["d"] == d)
            path = vpath(path, i)
            var = vs[i]
        else:
            var = vs[0]
        name = t["def"].split("::")[-1]
        fs = list(enumerate(var["f"]))
        if name in ORDER:
            o = ORDER[name]
            for x in o:
                if x not in [f[1][0] for f in fs]:
                    raise Undecided("field %s.%s is gone" % (name, x))
            fs.sort(key=lambda x: o.index(x[1][0]) if x[1][0] in o else -1)
        fs = [(i, fn, ft) for i, (fn, ft) in fs if self.has_child(ft)]
        for grp in UNORDERED.get(name, []):
            if not set(grp) <= {x[1] for x in fs}:
                raise Undecided("fields of %s changed" % name)
            if self.flip:
                k = [j for j, x in enumerate(fs) if x[1] in grp]
                fs[k[0]], fs[k[1]] = fs[k[1]], fs[k[0]]
        for i, fn, ft in fs:
            node = self.seq(ft, ("l", v[1], path + (("f", i),)), node)
        return node

    def has_child(self, ty):
        t = self.T[ty]
        if t["k"] != "adt":
            return False
        if self.dom.is_node(ty):
            return True
        n = t["def"].split("::")[-1]
        if n in ("Option", "Vec", "Box"):
            return self.has_child(t["args"][0])
        return False

    def seq(self, ty, v, node):
        t = self.T[ty]
        n = self.n
        name = t["def"].split("::")[-1]
        if self.dom.is_node(ty):
            m = n.new()
            n.add(node, ("visit", v, name, "visitor"), m)
            return m
        if name == "Box":
            return self.seq(t["args"][0], v, node)
        if name == "Option":
            if isinstance(v[1], tuple):
                return self.elem_option(t, v, node)
            d = self.choose(v, [0, 1])
            if d == 0:
                return node
            return self.seq(t["args"][0], ("l", v[1], v[2] + (("v", 1), ("f", 0))), node)
        if name == "Vec":
            el = ("l", ("elem", v), ())
            out = n.new()
            n.add(node, ("end", v), out)
            inner = t["args"][0]
            it = self.T[inner]
            if it["k"] == "adt" and it["def"].split("::")[-1] == "Option":
                if ((), [0, 1]) not in self.demands.get(v, []):
                    raise NeedElem(v, (), [0, 1])
                n.add(node, ("next", v, ((), 0)), node)
                m = n.new()
                n.add(node, ("next", v, ((), 1)), m)
                e = self.seq(it["args"][0], ("l", el[1], (("v", 1), ("f", 0))), m)
            else:
                m = n.new()
                n.add(node, ("next", v), m)
                e = self.seq(inner, el, m)
            n.eps[e].add(node)
            return out
        return node


def node_types(dump, dom, root="Program"):
    """AST types reachable from Program."""
    start = dump.adt("fajt_ast::" + root)
    seen, work, nodes = {start}, [start], []
    while work:
        t = work.pop()
        ty = dump.types[t]
        if ty["k"] != "adt":
            continue
        if dom.is_node(t):
            nodes.append(t)
        for v in ty.get("variants") or []:
            for _, x in v["f"]:
                if x not in seen:
                    seen.add(x)
                    work.append(x)
        for x in ty.get("args") or []:
            if x not in seen:
                seen.add(x)
                work.append(x)
    return sorted(nodes, key=lambda t: dump.types[t]["s"])


def show_label(dump, ty, l):
    return repr(l)


def check(dump):
    dom0 = TraverseDomain(dump, None)
    nodes = node_types(dump, dom0)
    impls = {}
    for f in dump.fns:
        if f.trait == TRAVERSE and f.name == "traverse" and f.blocks:
            impls[dom0.self_ty(f)] = f
    out = {"types": 0, "cubes": 0, "states": 0, "violations": [], "methods": {}}
    exempt = []
    for t in nodes:
        f = impls.get(t)
        name = dump.tname(t)
        if f is None:
            out["violations"].append(dict(key="traverse:%s:missing" % name, what="%s has no reachable Traverse implementation" % name, loc=None))
            continue
        dom = TraverseDomain(dump, f.id)
        dom.methods = set()
        args = [("r", ("V", ("l", "self", ())), ()), ("r", ("V", ("l", "visitor", ())), ())]

        def run(cube, demands):
            a = dom.analyse(f, args, cube, demands)
            bs = []
            for flip in ((False, True) if name in UNORDERED else (False,)):
                b = SpecBuilder(dump, dom, t)
                b.flip = flip
                bs.append(b.build(cube, demands))
            return a, bs
        res = cubes(run)
        out["types"] += 1
        out["cubes"] += len(res)
        for cube, (a, bs) in res:
            out["states"] += a.n
            ds = [nfa_diff(a, b) for b in bs]
            d = ds[0]
            if all(ds):
                word, lbl, kind, loc = d
                out["violations"].append(dict(key="traverse:%s:%s" % (name, describe(dump, t, lbl)), loc=loc or (f.path, f.loc),
                    what="traverse of %s %s: %s %s" % (name, show_cube(dump, t, cube), "does unexpectedly" if kind == "extra" else "lacks", describe(dump, t, lbl))))
        en = {m for k, m in dom.methods}
        for m in en:
            out["methods"].setdefault(m, set()).add(name)
    return out


def path_str(dump, ty, v):
    if v[0] != "l":
        return "?"
    if isinstance(v[1], tuple):
        return path_str(dump, ty, v[1][1]) + "[]" + "".join(".%s" % (x[1],) for x in v[2] if x[0] == "f" and False)
    s = v[1]
    t = ty
    var = 0
    for e in v[2]:
        if e[0] == "v":
            var = e[1]
            if dump.types[t]["akind"] == "enum" and dump.tname(t) != "Option":
                s += "::" + dump.types[t]["variants"][var]["n"]
        elif e[0] == "f":
            while dump.types[t].get("box"):
                t = dump.types[t]["args"][0]
            f = dump.types[t]["variants"][var]["f"][e[1]]
            if not f[0].isdigit():
                s += "." + f[0]
            t = f[1]
            var = 0
    return s


def describe(dump, ty, lbl):
    if isinstance(lbl, str):
        return lbl
    return lbl[0] + " " + path_str(dump, ty, lbl[1]) + (" =%s" % lbl[-1] if lbl[0] == "enter" else "")


def show_cube(dump, ty, cube):
    return "{" + ", ".join("%s=%s" % (path_str(dump, ty, k), v) for k, v in sorted(cube.items(), key=repr)) + "}"


if __name__ == "__main__":
    import sys
    from dump import Dump
    d = Dump()
    r = check(d)
    print({k: v for k, v in r.items() if k != "methods"}, len(r["methods"]))
