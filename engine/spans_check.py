"""The span that a node gives is its own: `Spanned::span` of every type of the tree, and `Program::span`.

Every implementation (the driver lists them) is interpreted on a node of its type: a struct has to give its field
`span`, an enum what the value inside its variant gives."""
from reader_check import Reader
from absint import Undecided, Budget
from diag_check import BAD

NODE = ("l", "node", ())


class Spans(Reader):
    own = None

    def find_primitive(self, g):
        if g.name == "span" and (g.trait or "").endswith("Spanned") and g.id != self.own:
            return Spans.p_span
        return super().find_primitive(g)

    def p_span(self, st, g, args, site, ctx):
        return ("r", ("V", ("op", "span", self.deref(st, args[0]))), ())


def run(dump):
    T = dump.types
    bad, und, done = [], {}, []
    R = Spans(dump)

    ids = dump.roots if isinstance(dump.roots, dict) else {}
    for name, i in sorted(ids.items()):
        if not (name.startswith("spanned ") and name.endswith(" span")) and name != "root_program_span":
            continue
        f = dump.fns[i]
        if f.blocks is None:
            und[name] = "no body"
            continue
        ty = f.locals[1]["t"] if isinstance(f.locals[1], dict) else f.locals[1]
        while T[ty].get("k") == "ref":
            ty = T[ty].get("t", T[ty].get("to"))
        tn = T[ty].get("s", "?")
        R.own = i
        try:
            ps = R.paths(f, [("r", ("V", NODE), ())])
        except BAD as e:
            und[tn] = "%s: %s" % (type(e).__name__, str(e)[:200])
            continue
        done.append(tn)
        vs = T[ty]["variants"]
        for k, v, acts, con, st, site in ps:
            if k != "ret":
                bad.append((f, tn, "giving the span of a node can fail"))
                continue
            got = R.deref(st, v) if v[0] == "r" else v
            seen = con.get(NODE) or con.get(("op", "discr", NODE, ty))
            for vi, var in enumerate(vs):
                if seen is not None and var["d"] not in seen:
                    continue
                names = [x[0] for x in var["f"]]
                want = []
                for base in ((("v", vi),), ()) if len(vs) == 1 else ((("v", vi),),):
                    if "span" in names:
                        want.append(("l", "node", base + (("f", names.index("span")),)))
                    elif len(names) == 1:
                        want += inner(T, R, ("l", "node", base + (("f", 0),)), var["f"][0][1])
                if not want:
                    und[tn] = "variant %s" % var["n"]
                    continue
                if got not in want:
                    bad.append((f, tn, "the span of %s%s is not %s" % (tn, "::" + var["n"] if len(vs) > 1 else "", "that of the value inside" if "span" not in names else "its field `span`")))
    return dict(violations=[dict(key="spanned:%s:%s" % (tn, w[-24:]), what=w, loc=(f.path, f.loc)) for f, tn, w in bad], types=done, undecided=und)


def inner(T, R, v, ty):
    """what the span of the value inside a variant may look like"""
    out = [("op", "span", v)]
    vs = T[ty].get("variants") or []
    if len(vs) == 1:
        names = [x[0] for x in vs[0]["f"]]
        if "span" in names:
            out.append(("l", v[1], v[2] + (("f", names.index("span")),)))
    return out


if __name__ == "__main__":
    import sys, dump as dm
    r = run(dm.Dump(sys.argv[1]) if len(sys.argv) > 1 else dm.Dump())
    print(len(r["types"]), str(r["undecided"])[:1500])
    for v in r["violations"][:20]:
        print(v["key"], v["what"])
