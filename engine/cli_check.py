"""The command line program: what every run does, path by path."""
from absint import K, TRUE, FALSE, UNIT, TOP, Undecided, Budget
from text_model import Text, DEFAULT, join

MODULE = (".mjs", ".module.js")
ALT = 1 << 23


class Cli(Text):
    def find_primitive(self, g):
        p = g.path
        if g.crate in ("clap", "clap_builder"):
            return Cli.p_clap
        if p == "std::fs::read_to_string":
            return Cli.p_read
        if p == "std::process::exit":
            return Cli.p_exit
        if p in ("std::io::_print", "std::io::_eprint"):
            return Cli.p_print
        if g.name == "write_fmt" and ("Stdout" in g.full or "Stderr" in g.full):
            return Cli.p_write
        if p in ("std::io::stdout", "std::io::stderr"):
            return Cli.p_stream
        if g.name in ("lock", "by_ref") and ("Stdout" in g.full or "Stderr" in g.full):
            return Cli.p_lock
        if g.name == "flush" and ("Stdout" in g.full or "Stderr" in g.full):
            return Cli.p_ok
        if p in ("fajt_parser::parse_module", "fajt_parser::parse_script"):
            return Cli.p_parse
        if p == "fajt_parser::parse":
            return Cli.p_parse
        if g.name == "emit_error" and "ErrorEmitter" in p:
            return Cli.p_emit
        if p.startswith("fajt_codegen::generate_code"):
            return Cli.p_generate
        if "<impl str>::trim" in p:
            return Cli.p_term
        if p.endswith("<impl str>::ends_with") or g.name in ("eq", "ne") and ("String" in g.full or "str" in g.full):
            return Cli.p_test
        return super().find_primitive(g)

    def event(self):
        pass
    event = {}

    def put(self, st, *ev):
        st.acts = st.acts + (ev,)

    # ---- arguments
    def p_clap(self, st, g, args, site, ctx):
        n = g.name
        if n == "new":
            return ("op", "Arg" if "Arg::new" in g.path else "Command", self.string(st, args[0]))
        if n in ("get_flag", "get_one"):
            a = self.string(st, args[1])
            if a[0] != "s":
                raise Undecided("argument %r" % (a,))
            return ("l", "%s:%s" % (n[4:], a[1]), ())
        if n == "get_matches":
            self.put(st, "arguments", self.deref(st, args[0]))
            return ("l", "matches", ())
        x = self.deref(st, args[0])
        if x[0] == "op" and x[1] in ("Arg", "Command"):
            return x + ((n,) + tuple(self.string(st, a) for a in args[1:]),)
        raise Undecided("call of %s" % g.path)

    def p_read(self, st, g, args, site, ctx):
        self.put(st, "read", self.string(st, args[0]))
        return ("l", "read%d" % sum(1 for a in st.acts if a[0] == "read"), ())

    def p_exit(self, st, g, args, site, ctx):
        ctx["on_term"](st, "exit", args[0], site)
        return None

    def p_print(self, st, g, args, site, ctx):
        self.put(st, "stdout" if g.path.endswith("::_print") else "stderr", self.text(st, args[0]))
        return UNIT

    def p_stream(self, st, g, args, site, ctx):
        return ("op", g.name)

    def p_lock(self, st, g, args, site, ctx):
        return self.deref(st, args[0])

    def ok(self, ctx):
        t = self.pty(ctx["f"], ctx["dest"])
        return ("a", t, 0, (UNIT,), None)

    def p_ok(self, st, g, args, site, ctx):
        return self.ok(ctx)

    def p_write(self, st, g, args, site, ctx):
        self.put(st, "stdout" if "Stdout" in g.full else "stderr", self.text(st, args[1]))
        return self.ok(ctx)

    def p_parse(self, st, g, args, site, ctx):
        n = g.path.rsplit("_", 1)[1]
        if n not in ("module", "script"):
            t = self.deref(st, args[1])
            if t[0] != "a":
                raise Undecided("source type %r" % (t,))
            n = self.T[t[1]]["variants"][t[2]]["n"].lower()
        k = sum(1 for a in st.acts if a[0] == "parse")
        self.put(st, "parse", n, self.string(st, args[0]))
        return ("l", "parsed%d" % k, ())

    def p_emit(self, st, g, args, site, ctx):
        e = self.deref(st, args[0])
        if e[0] != "a":
            raise Undecided("emitter %r" % (e,))
        names = [f[0] for f in self.T[e[1]]["variants"][0]["f"]]
        fs = {n: self.string(st, x) for n, x in zip(names, e[3])}
        self.put(st, "emit", tuple(fs.get(n) for n in ("filename", "source", "out")), self.deref(st, args[1]))
        return self.ok(ctx)

    def p_generate(self, st, g, args, site, ctx):
        c = self.deref(st, args[1])
        if c[0] != "a":
            raise Undecided("generator context %r" % (c,))
        names = [f[0] for f in self.T[c[1]]["variants"][0]["f"]]
        self.put(st, "generate", self.deref(st, args[0]), tuple(sorted((n, self.deref(st, x)) for n, x in zip(names, c[3]))))
        return ("op", "generated", self.deref(st, args[0]))

    def p_test(self, st, g, args, site, ctx):
        a, b = self.string(st, args[0]), self.string(st, args[1])
        op = "ends_with" if g.name == "ends_with" else "is"
        if op == "is" and a[0] == "s":
            a, b = b, a
        if a[0] == "s" and b[0] == "s":
            r = a[1].endswith(b[1]) if op == "ends_with" else a[1] == b[1]
            return TRUE if r == (g.name != "ne") else FALSE
        v = ("op", op, a, b)
        return ("op", "Not", v) if g.name == "ne" else v

    def split_op(self, st, v, keyf, allg):
        if v[1] in ("ends_with", "is"):
            return self.split_scalar(st, v, keyf, allg)
        return super().split_op(st, v, keyf, allg)

    def leaf(self, st, g, args, site):
        if g.kind == "drop" or g.name in ("drop_in_place",):
            return UNIT
        if "_failed" in g.path:
            return None
        return super().leaf(st, g, args, site)


def base(v):
    """the opaque value that a value is a part of"""
    while True:
        if v[0] == "b" or v[0] == "r" and v[1][0] == "V":
            v = v[1] if v[0] == "b" else v[1][1]
        elif v[0] == "l":
            return v[1]
        else:
            return None


def mentions(v, name):
    if isinstance(v, tuple):
        return base(v) == name if v and v[0] in ("l", "b") else any(mentions(x, name) for x in v)
    return False


def settings(c):
    """the arguments that the program takes"""
    out = {}
    for m in c[3:]:
        if m[0] != "arg" or m[1][0] != "op" or m[1][1] != "Arg":
            continue
        a = m[1]
        d = {x[0]: x[1:] for x in a[3:]}
        out[a[2][1]] = d
    return out


def run(dump):
    T = dump.types
    mains = [f for f in dump.fns if f.name == "main" and f.path.endswith("cli::main") and f.blocks and f.promoted is None]
    if len(mains) != 1:
        return dict(violations=[], cases=0, undecided={"main": "%d definitions" % len(mains)})
    f = mains[0]
    D = Cli(dump)
    bad, n = {}, 0

    def viol(key, what):
        bad.setdefault(key, dict(key="cli:" + key, what=what, loc=(f.path, f.loc)))
    try:
        ps = D.paths(f, [])
    except (Undecided, Budget, KeyError, IndexError, ValueError, AttributeError, TypeError) as e:
        return dict(violations=[], cases=0, undecided={"main": "%s: %s" % (type(e).__name__, str(e)[:300])})
    und = {}
    default = None
    for kind, v, acts, con, st, site in ps:
        n += 1
        if kind == "panic" and not any(a[0] == "read" for a in acts):
            continue
        if any(a[0] == "havoc" for a in acts):
            und["main"] = "test on an unknown value"
            continue
        def fact(*t):
            for k, s in con.items():
                if k[0] == "op" and k[1] == t[0] and k[3] == ("s", t[1]) and base(k[2]) == t[2] and len(s) == 1:
                    return next(iter(s))
            return None

        def disc(name):
            for k, s in con.items():
                if k[0] == "l" and k[1] == name and not k[2] and len(s) == 1:
                    return next(iter(s))
            return None
        ev = {}
        for a in acts:
            ev.setdefault(a[0], []).append(a[1:])
        if not ev.get("arguments"):
            viol("arguments", "a run does not read the command line")
            continue
        cfg = settings(ev["arguments"][0][0])
        want = {"format": (("s", "format"), K(ord("f"))), "check": (("s", "check"), K(ord("c")))}
        for a, (lg, sh) in want.items():
            d = cfg.get(a)
            if d is None or d.get("long") != (lg,) or d.get("short") != (sh,):
                viol("option " + a, "the option --%s, -%s is not taken" % (a, chr(sh[1])))
        if "file" not in cfg or "long" in cfg["file"] or "short" in cfg["file"]:
            viol("file", "the file is not a positional argument")
        if len(ev.get("read", ())) != 1 or base(ev["read"][0][0]) != "one:file":
            viol("read", "a run does not read exactly the file that is named")
            continue
        if disc("read1") == 1:
            if ev.get("stdout") or ev.get("parse") or kind == "ret" or kind == "exit" and v == K(0):
                viol("unreadable", "an unreadable file is not a failure")
            continue
        ends = [fact("ends_with", s, "one:file") for s in MODULE]
        if len(ev.get("parse", ())) != 1:
            if kind == "panic" and site is not None and not ev.get("parse"):
                viol("parse", "a readable file is not parsed")
            elif len(ev.get("parse", ())) != 1:
                viol("parse", "a run parses %d times" % len(ev.get("parse", ())))
            continue
        goal, src = ev["parse"][0]
        if base(src) != "read1":
            viol("source", "what is parsed is not the content of the file")
            continue
        other = [k for k in con if k[0] == "op" and k[1] in ("ends_with", "is") and base(k[2]) == "one:file" and k[3] not in [("s", x) for x in MODULE]]
        if 1 in ends:
            exp = "module"
        elif ends == [0, 0]:
            exp = "script"
        else:
            exp = None
        if other:
            viol("goal", "the kind of the source depends on %s of the file name" % " and ".join("%s %s" % (k[1].replace("_", " "), k[3][1]) for k in other))
        elif exp is None:
            viol("goal", "a file is parsed as %s whatever its extension" % goal)
        elif goal != exp:
            viol("goal " + exp, "a file whose name %s is parsed as %s" % ("ends with .mjs or .module.js" if exp == "module" else "has another ending", goal))
        res = disc("parsed0")
        if res is None:
            viol("result", "a run does not look at the result of the parser")
            continue
        out = join([p for t in ev.get("stdout", ()) for p in t[0][2]])
        if res == 1:
            if out:
                viol("output of an error", "a source with an error has an output")
            em = ev.get("emit", ())
            if len(em) != 1 or base(em[0][1]) != "parsed0":
                viol("report", "an error is not reported exactly once")
            else:
                (fn, source, stream), _ = em[0]
                if base(fn) != "one:file" or base(source) != "read1":
                    viol("report of", "an error is reported for another file or source")
                if stream != ("op", "stderr"):
                    viol("report to", "an error is not reported to the standard error output")
            if kind != "exit" or v == K(0):
                viol("status", "a source with an error does not end with a failure status")
            continue
        if ev.get("emit"):
            viol("report", "a correct source has an error report")
        if kind == "panic":
            viol("panic", "a correct source makes the program panic")
            continue
        if kind == "exit" and v != K(0):
            viol("status of success", "a correct source ends with a failure status")
        check = next((next(iter(s)) for k, s in con.items() if k == ("l", "flag:check", ()) and len(s) == 1), None)
        fmt = disc("one:format")
        if check is None:
            viol("check", "the option --check has no influence")
            continue
        if check:
            if mentions(out, "parsed0"):
                viol("check output", "--check prints the program")
            continue
        if fmt is None:
            viol("format", "the option --format has no influence")
            continue
        gen = ev.get("generate", ())
        if fmt == 0:
            if gen or len(out) < 1 or not any(p[0] == "arg" and p[1] == "debug" and base(p[2]) == "parsed0" for p in out):
                viol("tree", "without --format the output is not the syntax tree")
            continue
        mini = fact("is", "minified", "one:format")
        if len(gen) != 1 or base(gen[0][0]) != "parsed0":
            viol("generate", "--format does not generate the code of the program once")
            continue
        ctx = dict(gen[0][1])
        if mini is None:
            viol("minified", "--format ignores its value")
        elif ctx.get("minified") not in (TRUE, FALSE):
            und["minified"] = "mode %r" % (ctx.get("minified"),)
        elif (ctx["minified"] == TRUE) != bool(mini):
            viol("minified", "--format %s generates %s code" % ("minified" if mini else "pretty", "minified" if ctx["minified"] == TRUE else "pretty"))
        if out != (("arg", "display", ("op", "generated", gen[0][0]), DEFAULT), ("lit", "\n")):
            viol("printed", "--format does not print exactly the generated code and a line end")
    return dict(violations=list(bad.values()), cases=n, undecided=und)


if __name__ == "__main__":
    import sys, dump as dm
    r = run(dm.Dump(sys.argv[1]) if len(sys.argv) > 1 else dm.Dump())
    print(r["cases"], "paths", r["undecided"])
    for v in r["violations"]:
        print(v["key"], v["what"])
