"""Loading and indexing of the MIR dump."""
import json, os, re, subprocess, hashlib, sys, glob

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("FAJT_REPO", "/repo")
WORK = os.environ.get("FAJT_WORK", os.path.join(ROOT, ".work"))


def source_files():
    out = subprocess.run(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard"], capture_output=True, text=True)
    names = out.stdout.split("\n") if out.returncode == 0 else []
    names = [n for n in names if n.endswith(".rs") or n.endswith("Cargo.toml") or n.endswith("Cargo.lock")]
    return sorted(n for n in names if os.path.exists(os.path.join(REPO, n)))


def source_hash():
    h = hashlib.sha256()
    for n in source_files():
        h.update(n.encode() + b"\0")
        with open(os.path.join(REPO, n), "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    for d in sorted(glob.glob(os.path.join(ROOT, "driver/src/*")) + glob.glob(os.path.join(ROOT, "harness/src/**/*.rs"), recursive=True)) + ["build_dump.sh"]:
        with open(os.path.join(ROOT, d), "rb") as f:
            h.update(f.read())
    return h.hexdigest()


class DumpError(Exception):
    pass


def dump_path(features=""):
    """the dump of the current sources; features: of the harness, instead of the usual ones"""
    os.makedirs(WORK, exist_ok=True)
    p = os.path.join(WORK, "dump-%s%s.json" % (features, source_hash()[:24]))
    if not os.path.exists(p):
        r = subprocess.run(["bash", os.path.join(ROOT, "build_dump.sh"), p], capture_output=True, text=True, env=dict(os.environ, FAJT_FEATURES=features))
        if r.returncode != 0 or not os.path.exists(p):
            raise DumpError("cannot build the MIR dump:\n" + r.stdout + r.stderr)
        olds = sorted(glob.glob(os.path.join(WORK, "dump-*.json")), key=os.path.getmtime)
        for o in olds[:-4]:
            os.remove(o)
    return p


class Fn:
    __slots__ = ("id", "path", "full", "crate", "kind", "targs", "closure", "argnames", "trait", "name", "ctor",
                 "loc", "nargs", "spread", "locals", "names", "blocks", "promoted", "live", "npred", "safety")

    def __init__(self, d):
        for s in self.__slots__:
            setattr(self, s, d.get(s))
        self.live = None
        self.npred = None
        if self.promoted is not None:     # a constant of the function, not the function
            self.name = "{promoted}"
            self.path = (self.path or "") + "::{promoted}"
            self.full = (self.full or "") + "::{promoted}"
            self.trait = None

    def __repr__(self):
        return "<fn %s>" % self.full


class Dump:
    def __init__(self, path=None):
        self.path = path or dump_path()
        with open(self.path) as f:
            d = json.load(f)
        self.roots = d["roots"]
        self.types = d["types"]
        self.raw_effects = d.get("effects", [])
        self.fns = [Fn(x) for x in d["fns"]]
        for i, f in enumerate(self.fns):
            assert f.id == i
        self.tdef = {}
        for i, t in enumerate(self.types):
            if t["k"] == "adt":
                self.tdef.setdefault(t["def"], []).append(i)
        self.by_path = {}
        for f in self.fns:
            self.by_path.setdefault(f.path, []).append(f)

    def adt(self, name):
        """Type id of a non-generic type, by its last path segments."""
        c = [i for d, l in self.tdef.items() if d == name or d.endswith("::" + name) for i in l]
        if len(c) != 1:
            raise KeyError("type %s: %d candidates" % (name, len(c)))
        return c[0]

    def tname(self, tid):
        t = self.types[tid]
        return t["def"].split("::")[-1] if t["k"] == "adt" else t["s"]

    def variant(self, tid, name):
        for i, v in enumerate(self.types[tid]["variants"]):
            if v["n"] == name:
                return i
        raise KeyError("%s::%s" % (self.tname(tid), name))

    # ---- liveness -------------------------------------------------------
    def prepare(self, f):
        if f.live is not None:
            return
        n = len(f.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        succ = [[] for _ in range(n)]
        npred = [0] * n

        def pl(p, u):
            u.append(p[0])
            for e in p[1:]:
                if e[0] == "i":
                    u.append(e[1])

        def op(o, u):
            if o[0] in "cm":
                pl(o[1], u)

        for i, b in enumerate(f.blocks):
            if b is None:
                continue
            U, D = use[i], dfn[i]

            def uses(l):
                for x in l:
                    if x not in D:
                        U.add(x)

            def dest(p):
                if len(p) == 1:
                    D.add(p[0])
                else:
                    u = []
                    pl(p, u)
                    uses(u)

            for s in b["s"]:
                if s[0] == "=":
                    u = []
                    r = s[2]
                    k = r[0]
                    if k in ("use", "repeat"):
                        op(r[1], u)
                    elif k == "ref":
                        pl(r[2], u)
                    elif k == "cast":
                        op(r[2], u)
                    elif k == "unsize":
                        op(r[1], u)
                    elif k == "bin":
                        op(r[2], u); op(r[3], u)
                    elif k == "un":
                        op(r[2], u)
                    elif k == "discr":
                        pl(r[1], u)
                    elif k == "agg":
                        for o in r[3]:
                            op(o, u)
                    uses(u)
                    dest(s[1])
                elif s[0] == "setd":
                    u = []
                    pl(s[1], u)
                    uses(u)
                elif s[0] == "dead":
                    D.add(s[1])
            t = b["t"]
            k = t[0]
            u = []
            if k == "goto":
                succ[i] = [t[1]]
            elif k == "switch":
                op(t[1], u)
                succ[i] = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                succ[i] = [t[2]]
            elif k == "assert":
                op(t[1], u)
                succ[i] = [t[3]]
            elif k == "call":
                if "op" in t[1]:
                    op(t[1]["op"], u)
                for o in t[2]:
                    op(o, u)
                uses(u)
                u = []
                dest(t[3])
                if t[4] is not None:
                    succ[i] = [t[4]]
            elif k == "ret":
                u.append(0)
            uses(u)
        live = [set(use[i]) for i in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                if f.blocks[i] is None:
                    continue
                o = set()
                for s in succ[i]:
                    o |= live[s]
                o -= dfn[i]
                if not o <= live[i]:
                    live[i] |= o
                    ch = True
        for i in range(n):
            for s in set(succ[i]):
                npred[s] += 1
        f.live = [frozenset(x) for x in live]
        f.npred = npred
