"""Product analysis of the parser and the reference grammar.

The parser of the repository and the reference parser (harness/src/reference, one function per production of ECMA-262,
with the deviations of this tree written down) are both given as MIR.  For every production the two functions are
interpreted abstractly side by side: both see the same symbolic token stream and the same symbolic grammar parameters,
and at every point where one of them consumes a token, rewinds, re-reads or calls another production the other one has
to do the same under the same conditions and with the same parameters; where one returns, the other has to return the
same tree (the same error class).  Calls of productions are cut: the callee pair is its own obligation (induction over
the length of the derivation).
"""
import re
import time
from collections import defaultdict
from absint import Interp, St, K, TRUE, FALSE, UNIT, TOP, Undecided, Budget, refs
from rel import Rel
import dump as dm

CTX = ("is_await", "is_yield", "is_in", "is_strict", "is_default", "is_return", "in_method", "super_call_allowed", "static_method_allowed")
class Cls(str):
    """a class of results with a mark"""


# an error because a word is reserved: the same as any other error, marked for the violations it leads to
RESERVED = Cls("Other")
EVERY = frozenset(("Ok", "Other", "Dots", "Arrow", "Init"))


class Atoms:
    """The classes of tokens the analysis distinguishes: two bits (continues the line, first on its line) for each."""

    def __init__(self, d):
        self.d = d
        self.names = []
        self.index = {}
        self.tv = d.adt("token::TokenValue")
        self.kw = d.adt("token::Keyword")
        self.pu = d.adt("token::Punctuator")
        self.lit = d.adt("fajt_ast::Literal")
        for t, p in ((self.kw, "kw:"), (self.pu, "p:")):
            for v in d.types[t]["variants"]:
                self.add(p + v["n"])
        for n in ("Identifier", "String", "Number", "Template", "Regexp", "TemplateHead", "TemplateMiddle", "TemplateTail"):
            self.add(n)
        self.ntok = len(self.names)
        self.add("EOF")
        self.add("ERR")
        self.ALL = (1 << (2 * len(self.names))) - 1
        self.TOK = (1 << (2 * self.ntok)) - 1
        self.EOF = self.mask("EOF")
        self.ERR = self.mask("ERR")
        self.ALL = self.TOK | self.EOF | self.ERR
        nl = 0
        for i in range(self.ntok):
            nl |= 2 << (2 * i)
        self.NL = nl
        self.cache = {}

    def add(self, n):
        self.index[n] = len(self.names)
        self.names.append(n)

    def mask(self, n):
        return 3 << (2 * self.index[n])

    def masks(self, pred):
        m = 0
        for n in self.names[:self.ntok]:
            if pred(n):
                m |= self.mask(n)
        return m

    def show(self, m):
        out = []
        for n, i in self.index.items():
            b = (m >> (2 * i)) & 3
            if b:
                out.append(n + {1: "", 2: "(newline)", 3: "(*)"}[b] if n not in ("EOF", "ERR") else n)
        if len(out) > 12:
            inv = [n for n, i in self.index.items() if not (m >> (2 * i)) & 3]
            if len(inv) < len(out):
                return "any but {" + " ".join(inv) + "}"
            out = out[:12] + ["..."]
        return "{" + " ".join(out) + "}"

    def partition(self, path):
        """{discriminant: mask} of the enumeration at a path inside a token, None if it is not determined by the class"""
        r = self.cache.get(path, 0)
        if r != 0:
            return r
        r = self._partition(path)
        self.cache[path] = r
        return r

    def _partition(self, path):
        T = self.d.types
        if path == (("f", 0),):
            out = {}
            for v in T[self.tv]["variants"]:
                n = v["n"]
                if n == "Keyword":
                    m = self.masks(lambda x: x.startswith("kw:"))
                elif n == "Punctuator":
                    m = self.masks(lambda x: x.startswith("p:"))
                elif n == "Literal":
                    m = self.masks(lambda x: x in ("String", "Number", "Template", "Regexp"))
                else:
                    m = self.mask(n) if n in self.index else 0
                out[v["d"]] = m
            return out
        if len(path) == 3 and path[0] == ("f", 0) and path[1][0] == "v" and path[2] == ("f", 0):
            n = T[self.tv]["variants"][path[1][1]]["n"]
            if n == "Keyword":
                return {v["d"]: self.mask("kw:" + v["n"]) for v in T[self.kw]["variants"]}
            if n == "Punctuator":
                return {v["d"]: self.mask("p:" + v["n"]) for v in T[self.pu]["variants"]}
            if n == "Literal":
                return {v["d"]: self.mask(v["n"]) if v["n"] in self.index else 0 for v in T[self.lit]["variants"]}
        return None


class Out:
    """Where one side of a segment stops."""
    __slots__ = ("st", "kind", "label", "data", "site", "ctx")

    def __init__(self, st, kind, label, data, site, ctx=None):
        self.st, self.kind, self.label, self.data, self.site, self.ctx = st, kind, label, data, site, ctx


def syn_search(stop):
    """any / all of a slice iterator"""
    return {"locals": 6, "blocks": [
        {"s": [], "t": ["call", {"syn": "next"}, [["c", [1]]], [3], 1], "l": "?"},
        {"s": [], "t": ["switch", ["c", [3, ["f", 0, 0]]], [["0", 4]], 2], "l": "?"},
        {"s": [["=", [4], ["use", ["m", [3, ["f", 1, 0]]]]]], "t": ["call", {"op": ["c", [2]]}, [["m", [4]]], [5], 3], "l": "?"},
        {"s": [], "t": ["switch", ["c", [5]], [["0", 0 if stop else 5]], 5 if stop else 0], "l": "?"},
        {"s": [], "t": ["call", {"syn": "false" if stop else "true"}, [], [0], 6], "l": "?"},
        {"s": [], "t": ["call", {"syn": "true" if stop else "false"}, [], [0], 6], "l": "?"},
        {"s": [], "t": ["ret"], "l": "?"},
    ]}


# functions of the standard library that do nothing but panic
PANICS = re.compile(r"^(core|std)::(panicking::|rt::(panic|begin_panic))|::(unwrap_failed|expect_failed|slice_error_fail(_rt)?|slice_(start_index_len|end_index_len|index_order|start_index_overflow|end_index_overflow)_fail|capacity_overflow|handle_error|panic_already_(mutably_)?borrowed|panic_display|panic_explicit|len_mismatch_fail)(::<.*>)?$")


class Joint(Interp):
    MAXNODES = 40000
    MAXTIME = 240
    MAXTRIES = 150

    def __init__(self, dump, only=None, inline=()):
        super().__init__(dump)
        self.inline = inline
        self.A = Atoms(dump)
        d = dump
        self.token_ty = d.adt("token::Token")
        assert [f[0] for f in d.types[self.token_ty]["variants"][0]["f"]] == ["value", "first_on_line", "span"]
        self.span_ty = d.adt("fajt_ast::Span")
        assert [f[0] for f in d.types[self.span_ty]["variants"][0]["f"]] == ["start", "end"]
        self.expr_ty = d.adt("fajt_ast::Expr")
        self.perr_ty = d.adt("fajt_parser::error::Error")
        self.pkind_ty = d.adt("fajt_parser::error::ErrorKind")
        self.rerr_ty = d.adt("RefError")
        self.parser_ty = [i for i, t in enumerate(d.types) if t.get("def") == "fajt_parser::Parser"]
        self.ref_ty = [i for i, t in enumerate(d.types) if t.get("def", "").endswith("RefParser")]
        self.ctx_ty = [i for i, t in enumerate(d.types) if t.get("def") == "fajt_parser::Context"]
        self.rctx_ty = [i for i, t in enumerate(d.types) if t.get("def", "").endswith("RefContext")]
        self.lexerr_ty = d.adt("fajt_lexer::error::Error")
        self.lexkind_ty = d.adt("fajt_lexer::error::ErrorKind")
        self.find_pairs()
        self.violations = {}
        self.now = ()
        self.nodes_total = 0
        self.edges_total = 0
        self.stats = defaultdict(int)
        self.only = only

    # ------------------------------------------------------------ pairs
    # pairs without a reader; the search for duplicate names (sorting, comparing neighbours) is not looked into
    OPAQUE = ("bound_names", "get_first_duplicate")
    PURE = OPAQUE + ("is_assignment_target_type_simple", "early_errors_unary_delete", "contains_strict", "is_simple",
            "early_errors_getter", "early_errors_setter", "early_errors_method")

    def find_pairs(self):
        impl, ref = defaultdict(list), defaultdict(list)
        for f in self.d.fns:
            if f.blocks is None or f.kind != "item" or not f.nargs or f.closure:
                continue
            if f.crate == "fajt_parser":
                impl[f.name].append(f)
            elif "reference::" in f.path:
                ref[f.name].append(f)
        self.pairs = {}
        for n in ref:
            if (n.startswith("parse_") or n in self.PURE) and len(ref[n]) == 1 and len(impl.get(n, ())) == 1:
                self.pairs[n] = (impl[n][0], ref[n][0])
        for n, ty in (("program", "Program"), ("program_stmt", "Stmt"), ("program_expr", "Expr")):
            c = [f for f in impl["parse"] if f.path == "<fajt_ast::%s as fajt_parser::Parse>::parse" % ty]
            if len(c) != 1 or len(ref[n]) != 1:
                raise Undecided("entry point of the parser for %s not found" % ty)
            self.pairs[n] = (c[0], ref[n][0])
        self.cut_of = {}
        for n, (a, b) in self.pairs.items():
            self.cut_of[a.id] = n
            self.cut_of[b.id] = n

    # ------------------------------------------------------------ tokens
    def tkmask(self, st, name):
        if name == "cur":
            return st.R.cur()
        if name == "peek":
            return st.R.peek()
        return st.con.get(("tkm", name), self.A.ALL)

    def restrict(self, st, name, m):
        s2 = st.copy()
        if name == "cur":
            s2.R = st.R.restrict_cur(m)
        elif name == "peek":
            s2.R = st.R.restrict_peek(m)
        else:
            s2.con = dict(st.con)
            s2.con[("tkm", name)] = st.con.get(("tkm", name), self.A.ALL) & m
        return s2

    def tk_proj(self, v, e):
        return (v[0], v[1], v[2] + (e,))

    def group_split(self, st, name, parts):
        """parts: {group: mask}"""
        have = self.tkmask(st, name)
        live = [(g, m & have) for g, m in parts.items() if m & have]
        if len(live) == 1:
            return [(live[0][0], st)]
        return [(g, self.restrict(st, name, m)) for g, m in live]

    def tk_split(self, st, x, t, keyf, allg):
        name, path = x[1], x[2]
        if x[0] == "tk":
            p = self.A.partition(path)
            if p is not None:
                parts = {}
                for dd, m in p.items():
                    if m:
                        g = keyf(dd)
                        parts[g] = parts.get(g, 0) | m
                return self.group_split(st, name, parts)
            return self.opaque_discr(st, x, t, keyf, allg)
        if x[0] == "tke":
            if path == (("f", 1),) and self.T[t].get("def") == "fajt_lexer::error::ErrorKind":
                out = []
                vs = self.T[t]["variants"]
                eof = [v["d"] for v in vs if v["n"] == "EndOfStream"][0]
                have = self.tkmask(st, name)
                groups = {}
                if have & self.A.EOF:
                    groups.setdefault(keyf(eof), [0, set()])[0] |= self.A.EOF
                if have & self.A.ERR:
                    allowed = st.con.get(x) or frozenset(v["d"] for v in vs if v["d"] != eof)
                    for dd in allowed:
                        g = groups.setdefault(keyf(dd), [0, set()])
                        g[0] |= self.A.ERR
                        g[1].add(dd)
                if len(groups) == 1:
                    return [(next(iter(groups)), st)]
                for g, (m, ds) in groups.items():
                    s2 = self.restrict(st, name, m)
                    if ds:
                        s2.con = dict(s2.con)
                        s2.con[x] = frozenset(ds)
                    out.append((g, s2))
                return out
            return self.opaque_discr(st, x, t, keyf, allg)
        return self.havoc(st, x, allg)

    def opaque_discr(self, st, x, t, keyf, allg):
        return super().split_discr(st, ("l",) + x[1:], t, keyf, allg) if False else self._opaque_discr(st, x, t, keyf, allg)

    def _opaque_discr(self, st, x, t, keyf, allg):
        vs = self.T[t].get("variants")
        if vs is None:
            return self.havoc(st, x, allg)
        allowed = st.con.get(x)
        groups = {}
        for v in vs:
            if allowed is None or v["d"] in allowed:
                groups.setdefault(keyf(v["d"]), set()).add(v["d"])
        if len(groups) == 1:
            return [(next(iter(groups)), st)]
        out = []
        for g, s in groups.items():
            s2 = st.copy()
            s2.con = dict(st.con)
            s2.con[x] = frozenset(s)
            if x[0] == "l":
                s2 = self.use_literal(s2, x)
                if s2 is None:
                    continue
            out.append((g, s2))
        return out

    # ---- contract of expressions: an object or array literal starts with its bracket.  Every production that builds an
    # expression is checked for it, every production that gets one from a callee may use it (induction).
    RESULT = ("parse_arrow_function_expr", "parse_async_arrow_function_expr")      # return arrow functions only: checked and used

    def literal_paths(self):
        if self._lit is None:
            ev = self.T[self.expr_ty]["variants"]
            i = [k for k, v in enumerate(ev) if v["n"] == "Literal"][0]
            inner = ev[i]["f"][0][1]
            fs = [f[0] for f in self.T[inner]["variants"][0]["f"]]
            lt = self.T[inner]["variants"][0]["f"][fs.index("literal")][1]
            lv = {v["n"]: v["d"] for v in self.T[lt]["variants"]}
            self._lit = (ev[i]["d"], (("v", i), ("f", 0), ("f", fs.index("literal"))),
                         {lv["Object"]: self.A.mask("p:BracketOpen"), lv["Array"]: self.A.mask("p:BraceOpen")}, fs.index("literal"))
        return self._lit

    _lit = None

    def use_literal(self, st, x):
        ld, path, masks, _ = self.literal_paths()
        root = ("l", x[1], ())
        if st.con.get(root) != frozenset([ld]) or x[2] not in ((), path):
            return st
        kinds = st.con.get(("l", x[1], path))
        if not kinds or not set(kinds) <= set(masks):
            return st
        sp = st.con.get(("sp", root))
        if sp is None or sp[0][0] != "tk" or sp[0][2] != (("f", 2), ("f", 0)):
            return st
        m = 0
        for k in kinds:
            m |= masks[k]
        s2 = self.restrict(st, sp[0][1], m)
        return s2 if self.tkmask(s2, sp[0][1]) else None

    def check_literal(self, c, st):
        """c: a constructed expression"""
        if self.T[self.expr_ty]["variants"][c[2]]["n"] != "Literal" or c[3][0][0] != "a":
            return True
        ld, path, masks, li = self.literal_paths()
        lit = c[3][0][3][li]
        if lit[0] != "a":
            if lit[0] == "tk" and (lit[2][:1] == (("f", 0),)):
                return True          # the literals of the lexer are strings, numbers, templates and regular expressions
            return False
        m = masks.get(self.T[lit[1]]["variants"][lit[2]]["d"])
        if m is None:
            return True
        sp = self.expr_span(c, st.con)
        return sp is not None and sp[0][0] == "tk" and sp[0][2] == (("f", 2), ("f", 0)) and not self.tkmask(st, sp[0][1]) & ~m

    def split_discr(self, st, x, t, keyf, allg):
        if x[0] in ("tk", "tke"):
            return self.tk_split(st, x, t, keyf, allg)
        if x[0] in ("l",):
            return self._opaque_discr(st, x, t, keyf, allg)
        return self.havoc(st, x, allg)

    def split_value(self, st, v, keyf, allg):
        if v[0] == "tk":
            if v[2] == (("f", 1),):
                parts = {}
                for val, m in ((0, self.A.TOK & ~self.A.NL), (1, self.A.NL)):
                    g = keyf(val)
                    parts[g] = parts.get(g, 0) | m
                return self.group_split(st, v[1], parts)
            return self.split_scalar(st, v, keyf, allg)
        if v[0] in ("r", "b"):
            # an address of a live object: not null, aligned
            return [(keyf(1 << 20), st)]
        return None

    def is_pos(self, v):
        return v[0] == "e" or (v[0] == "tk" and v[2][:1] == (("f", 2),)) or (v[0] == "l" and "span" in v[2]) or \
            (v[0] == "l" and len(v[2]) >= 1 and v[2][-1][0] == "f")

    def split_cmp(self, st, op, a, b, keyf, allg):
        if op in ("Eq", "Ne"):
            a, b = self.norm_pos(a), self.norm_pos(b)
            if a == b:
                return [(keyf(1 if op == "Eq" else 0), st)]
            if self.is_pos(a) and self.is_pos(b):
                x, y = sorted((a, b), key=repr)
                key = ("cmp", x, y)
                return self.split_scalar(st, key, (lambda v: keyf(v)) if op == "Eq" else (lambda v: keyf(1 - v)), allg)
        return None

    def norm_pos(self, v):
        if v[0] == "tk" and v[2] == (("f", 2), ("f", 1)):
            return ("e", v[1]) if isinstance(v[1], int) else v
        return v

    def split_op(self, st, v, keyf, allg):
        if v[1] in ("streq", "empty"):
            return self.split_scalar(st, v, keyf, allg)
        if v[1] == "len":
            return self.split_scalar(st, v, keyf, allg, values=(0, 1, 2, 3, 50))
        if v[1] == "lenp":
            # not remembered: what is known of a length does not outlive the next element
            fact = st.con.get(("op", "len", v[2])) or (0, 1, 2, 3, 50)
            return [(g, st.copy()) for g in dict.fromkeys(keyf(n + v[3]) for n in fact)]
        return None

    def havoc(self, st, v, allg):
        raise Undecided("test on an unknown value %r" % (v,))

    # ------------------------------------------------------------ models
    def find_primitive(self, g):
        p = g.path
        if g.id in self.cut_of:
            n = self.cut_of[g.id]
            if n in self.PURE:
                return Joint.p_pure
            return Joint.p_cut
        m = MODELS.get(p)
        if m is not None:
            return m
        if p.endswith(" as std::clone::Clone>::clone") and "Rc<" not in p:
            return Joint.m_clone
        if p.endswith("as std::string::ToString>::to_string"):
            return Joint.m_tostring
        if p == "<fajt_ast::Expr as fajt_ast::Spanned>::span":
            return Joint.m_span
        if g.name in ("eq", "ne") and ("std::string::String" in p or "&str" in p or "for str" in p) and "PartialEq" in p:
            return Joint.m_streq if g.name == "eq" else Joint.m_strne
        if p.endswith(" as std::ops::Drop>::drop"):
            return Joint.m_unit
        if g.name == "keyword_context" and g.crate == "fajt_parser":
            return Joint.m_kwctx
        if g.name == "is_allowed_as_identifier" and g.crate == "fajt_lexer":
            return Joint.m_allowed
        if p.startswith("fajt_common::io::PeekReader::<T, I>::"):
            raise Undecided("unknown reader function " + p)
        return None

    def stop(self, st, label, site, ctx, data=None):
        self.outs.append(Out(st, "ev", label, data, site, ctx))
        return None

    def dead(self, st):
        return "dead" in st.acts

    def check_dead(self, st, site):
        if "dead" in st.acts:
            self.stop(st, ("read-after-error",), site, None)
            return True
        return False

    def res(self, ctx, ok, v):
        """Result value of the type of the destination"""
        t = ctx["f"].locals[ctx["dest"][0]] if len(ctx["dest"]) == 1 else self.pty(ctx["f"], ctx["dest"])
        return self.mk_res(t, ok, v)

    def mk_res(self, t, ok, v):
        vs = self.T[t]["variants"]
        i = [k for k, x in enumerate(vs) if x["n"] == ("Ok" if ok else "Err")][0]
        return ("a", t, i, (v,), None)

    def p_current(self, st, g, args, site, ctx, name="cur"):
        if self.check_dead(st, site):
            return None
        out = []
        for ok, s2 in self.group_split(st, name, {True: self.A.TOK, False: self.A.EOF | self.A.ERR}):
            if s2 is st:
                s2 = st.copy()
            v = ("r", ("V", ("tk" if ok else "tke", name, ())), ())
            out.append((s2, self.res(ctx, ok, v)))
        return out

    def p_peek(self, st, g, args, site, ctx):
        return self.p_current(st, g, args, site, ctx, "peek")

    def p_position(self, st, g, args, site, ctx):
        return ("e", st.last)

    def p_consume(self, st, g, args, site, ctx):
        if self.check_dead(st, site):
            return None
        out = []
        for ok, s2 in self.group_split(st, "cur", {True: self.A.TOK, False: self.A.EOF | self.A.ERR}):
            if s2 is st:
                s2 = st.copy()
            if ok:
                self.stop(s2, ("consume",), site, ctx)
            else:
                s2.acts = ("dead",)
                out.append((s2, self.res(ctx, False, ("tke", "cur", ()))))
        return out

    def p_rewind(self, st, g, args, site, ctx):
        if self.check_dead(st, site):
            return None
        t = self.deref(st, args[1])
        if t[0] != "tk" or t[2] != ():
            raise Undecided("rewind to %r" % (t,))
        return self.stop(st, ("rewind", t), site, ctx)

    def p_reread(self, st, g, args, site, ctx):
        if self.check_dead(st, site):
            return None
        return self.stop(st, ("reread", self.canon(st, args[1])), site, ctx)

    def p_cut(self, st, g, args, site, ctx):
        if self.check_dead(st, site):
            return None
        name = self.cut_of[g.id]
        if name in self.inline and all(fr[0] != g.id for fr in st.fr):
            return NotImplemented
        p = self.deref(st, args[0])
        side = self.parser_parts(st, p)
        extra = tuple(self.canon(st, a) for a in args[1:])
        # parameters computed from tests are split into constants
        work = [(st, side)]
        for i in range(len(side)):
            nw = []
            for s, sd in work:
                v = sd[i]
                if v[0] == "op":
                    for val, s2 in self.split(s, v, lambda x: x, [0, 1]):
                        nw.append((s2 if s2 is not s else s.copy(), sd[:i] + (K(val),) + sd[i + 1:]))
                else:
                    nw.append((s, sd))
            work = nw
        for s, sd in work:
            self.stop(s, ("call", name), site, ctx, (sd, extra))
        return None

    def parser_parts(self, st, p):
        if p[0] != "a":
            raise Undecided("the receiver of a production is not a parser value: %r" % (p,))
        fs = {f[0]: i for i, f in enumerate(self.T[p[1]]["variants"][0]["f"])}
        c = self.deref(st, p[3][fs["context"]])
        if c[0] != "a":
            raise Undecided("context is not a known value")
        cf = {f[0]: i for i, f in enumerate(self.T[c[1]]["variants"][0]["f"])}
        if set(cf) != set(CTX):
            raise Undecided("fields of the context: %s" % sorted(cf))
        return tuple(self.norm_scalar(st, c[3][cf[n]]) for n in CTX) + (self.canon(st, p[3][fs["source_type"]]),)

    def norm_scalar(self, st, v):
        if v[0] == "l":
            a = st.con.get(v)
            if a is not None and len(a) == 1:
                return K(next(iter(a)))
        return v

    def p_pure(self, st, g, args, site, ctx):
        """Pure function with a counterpart: an uninterpreted term on both sides."""
        name = self.cut_of[g.id]
        term = ("l", ("pf", name) + tuple(self.canon_arg(st, a) for a in args), ())
        t = g.locals[0]
        if self.T[t].get("def", "").endswith("result::Result"):
            out = []
            for ok, s2 in self.split_scalar(st, ("l", term[1], ("res",)), lambda x: x, [0, 1]):
                if s2 is st:
                    s2 = st.copy()
                if ok:
                    et = self.T[t]["args"][0]
                    out.append((s2, self.mk_res(t, True, UNIT if self.T[et]["s"] == "()" else term)))
                else:
                    out.append((s2, self.mk_res(t, False, self.err_value(s2, t, "Other", ("pf",)))))
            return out
        return term

    def canon_arg(self, st, a):
        """Contexts are reduced to the flags (of both sides alike)."""
        v = self.deref(st, a)
        if v[0] == "a" and (v[1] in self.ctx_ty or v[1] in self.rctx_ty):
            cf = {f[0]: i for i, f in enumerate(self.T[v[1]]["variants"][0]["f"])}
            return ("ctx",) + tuple(self.canon(st, v[3][cf[n]]) if n in cf else TOP for n in CTX)
        return self.canon(st, v)

    def err_value(self, st, res_ty, cls, n):
        """An error of the given class; restrictions on opaque parts are put into st.con"""
        et = self.T[res_ty]["args"][1]
        vs = {v["n"]: i for i, v in enumerate(self.T[et].get("variants", []))}
        if et == self.rerr_ty:
            fs = (("l", n, ("arrow",)),) if cls == "Arrow" else ()
            if cls == "Arrow":
                st.con = dict(st.con)
                st.con[("l", n, ("arrow",))] = self.arrow_variant()
            return ("a", et, vs[cls], fs, None)
        if et != self.perr_ty:
            raise Undecided("error type %s" % self.T[et]["s"])
        kt = self.pkind_ty
        kv = {v["n"]: i for i, v in enumerate(self.T[kt]["variants"])}
        order = [f[0] for f in self.T[et]["variants"][0]["f"]]
        span = ("l", n, ("es",))
        if cls == "Arrow":
            st.con = dict(st.con)
            st.con[("l", n, ("arrow",))] = self.arrow_variant()
            kind = ("a", kt, kv["ArrowFunctionNotAllowed"], (("l", n, ("arrow",)),), None)
            span = self.span_of(st, ("l", n, ("arrow",)))
        elif cls == "Init":
            kind = ("a", kt, kv["InitializedNameNotAllowed"], (), None)
        elif cls == "Dots":
            tv = self.A.tv
            pv = [i for i, v in enumerate(self.T[tv]["variants"]) if v["n"] == "Punctuator"][0]
            dots = [i for i, v in enumerate(self.T[self.A.pu]["variants"]) if v["n"] == "TripleDot"][0]
            kind = ("a", kt, kv["UnexpectedToken"], (("a", tv, pv, (("a", self.A.pu, dots, (), None),), None), ("l", n, ("exp",))), None)
        else:
            kind = ("l", n, ("ek",))
            st.con = dict(st.con)
            st.con[kind] = frozenset(v["d"] for v in self.T[kt]["variants"] if v["n"] not in ("ArrowFunctionNotAllowed", "InitializedNameNotAllowed"))
            pv = [i for i, v in enumerate(self.T[self.A.tv]["variants"]) if v["n"] == "Punctuator"][0]
            pu = ("l", n, ("ek", ("v", kv["UnexpectedToken"]), ("f", 0), ("v", pv), ("f", 0)))
            st.con[pu] = frozenset(v["d"] for v in self.T[self.A.pu]["variants"] if v["n"] != "TripleDot")
        parts = {"kind": kind, "span": span}
        return ("a", et, 0, tuple(parts[o] for o in order), None)

    def arrow_variant(self):
        return frozenset(v["d"] for v in self.T[self.expr_ty]["variants"] if v["n"] == "ArrowFunction")

    def span_of(self, st, v):
        """Span of an opaque expression: from its first token to the end of what its production consumed."""
        sp = st.con.get(("sp", v))
        if sp is not None:
            return ("a", self.span_ty, 0, sp, None)
        return ("a", self.span_ty, 0, (("l", v[1], v[2] + ("span", ("f", 0))), ("l", v[1], v[2] + ("span", ("f", 1)))), None)

    def m_span(self, st, g, args, site, ctx):
        v = self.deref(st, args[0])
        while v[0] == "b":
            v = v[1]
        if v[0] == "l":
            return ("r", ("V", self.span_of(st, v)), ())
        return NotImplemented

    def m_clone(self, st, g, args, site, ctx):
        return self.deref1(st, args[0])

    def m_ident(self, st, g, args, site, ctx):
        return args[0]

    def m_tostring(self, st, g, args, site, ctx):
        v = self.canon(st, args[0])
        return v if v[0] == "s" else ("op", "tostr", v)

    def m_toowned(self, st, g, args, site, ctx):
        return self.canon(st, args[0])

    def m_top(self, st, g, args, site, ctx):
        return TOP

    def m_box(self, st, g, args, site, ctx):
        return ("b", args[0])

    def m_uninit(self, st, g, args, site, ctx):
        return ("b", ("t", ()))

    def m_into_vec(self, st, g, args, site, ctx):
        v = args[0]
        while True:
            if v[0] == "b":
                v = v[1]
            elif v[0] == "a" and len(v[3]) == 1:
                v = v[3][0]
            elif v[0] == "t":
                # MaybeUninit { uninit, value }, ManuallyDrop, ... around the array
                if len(v[1]) == 2 and v[1][0][0] == "?":
                    v = v[1][1]
                elif len(v[1]) == 1 and v[1][0][0] == "t":
                    v = v[1][0]
                else:
                    break
            else:
                raise Undecided("vec! of %r" % (v,))
        return ("vec", None, v[1])

    def m_vec_new(self, st, g, args, site, ctx):
        return ("vec", None, ())

    def vec_at(self, st, r):
        """(location, value) of the vector a reference leads to"""
        n = 0
        lv = ("M", r[1], r[2]) if r[1][0] != "V" else ("V", self.projpath(r[1][1], r[2]))
        while n < 8:
            v = self.loadlv(st, lv)
            if v[0] != "r":
                return lv, v
            lv = ("M", v[1], v[2]) if v[1][0] != "V" else ("V", self.projpath(v[1][1], v[2]))
            n += 1
        raise Undecided("reference chain")

    def m_vec_push(self, st, g, args, site, ctx):
        lv, v = self.vec_at(st, args[0])
        if v[0] != "vec" or lv[0] != "M":
            raise Undecided("push to %r" % (v,))
        self.storelv(st, lv, ("vec", v[1], v[2] + (args[1],)))
        return UNIT

    def m_vec_len(self, st, g, args, site, ctx):
        v = self.deref(st, args[0])
        if v[0] == "vec":
            if v[1] is None:
                return K(len(v[2]))
            return ("op", "len", ("vec", v[1], ())) if not v[2] else ("op", "lenp", ("vec", v[1], ()), len(v[2]))
        if v[0] in ("l", "tk"):
            return ("op", "len", v)
        return TOP

    def m_vec_is_empty(self, st, g, args, site, ctx):
        v = self.deref(st, args[0])
        if v[0] == "vec":
            if v[2]:
                return FALSE
            if v[1] is None:
                return TRUE
            v = ("vec", v[1], ())
        if v[0] in ("vec", "l", "tk"):
            return ("op", "Eq", ("op", "len", v), K(0))
        return TOP

    def m_streq(self, st, g, args, site, ctx):
        a, b = self.canon(st, args[0]), self.canon(st, args[1])
        if a[0] == "s" and b[0] == "s":
            return K(int(a[1] == b[1]))
        if a == b:
            return TRUE
        a, b = sorted((a, b), key=repr)
        return ("op", "streq", a, b)

    def m_strne(self, st, g, args, site, ctx):
        return self.unop("Not", self.m_streq(st, g, args, site, ctx))

    def m_unit(self, st, g, args, site, ctx):
        return UNIT

    # -------- iteration over opaque lists: both sides step together
    def m_iter(self, st, g, args, site, ctx):
        v = self.canon(st, args[0])
        if v[0] != "l":
            raise Undecided("iteration over %r" % (v,))
        return ("it", v)

    def synthetic(self, name, spec, nargs):
        for f in self.d.fns:
            if f.path == "synthetic::" + name:
                return f
        f = dm.Fn({"path": "synthetic::" + name, "full": "synthetic::" + name, "crate": "synthetic", "kind": "item", "nargs": nargs,
                   "locals": [0] * spec["locals"], "blocks": spec["blocks"], "closure": False, "loc": "?", "targs": []})
        f.id = len(self.d.fns)
        self.d.fns.append(f)
        return f

    def do_call(self, st, d, f, bb, t, on_event, on_term):
        if "syn" not in t[1]:
            return super().do_call(st, d, f, bb, t, on_event, on_term)
        n = t[1]["syn"]
        if n == "next":
            args = [self.operand(st, d, f, o) for o in t[2]]
            self.m_next(st, f, args, self.chain(st.fr[-1][4], f.id, bb), dict(d=d, f=f, dest=t[3], ret=t[4], syn=True))
            return []
        self.assign(st, d, f, t[3], TRUE if n == "true" else FALSE)
        return [self.goto(st, t[4])]

    def search(self, st, args, site, ctx, name, stop):
        f = self.synthetic(name, syn_search(stop), 2)
        nd = len(st.fr)
        for i, a in enumerate(args):
            st.mem[(nd, i + 1)] = a
        st.fr = st.fr + ((f.id, 0, totuple(ctx["dest"]), ctx["ret"], site),)
        return "ENTER"

    def m_sort(self, st, g, args, site, ctx):
        lv, v = self.vec_at(st, args[0])
        if lv[0] != "M" or v[0] not in ("l", "vec"):
            raise Undecided("sort of %r" % (v,))
        self.storelv(st, lv, ("l", ("sorted", self.canon(st, v)), ()))
        return UNIT

    def m_any(self, st, g, args, site, ctx):
        return self.search(st, args, site, ctx, "any", True)

    def m_all(self, st, g, args, site, ctx):
        return self.search(st, args, site, ctx, "all", False)

    def m_next(self, st, g, args, site, ctx):
        v = self.deref(st, args[0])
        if v[0] != "it":
            raise Undecided("next of %r" % (v,))
        return self.stop(st, ("next", v[1]), site, ctx)

    def m_str_is_empty(self, st, g, args, site, ctx):
        a = self.canon(st, args[0])
        if a[0] == "s":
            return K(int(a[1] == ""))
        return ("op", "streq", ("s", ""), a)

    # -------- identifiers: the tables are computed once, the words are split before the parameters
    def m_kwctx(self, st, g, args, site, ctx):
        c = self.deref(st, args[0])
        if c[0] != "a":
            return NotImplemented
        cf = {f[0]: i for i, f in enumerate(self.T[c[1]]["variants"][0]["f"])}
        return ("op", "kwctx", K(g.id)) + tuple(c[3][cf[n]] for n in CTX)

    def m_allowed(self, st, g, args, site, ctx):
        k, kc = self.deref(st, args[0]), args[1]
        if kc[0] != "op" or kc[1] != "kwctx" or k[0] != "tk":
            return NotImplemented
        flags = kc[3:]
        table = self.kw_table(kc[2][1], g.id)
        out = []
        # group the words by their table
        groups = {}
        for v in self.T[self.A.kw]["variants"]:
            groups.setdefault(table[v["d"]], []).append(v["n"])
        parts = {}
        for t, ws in groups.items():
            m = 0
            for w in ws:
                m |= self.A.mask("kw:" + w)
            parts[t] = m
        for t, s2 in self.group_split(st, k[1], parts):
            deps, tt = t
            for vals, s3 in self.split_flags(s2, [flags[i] for i in deps]):
                s4 = s3.copy()
                out.append((s4, K(tt[vals])))
        return out

    def split_flags(self, st, vs):
        if not vs:
            return [(0, st)]
        out = []
        for x, s2 in self.split(st, vs[0], lambda x: x, [0, 1]):
            for rest, s3 in self.split_flags(s2, vs[1:]):
                out.append((x | (rest << 1), s3))
        # the same result for both values of a flag is merged by the caller's table (deps are the essential flags)
        return out

    def kw_table(self, fctx, fallow):
        """{keyword: (essential flags, truth table)} read off the code of the two functions"""
        key = (fctx, fallow)
        if key in self.kwt:
            return self.kwt[key]
        f, g = self.d.fns[fctx], self.d.fns[fallow]
        cty = self.T[f.locals[1]]["to"]
        order = [x[0] for x in self.T[cty]["variants"][0]["f"]]
        nb = len(CTX)
        # which flags does keyword_context read
        sub = Plain(self.d)
        conds = sub.run_fn(f, [("r", ("V", ("a", cty, 0, tuple(("l", "cx:" + n, ()) for n in order), None)), ())])
        used = sorted({k[1] for con, v in conds for k in con})
        used = [CTX.index(u[3:]) for u in used]
        full = {}
        for v in self.T[self.A.kw]["variants"]:
            kv = [i for i, x in enumerate(self.T[self.A.kw]["variants"]) if x["d"] == v["d"]][0]
            tt = []
            for bits in range(1 << len(used)):
                env = {("l", "cx:" + CTX[used[j]], ()): (bits >> j) & 1 for j in range(len(used))}
                vals = [val for con, val in conds if all(env[k] in c for k, c in con.items())]
                if len(vals) != 1:
                    raise Undecided("keyword_context is not a function of the context")
                r = Plain(self.d).run_fn(g, [("r", ("V", ("a", self.A.kw, kv, (), None)), ()), vals[0]])
                if len(r) != 1 or r[0][1][0] != "k":
                    raise Undecided("is_allowed_as_identifier is not decided by word and context")
                tt.append(r[0][1][1])
            ess = [j for j in range(len(used)) if any(tt[b] != tt[b ^ (1 << j)] for b in range(len(tt)))]
            t2 = []
            for b in range(1 << len(ess)):
                bb = 0
                for i, j in enumerate(ess):
                    if (b >> i) & 1:
                        bb |= 1 << j
                t2.append(tt[bb])
            full[v["d"]] = (tuple(used[j] for j in ess), tuple(t2))
        self.kwt[key] = full
        return full

    kwt = {}

    def leaf(self, st, g, args, site):
        if g.kind == "drop":
            return UNIT
        if g.path.startswith(("core::fmt", "std::fmt")):
            return TOP
        if "precondition_check" in g.path:
            return UNIT
        if g.path in ("std::hint::must_use",):
            return args[0]
        if PANICS.search(g.path):
            return None
        raise Undecided("no model of %s" % g.path)

    # ------------------------------------------------------------ canonical values
    def canon(self, st, v, n=0):
        k = v[0]
        if k == "r":
            return self.canon(st, self.deref(st, v), n + 1)
        if k == "b":
            return self.canon(st, v[1], n + 1)
        if k == "a":
            return ("a", v[1], v[2], tuple(self.canon(st, x, n + 1) for x in v[3]), None)
        if k == "t":
            return ("t", tuple(self.canon(st, x, n + 1) for x in v[1]))
        if k == "vec":
            return ("vec", v[1], tuple(self.canon(st, x, n + 1) for x in v[2]))
        if k == "l":
            return self.norm_scalar(st, v) if isinstance(v[1], str) and v[1].startswith("cx:") else v
        if k == "tk":
            if v[2] == (("f", 2),):
                return ("a", self.span_ty, 0, (("tk", v[1], (("f", 2), ("f", 0))), self.norm_pos(("tk", v[1], (("f", 2), ("f", 1))))), None)
            return self.norm_pos(v)
        if k == "op":
            xs = tuple(self.canon(st, x, n + 1) if isinstance(x, tuple) else x for x in v[2:])
            if v[1] == "Not":
                return self.unop("Not", xs[0])
            if len(xs) == 2 and v[1] in self.CMP or v[1] in ("BitAnd", "BitOr", "BitXor"):
                return self.binop(v[1], xs[0], xs[1])
            return ("op", v[1]) + xs
        return v

    # ------------------------------------------------------------ renaming
    def rename(self, x, mp):
        """Substitutes names everywhere in a nested value."""
        memo = self._memo
        r = memo.get(x)
        if r is not None:
            return r
        r = self._rename(x, mp)
        memo[x] = r
        return r

    def _rename(self, x, mp):
        if not x:
            return x
        t = x[0]
        if t == "s" or t == "k" or t == "fn":
            return x
        if t in ("l", "tk", "tke", "e", "tkm", "vec"):
            nm = x[1]
            if isinstance(nm, tuple):
                nm = self.rename(nm, mp)
            else:
                nm = mp.get(nm, nm)
            if t == "vec":
                return (t, nm, tuple(self.rename(y, mp) for y in x[2]))
            if nm is x[1]:
                return x
            return (t, nm) + x[2:]
        ch = False
        out = []
        for y in x:
            if isinstance(y, tuple):
                z = self.rename(y, mp)
                if z is not y:
                    ch = True
                out.append(z)
            else:
                out.append(y)
        return tuple(out) if ch else x

    def rename_state(self, mem, mp):
        self._memo = {}
        return {r: self.rename(v, mp) for r, v in mem.items()}

    def rename_con(self, con, mp):
        self._memo = {}
        return {self.rename(k, mp): (self.rename(v, mp) if isinstance(v, tuple) else v) for k, v in con.items()}

    def collect(self, x, out, order=None):
        """names in a nested value, in order; out: {name: used as more than a position}"""
        if not x:
            return
        t = x[0]
        if t in ("s", "k", "fn"):
            return
        if t in ("l", "tk", "tke", "e", "tkm", "vec"):
            nm = x[1]
            if isinstance(nm, tuple):
                self.collect(nm, out)
            elif nm is not None:
                pos = t == "e" or (t == "tk" and x[2][:1] == (("f", 2),))
                if nm not in out:
                    out[nm] = not pos
                elif not pos:
                    out[nm] = True
            if t == "vec":
                for y in x[2]:
                    self.collect(y, out)
            return
        for y in x:
            if isinstance(y, tuple):
                self.collect(y, out)


    # ------------------------------------------------------------ the product
    def reset(self):
        self.nodes = {}          # key -> Node
        self.work = []
        self.requests = {}
        self.edges = defaultdict(set)
        self.entries = {}
        self.t0 = time.time()
        self.outs = []

    def key(self, st):
        self.prune(st)
        return (st.fr, frozenset(st.mem.items()), frozenset(st.con.items()), st.acts, st.last)

    def names_of(self, v):
        r = self.nm_memo.get(v)
        if r is None:
            o = {}
            self.collect(v, o)
            r = self.nm_memo[v] = o
        return r

    def alive(self, mem, out):
        for v in mem.values():
            for n, nonpos in self.names_of(v).items():
                if nonpos or n not in out:
                    out[n] = nonpos

    def prune(self, st):
        if not st.con:
            return
        al = dict(self.other_names)
        self.alive(st.mem, al)
        st.con = self.prune_con(st.con, al)

    def prune_con(self, con, al):
        """al: {name: used as a value}; facts about dead names are dropped"""
        out = {}
        todo = []
        for k, v in con.items():
            if k[0] in ("sp", "entry"):
                todo.append((k, v))
                continue
            self.keep_con(k, v, al, out)
        if todo:
            al = dict(al)
            ch = True
            while ch and todo:
                ch = False
                rest = []
                for k, v in todo:
                    if all(isinstance(n, str) or n in al for n in self.names_of(k)):
                        out[k] = v
                        for n in self.names_of(v):
                            al.setdefault(n, False)
                        ch = True
                    else:
                        rest.append((k, v))
                todo = rest
        return out

    def keep_con(self, k, v, al, out):
        if k[0] == "tkm":
            if k[1] in al:
                out[k] = v
        elif all(isinstance(n, str) or n in al for n in self.names_of(k)):
            out[k] = v

    # ---- entries
    def make_args(self, f, side):
        mem = {}
        for i in range(f.nargs):
            t = f.locals[i + 1]
            mem[(0, i + 1)] = self.make_arg(t, i, mem, side)
        return mem

    def make_ctx(self, t):
        fs = [x[0] for x in self.T[t]["variants"][0]["f"]]
        for n in fs:
            if n not in CTX:
                raise Undecided("unknown context flag %s" % n)
        return ("a", t, 0, tuple(("l", "cx:" + n, ()) for n in fs), None)

    def make_arg(self, t, i, mem, side):
        ty = self.T[t]
        if ty["k"] == "ref":
            to = ty["to"]
            if to in self.parser_ty or to in self.ref_ty:
                mem[("self", i)] = self.make_parser(to)
                return ("r", ("self", i), ())
            return ("r", ("V", self.make_arg(to, i, mem, side)), ())
        if t in self.parser_ty or t in self.ref_ty:
            return self.make_parser(t)
        if t in self.ctx_ty or t in self.rctx_ty:
            return self.make_ctx(t)
        return ("l", "arg%d" % i, ())

    def make_parser(self, t):
        out = []
        for n, ft in self.T[t]["variants"][0]["f"]:
            if n == "context":
                out.append(self.make_ctx(ft))
            elif n == "reader":
                out.append(("r", ("V", ("l", "reader", ())), ()))
            elif n == "source_type":
                out.append(("l", "source_type", ()))
            else:
                raise Undecided("unknown field %s of the parser" % n)
        return ("a", t, 0, tuple(out), None)

    def entry(self, name, R, con=None):
        f, g = self.pairs[name]
        self.requests[name] = R if name not in self.requests else self.requests[name] | R
        if self.only is not None and name not in self.only:
            return
        si = St(((f.id, 0, None, None, 0),), self.make_args(f, "i"), {}, (), R, "in")
        sr = St(((g.id, 0, None, None, 0),), self.make_args(g, "r"), {}, (), R, "in")
        con = dict(con or {})
        ret = self.T[f.locals[0]]
        if ret.get("def", "").endswith("result::Result") and ret["args"][0] == self.expr_ty and name not in self.PURE:
            con[("entry",)] = ("tk", "cur", (("f", 2), ("f", 0)))
        nd = self.add_node(name, si, sr, con, R, "in", None)
        self.entries[name] = nd.n

    # ---- nodes
    def add_node(self, name, si, sr, con, R, last, parent):
        mem_i = mem_r = None
        if isinstance(si, St):
            self.gc(si)
            mem_i = si.mem
        if isinstance(sr, St):
            self.gc(sr)
            mem_r = sr.mem
        con = dict(con)
        self.cur_R = R
        mem_i, mem_r = self.generalise(name, mem_i, mem_r, con)
        # canonical names
        order = {}
        for mem in (mem_i, mem_r):
            if mem is None:
                continue
            for root in sorted(mem, key=repr):
                for n, nonpos in self.names_of(mem[root]).items():
                    if nonpos or n not in order:
                        order[n] = nonpos
        if not isinstance(last, str):
            order.setdefault(last, False)
        con = self.prune_con(con, order)
        for k in sorted((k for k in con if k[0] in ("sp", "entry")), key=repr):
            for n in self.names_of(con[k]):
                order.setdefault(n, False)
        mp = {}
        for n in order:
            if not isinstance(n, str):
                mp[n] = len(mp)
        if mem_i is not None:
            mem_i = self.rename_state(mem_i, mp)
        if mem_r is not None:
            mem_r = self.rename_state(mem_r, mp)
        con = self.rename_con(con, mp)
        last = mp.get(last, last)
        masks = {k: v for k, v in con.items() if k[0] == "tkm"}
        hard = {k: v for k, v in con.items() if k[0] != "tkm"}
        ki = (si.fr, frozenset(mem_i.items()), si.acts) if mem_i is not None else si
        kr = (sr.fr, frozenset(mem_r.items()), sr.acts) if mem_r is not None else sr
        key = (name, ki, kr, frozenset(hard.items()), last)
        nd = self.nodes.get(key)
        if nd is None:
            nd = Node()
            nd.name, nd.key, nd.parent = name, key, parent
            nd.i = (si.fr, mem_i, si.acts) if mem_i is not None else si
            nd.r = (sr.fr, mem_r, sr.acts) if mem_r is not None else sr
            nd.con, nd.last, nd.R, nd.masks = hard, last, R, masks
            nd.queued = True
            nd.n = len(self.nodes)
            self.nodes[key] = nd
            self.work.append(nd)
            self.per_fn[name] += 1
            if self.per_fn[name] > self.MAXNODES:
                raise Budget("%s: too many product states" % name)
        else:
            R2 = nd.R | R
            m2 = {}
            for k in set(nd.masks) & set(masks):
                m2[k] = nd.masks[k] | masks[k]
            if R2 != nd.R or m2 != nd.masks:
                nd.R, nd.masks = R2, m2
                if not nd.queued:
                    nd.queued = True
                    self.work.append(nd)
        return nd

    def on_cycle(self, st):
        self.outs.append(Out(st, "term", "loop", None, self.chain(st.fr[-1][4], st.fr[-1][0], st.fr[-1][1])))

    def run_side(self, st, other):
        self.outs = outs = []
        self.other_names = other

        def on_term(s, kind, v, site):
            outs.append(Out(s, "term", kind, v, site))
        self.run_segment(st, None, on_term)
        # states that differ in the tokens only are one
        if len(outs) > 1:
            seen = {}
            for o in outs:
                k = (o.kind, o.label, o.site, o.data, self.key(o.st))
                old = seen.get(k)
                if old is None:
                    seen[k] = o
                else:
                    o2 = self.with_con(old.st, old.st.con, old.st.R | o.st.R)
                    seen[k] = Out(o2, o.kind, o.label, o.data, o.site, o.ctx)
            outs = list(seen.values())
        return outs

    def state(self, part, con, R, last):
        fr, mem, acts = part
        return St(fr, dict(mem), con, acts, R, last)

    def process(self, nd):
        con = dict(nd.con)
        con.update(nd.masks)
        ni, nr = {}, {}
        if nd.i[0] != "done":
            self.alive(nd.i[1], ni)
        if nd.r[0] != "done":
            self.alive(nd.r[1], nr)
        self.stats["processed"] += 1
        if nd.i[0] == "done":
            for o in self.run_side(self.state(nd.r, con, nd.R, nd.last), {}):
                self.solo(nd, o, "r", nd.i)
            return
        outs = self.run_side(self.state(nd.i, con, nd.R, nd.last), nr)
        if nd.r[0] == "done":
            for o in outs:
                self.error_kind(nd, o)
                self.solo(nd, o, "i", nd.r)
            return
        for oi in outs:
            if oi.kind == "term" and oi.label == "loop":
                self.viol(nd, "loop", oi, None, "repeats itself for ever", self.cond(oi.st))
                continue
            if oi.kind == "term" and oi.label == "panic":
                self.viol(nd, "panic", oi, None, "may panic: %s" % (oi.data[1],), self.cond(oi.st))
                continue
            self.error_kind(nd, oi)
            ni2 = {}
            self.alive(oi.st.mem, ni2)
            for orr in self.run_side(self.state(nd.r, oi.st.con, oi.st.R, nd.last), ni2):
                self.match(nd, oi, orr)

    def cond(self, st):
        bits = []
        for k, v in sorted(st.con.items(), key=repr):
            if k[0] == "l" and isinstance(k[1], str) and k[1].startswith("cx:") and isinstance(v, frozenset) and len(v) == 1:
                bits.append(("" if next(iter(v)) else "!") + k[1][3:])
        return "current %s, next %s%s" % (self.A.show(st.R.cur()), self.A.show(st.R.peek()), (" [" + " ".join(bits) + "]") if bits else "")

    def via(self, nd):
        """the events since one side failed"""
        out = []
        while nd is not None and (nd.i[0] == "done" or nd.r[0] == "done") and nd.parent:
            out.append(nd.parent[1])
            nd = nd.parent[0]
        return " ".join(reversed(out))

    def viol(self, nd, kind, oi, orr, what, cond, detail=None, loc=None):
        key = "%s:%s:%s" % (nd.name, kind, detail or what)
        if key in self.violations:
            return
        loc = loc or (self.site_loc(oi.site) if oi is not None and oi.site else None)
        rloc = self.site_loc(orr.site) if orr is not None and orr.site else None
        trace = []
        p = nd
        while p is not None and len(trace) < 12:
            if p.parent:
                trace.append(p.parent[1])
                p = p.parent[0]
            else:
                p = None
        st = (oi or orr).st if (oi or orr) is not None else None
        marked = any(isinstance(c, Cls) for c in self.now + tuple(x[1] for x in (nd.i, nd.r) if x[0] == "done"))
        self.violations[key] = dict(key=key, kind=kind, fn=nd.name, loc=loc, labels=[self.lab(o) for o in (oi, orr) if o is not None and o.kind == "ev" and o.label[0] == "call"],
                                    flags=self.vflags(orr.st if orr is not None else st, oi.st if oi is not None else st) + ["reserved"] * marked, detail=detail or what, what="%s: %s; at %s; after [%s]%s" % (
            nd.name, what, cond, ", ".join(reversed(trace)), (" (reference: %s)" % (rloc,)) if rloc else ""), cond=cond)

    def vflags(self, *sts):
        """what the condition of a violation depends on"""
        out = set()
        for st in sts:
            if st is None:
                continue
            A = self.A
            for m in (st.R.cur(), st.R.peek()):
                t = m & A.TOK
                a, b = t & ~A.NL, (t & A.NL) >> 1
                if a != b and t:
                    out.add("newline")
                if m & (A.EOF | A.ERR):
                    if not t:
                        out.add("eof" if not m & A.ERR else "lexerr")
                if t and not t & ~A.mask("p:SemiColon"):
                    out.add("semicolon")
            for k, v in st.con.items():
                if k[0] == "l" and isinstance(k[1], str) and k[1].startswith("cx:"):
                    out.add(k[1][3:])
                if k[0] == "l" and k[1] == "source_type":
                    out.add("source_type")
                if k[0] == "l" and isinstance(k[1], tuple) and k[1][:1] == ("pf",):
                    out.add("semantics")
        return sorted(out)

    def lab(self, o):
        if o.kind == "term":
            return "return"
        return "%s" % (o.label[1] if o.label[0] == "call" else o.label[0],)

    # ---- terminals
    def classify(self, st, v):
        """[(class, data, state)] of a returned value"""
        if v[0] != "a" or not self.T[v[1]].get("def", "").endswith("result::Result"):
            return [("val", v, st)]
        if self.T[v[1]]["variants"][v[2]]["n"] == "Ok":
            return [("Ok", v[3][0], st)]
        e = self.deref(st, v[3][0])
        if e[0] != "a":
            raise Undecided("error value %r" % (e,))
        if e[1] == self.rerr_ty:
            n = self.T[e[1]]["variants"][e[2]]["n"]
            return [(RESERVED if n == "Reserved" else n, e[3][0] if n == "Arrow" else None, st)]
        fs = {f[0]: i for i, f in enumerate(self.T[e[1]]["variants"][0]["f"])}
        k = e[3][fs["kind"]]
        if k[0] == "a":
            n = self.T[k[1]]["variants"][k[2]]["n"]
            if n == "ArrowFunctionNotAllowed":
                return [("Arrow", (k[3][0], e[3][fs["span"]]), st)]
            if n == "InitializedNameNotAllowed":
                return [("Init", None, st)]
            if n == "UnexpectedToken":
                t = k[3][0]
                return self.dots(st, t)
            return [(RESERVED if n == "ForbiddenIdentifier" else "Other", None, st)]
        if k[0] == "l":
            out = []
            names = {v["d"]: v["n"] for v in self.T[self.pkind_ty]["variants"]}
            al = st.con.get(k) or frozenset(names)
            rest = set()
            for dd in al:
                if names[dd] in ("ArrowFunctionNotAllowed", "InitializedNameNotAllowed"):
                    raise Undecided("unclassified error")
                rest.add(dd)
            return [("Other", None, st)]
        raise Undecided("error kind %r" % (k,))

    def error_kind(self, nd, o):
        """A lexical error is not reported as the end of the source."""
        if o.kind != "term" or o.label != "ret":
            return
        v = o.data
        if v[0] != "a" or not self.T[v[1]].get("def", "").endswith("result::Result") or self.T[v[1]]["variants"][v[2]]["n"] != "Err":
            return
        e = self.deref(o.st, v[3][0])
        if e[0] != "a" or self.T[e[1]].get("def") != "fajt_parser::error::Error":
            return
        k = e[3][{f[0]: i for i, f in enumerate(self.T[e[1]]["variants"][0]["f"])}["kind"]]
        if k[0] == "a" and self.T[k[1]]["variants"][k[2]]["n"] == "EndOfStream" and o.st.R.cur() & self.A.ERR:
            st = o.st.copy()
            st.R = st.R.restrict_cur(self.A.ERR)
            self.viol(nd, "accept", o, None, "a lexical error is reported as the end of the source", self.cond(st))

    def dots(self, st, t):
        if t[0] == "tk":
            m = self.A.mask("p:TripleDot")
            return [("Dots" if g else "Other", None, s) for g, s in self.group_split(st, t[1], {True: m, False: self.A.TOK & ~m})]
        if t[0] == "a":
            if self.T[t[1]]["variants"][t[2]]["n"] == "Punctuator":
                p = t[3][0]
                if p[0] == "a":
                    return [("Dots" if self.T[p[1]]["variants"][p[2]]["n"] == "TripleDot" else "Other", None, st)]
                if p[0] == "tk":
                    return self.dots(st, ("tk", p[1], ()))
                raise Undecided("error token %r" % (t,))
            return [("Other", None, st)]
        if t[0] == "l":
            return [("Other", None, st)]
        raise Undecided("error token %r" % (t,))

    # ---- matching
    def match(self, nd, oi, orr):
        con, R = orr.st.con, orr.st.R
        si = oi.st.copy()
        si.con, si.R = con, R
        sr = orr.st
        if orr.kind == "term" and orr.label in ("panic", "loop"):
            raise Undecided("the reference panics in %s" % nd.name)
        for o in (oi, orr):
            if o.kind == "ev" and o.label[0] == "read-after-error":
                self.viol(nd, "event", oi, orr, "the reader is used after a lexical error", self.cond(sr))
                return
        if oi.kind == "term" and orr.kind == "term":
            for ci, di, s2 in self.classify(si, oi.data):
                sr2 = sr.copy()
                sr2.con, sr2.R = s2.con, s2.R
                for cr, dr, s3 in self.classify(sr2, orr.data):
                    s4 = s2.copy()
                    s4.con, s4.R = s3.con, s3.R
                    self.now = (ci, cr)
                    self.match_ret(nd, oi, orr, ci, di, s4, cr, dr, s3)
                    self.now = ()
            return
        if oi.kind == "term":
            for ci, di, s2 in self.classify(si, oi.data):
                sr2 = sr.copy()
                sr2.con, sr2.R = s2.con, s2.R
                if orr.label[0] == "next" and ci in ("Ok", "val"):
                    self.advance(nd, ("done", ci, self.site_loc(oi.site), self.canon(s2, di)), Out(sr2, "ev", orr.label, orr.data, orr.site, orr.ctx), s2.con, s2.R, oi)
                elif ci in ("Ok", "val", "Arrow"):
                    self.viol(nd, "event", oi, orr, "returns (%s) where the grammar continues with %s" % (ci, self.lab(orr)), self.cond(s2))
                else:
                    self.advance(nd, ("done", ci, self.site_loc(oi.site)), Out(sr2, "ev", orr.label, orr.data, orr.site, orr.ctx), s2.con, s2.R, oi)
            return
        if orr.kind == "term":
            for cr, dr, s2 in self.classify(sr, orr.data):
                si2 = si.copy()
                si2.con, si2.R = s2.con, s2.R
                if oi.label[0] == "next" and cr in ("Ok", "val"):
                    self.advance(nd, Out(si2, "ev", oi.label, oi.data, oi.site, oi.ctx), ("done", cr, self.site_loc(orr.site), self.canon(s2, dr)), s2.con, s2.R, oi)
                elif cr in ("Ok", "val", "Arrow"):
                    self.viol(nd, "event", oi, orr, "continues with %s where the grammar ends (%s)" % (self.lab(oi), cr), self.cond(s2))
                else:
                    self.advance(nd, Out(si2, "ev", oi.label, oi.data, oi.site, oi.ctx), ("done", cr, self.site_loc(orr.site)), s2.con, s2.R, oi)
            return
        if oi.label != orr.label:
            fi, fr = self.fates(oi, "i", con, R), self.fates(orr, "r", con, R)
            if fi == fr and len(fi) == 1 and not fi & {"Ok", "Arrow"}:
                self.stats["fates"] += 1
                return
            self.viol(nd, "event", oi, orr, "does %s where the grammar has %s" % (self.lab(oi), self.lab(orr)), self.cond(sr))
            return
        if oi.label[0] == "call":
            if not self.same_call(nd, oi, orr, si, sr):
                return
        self.advance(nd, Out(si, "ev", oi.label, oi.data, oi.site, oi.ctx), Out(sr, "ev", orr.label, orr.data, orr.site, orr.ctx), con, R, oi)

    def same_call(self, nd, oi, orr, si, sr):
        (ba, xa), (bb, xb) = oi.data, orr.data
        ok = True
        for i, n in enumerate(CTX + ("source_type",)):
            a, b = self.norm_scalar(sr, ba[i]), self.norm_scalar(sr, bb[i])
            if a != b:
                self.viol(nd, "ctx", oi, orr, "calls %s with %s = %s, the grammar has %s" % (oi.label[1], n, self.sh(a), self.sh(b)), self.cond(sr),
                          "%s:%s" % (oi.label[1], n))
                ok = False
        if len(xa) != len(xb):
            raise Undecided("arguments of %s" % oi.label[1])
        for a, b in zip(xa, xb):
            if not self.eq(sr, a, b):
                self.viol(nd, "arg", oi, orr, "calls %s with %s, the grammar has %s" % (oi.label[1], self.sh(a), self.sh(b)), self.cond(sr))
                ok = False
        return ok

    def sh(self, v, n=0):
        k = v[0]
        if k == "k":
            return str(v[1])
        if k == "a":
            t = self.T[v[1]]
            nm = t["variants"][v[2]]["n"]
            if n > 3:
                return nm
            return nm + ("(" + ", ".join(self.sh(x, n + 1) for x in v[3]) + ")" if v[3] else "")
        if k == "l":
            return "%s" % (v[1] if isinstance(v[1], str) else "r%s" % (v[1],)) + "".join("." + str(e[1] if isinstance(e, tuple) else e) for e in v[2])
        if k == "vec":
            return "[%s%s]" % ("..%s " % v[1] if v[1] is not None else "", ", ".join(self.sh(x, n + 1) for x in v[2]))
        return str(v)[:120]

    def eq(self, st, a, b, path=(), diffs=None):
        """structural equality; differences are collected as (path, a, b, inside a span)"""
        top = diffs is None
        if top:
            diffs = []
        self._eq(st, a, b, path, diffs, False)
        return not diffs if top else None

    def _eq(self, st, a, b, path, diffs, span):
        if a == b:
            if "?" == a[0]:
                diffs.append((path, a, b, span))
            return
        if a[0] == "a" and b[0] == "a" and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
            sp = span or a[1] == self.span_ty
            fs = self.T[a[1]]["variants"][a[2]]["f"]
            for i, (x, y) in enumerate(zip(a[3], b[3])):
                self._eq(st, x, y, path + ((self.T[a[1]]["variants"][a[2]]["n"], fs[i][0]),), diffs, sp)
            return
        if a[0] == "t" and b[0] == "t" and len(a[1]) == len(b[1]):
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                self._eq(st, x, y, path + (("", i),), diffs, span)
            return
        if a[0] == "vec" and b[0] == "vec" and a[1] == b[1] and len(a[2]) == len(b[2]):
            for i, (x, y) in enumerate(zip(a[2], b[2])):
                self._eq(st, x, y, path + (("", i),), diffs, span)
            return
        for x, y in ((a, b), (b, a)):
            if x[0] == "a" and not x[3] and y[0] in ("l", "tk"):
                dd = self.T[x[1]]["variants"][x[2]]["d"]
                if y[0] == "l" and st.con.get(y) == frozenset([dd]):
                    return
                if y[0] == "tk":
                    p = self.A.partition(y[2])
                    if p is not None and not self.tkmask(st, y[1]) & ~p.get(dd, 0):
                        return
            if x[0] == "k" and y[0] == "l" and st.con.get(y) == frozenset([x[1]]):
                return
            if x[0] == "a" and x[3] and y[0] in ("l", "tk"):
                # an opaque structure against its reconstruction
                t = self.T[x[1]]
                dd = t["variants"][x[2]]["d"]
                if len(t["variants"]) > 1:
                    known = None
                    if y[0] == "l":
                        known = st.con.get(y) == frozenset([dd])
                    else:
                        p = self.A.partition(y[2])
                        known = p is not None and not self.tkmask(st, y[1]) & ~p.get(dd, 0) or st.con.get(y) == frozenset([dd])
                    if not known:
                        break
                    y2 = self.proj(y, ("v", x[2]))
                else:
                    y2 = y
                for i, fx in enumerate(x[3]):
                    fy = self.canon(st, self.proj(y2, ("f", i)))
                    self._eq(st, fx, fy, path + ((t["variants"][x[2]]["n"], t["variants"][x[2]]["f"][i][0]),), diffs, span or x[1] == self.span_ty)
                return
        diffs.append((path, a, b, span or (a[0] == "a" and a[1] == self.span_ty) or (b[0] == "a" and b[1] == self.span_ty)))

    def match_ret(self, nd, oi, orr, ci, di, si, cr, dr, sr):
        if ci != cr:
            w = "%s where the grammar has %s" % (self.cls_text(ci), self.cls_text(cr))
            self.viol(nd, "accept", oi, orr, w, self.cond(sr))
            return
        self.stats["terminals"] += 1
        if ci in ("Ok", "val", "Arrow"):
            self.edges[nd.n].add(("ret", -1))
        if ci in ("Ok", "val", "Arrow"):
            if ci == "Arrow":
                x, xspan = di
                a, b = self.canon(si, x), self.canon(sr, dr)
            else:
                a, b = self.canon(si, di), self.canon(sr, dr)
            if ci == "Arrow" or nd.name in self.RESULT:
                if not (b[0] == "a" and self.T[b[1]]["variants"][b[2]]["d"] in self.arrow_variant() or b[0] == "l" and sr.con.get(b) == self.arrow_variant()):
                    raise Undecided("an arrow function error without an arrow function in %s" % nd.name)
            op = self.find_op(a) or self.find_op(b)
            if op is not None:
                # a truth value that depends on tests: both outcomes
                for val, s2 in self.split(sr, op, lambda x: x, [0, 1]):
                    si2, sr2 = si.copy(), sr.copy()
                    si2.con = sr2.con = s2.con
                    si2.R = sr2.R = s2.R

                    def sub(x, val=val):
                        return K(val) if x == op else (x if x[0] == "op" else self.walk(x, sub))
                    d1, d2 = sub(a), sub(b)
                    self.match_ret(nd, oi, orr, ci, (d1, di[1]) if ci == "Arrow" else d1, si2, cr, d2, sr2)
                return
            for c in (a, b):
                if c[0] == "a" and c[1] == self.expr_ty and not self.check_literal(c, sr):
                    raise Undecided("a literal of %s does not start with its bracket" % nd.name)
            diffs = []
            self._eq(sr, a, b, (), diffs, False)
            if ci == "Ok":
                self.whole_span(nd, oi, orr, a, sr)
            for p, x, y, span in diffs:
                where = ".".join("%s.%s" % q if q[0] else str(q[1]) for q in p)
                if "?" in (x[0], y[0]):
                    raise Undecided("unknown value at %s of the result of %s" % (where, nd.name))
                self.viol(nd, "span" if span else "value", oi, orr, "result differs at %s: %s, the grammar has %s" % (where or "top", self.sh(x), self.sh(y)), self.cond(sr),
                          where)

    def whole_span(self, nd, oi, orr, a, st):
        """An expression spans what its production consumed (used for results of callees)."""
        start = st.con.get(("entry",))
        if start is None or a[0] not in ("a", "l") or a[0] == "l" and a[2] == ("arrow",):
            return           # (an arrow function of a nested production: its start has been compared with the start)
        if start[1] == "cur" and st.R.cur() & (self.A.EOF | self.A.ERR):
            raise Undecided("%s may succeed without a token" % nd.name)
        sp = self.expr_span(a, st.con) if a[0] == "a" else st.con.get(("sp", a))
        if sp is None or sp[0] != start or self.norm_pos(sp[1]) != ("e", st.last):
            self.viol(nd, "span", oi, orr, "the span of the result is %s..%s, not %s..%s" % (tuple(self.sh(x) for x in sp or (("s", "?"), ("s", "?"))) + (self.sh(start), self.sh(("e", st.last)))), self.cond(st), "whole")

    def find_op(self, v):
        """a test inside a result value"""
        if v[0] == "op":
            return v if v[1] in self.CMP or v[1] in ("Not", "BitAnd", "BitOr", "BitXor", "streq") else None
        r = []

        def f(x):
            if not r:
                y = self.find_op(x)
                if y is not None:
                    r.append(y)
            return x
        self.walk(v, f)
        return r[0] if r else None

    def cls_text(self, c):
        return {"Ok": "accepts", "Other": "is a syntax error", "Dots": "error at `...`", "Arrow": "arrow function error", "Init": "initialized name error", "val": "returns"}[c]

    # ---- one-sided continuation: one side has failed, the other has to fail in the same way whatever follows
    def solo(self, nd, o, side, done):
        if o.kind == "term":
            if o.label == "loop":
                if side == "i":
                    self.viol(nd, "loop", o, None, "repeats itself for ever", self.cond(o.st))
                    return
                raise Undecided("the reference loops in %s" % nd.name)
            if o.label == "panic":
                if side == "i":
                    self.viol(nd, "panic", o, None, "may panic: %s" % (o.data[1],), self.cond(o.st))
                    return
                raise Undecided("the reference panics in %s" % nd.name)
            for c, dta, s2 in self.classify(o.st, o.data):
                if c == done[1] and len(done) > 3:
                    x = self.canon(s2, dta)
                    vals = [x]
                    if x[0] == "op":
                        vals = [K(b) for b, _ in self.split(s2, x, lambda b: b, [0, 1])]
                    for x in vals:
                        if x == done[3]:
                            continue
                        self.viol(nd, "value", o if side == "i" else None, o if side == "r" else None, "result differs: %s on one side, %s on the other" % (self.sh(x), self.sh(done[3])), self.cond(s2))
                elif c != done[1]:
                    self.now = (c,)
                    me, other = (c, done[1]) if side == "i" else (done[1], c)
                    w = "%s where the grammar has %s" % (self.cls_text(me), self.cls_text(other))
                    self.viol(nd, "accept", o if side == "i" else None, o if side == "r" else None, w, self.cond(s2),
                              w + " @" + self.via(nd), loc=done[2] if side == "r" else None)
                    self.now = ()
            return
        if o.label[0] == "read-after-error":
            self.viol(nd, "event", o, None, "the reader is used after a lexical error", self.cond(o.st))
            return
        if side == "i":
            self.advance(nd, o, done, o.st.con, o.st.R, o)
        else:
            self.advance(nd, done, o, o.st.con, o.st.R, o)

    # ---- successors
    def advance(self, nd, oi, orr, con, R, o):
        """oi, orr: Out or ("done", class)"""
        # truth values inside structures are decided when the structure is kept
        for x in (oi, orr):
            if isinstance(x, Out):
                op = self.kept_op(x.st)
                if op is not None:
                    for val, s2 in self.split(self.with_con(x.st, con, R), op, lambda x: x, [0, 1]):
                        self.advance(nd, self.sub_out(oi, op, val), self.sub_out(orr, op, val), s2.con, s2.R, o)
                    return
        ev = next(x for x in (oi, orr) if isinstance(x, Out))
        kind = ev.label[0]
        self.stats["events"] += 1
        used = [n for n in self.all_names(con, oi, orr) if isinstance(n, int)]
        n = max(used, default=-1) + 1
        m = n + 1
        par = (nd, ev.label[1] if kind == "call" else kind)
        if kind == "consume":
            mp = {"cur": n, "peek": "cur"}
            con2 = self.rename_con(con, mp)
            con2[("tkm", n)] = R.cur() & self.A.TOK
            R2 = Rel([(R.peek(), self.A.ALL)])
            self.succ(nd, oi, orr, mp, con2, R2, n, lambda st, ctx: self.res(ctx, True, ("tk", n, ())), par)
        elif kind == "rewind":
            t = ev.label[1]
            mp = {"cur": n, "peek": m}
            con2 = self.rename_con(con, mp)
            mask = self.tkmask(ev.st, t[1]) & self.A.TOK
            con2[("tkm", n)] = R.cur() & self.A.TOK
            con2[("tkm", m)] = R.peek() & self.A.TOK
            R2 = Rel([(mask, self.A.ALL)])
            self.succ(nd, oi, orr, mp, con2, R2, nd_last(nd), lambda st, ctx: self.res(ctx, True, UNIT), par)
        elif kind == "reread":
            mp = {"cur": n, "peek": m}
            con2 = self.rename_con(con, mp)
            con2[("tkm", n)] = R.cur() & self.A.TOK
            con2[("tkm", m)] = R.peek() & self.A.TOK
            if con.get(("entry",), ("", ""))[1] == "cur":
                con2[("entry",)] = con[("entry",)]      # the token that is read again starts where the old one did
            R2 = self.reread(R, ev.label[1])
            self.succ(nd, oi, orr, mp, con2, R2, nd_last(nd), lambda st, ctx: self.res(ctx, True, UNIT), par)
        elif kind == "next":
            for some in (True, False):
                def val(st, ctx, some=some):
                    if ctx.get("syn"):
                        return ("t", (K(int(some)), ("r", ("V", ("l", n, ())), ()) if some else UNIT))
                    t = self.pty(ctx["f"], ctx["dest"])
                    i = [k for k, x in enumerate(self.T[t]["variants"]) if (x["n"] == "Some") == some][0]
                    return ("a", t, i, (("r", ("V", ("l", n, ())), ()),) if some else (), None)
                self.succ(nd, oi, orr, {}, dict(con), R, nd_last(nd), val, par)
        elif kind == "call":
            name = ev.label[1]
            if isinstance(oi, Out):
                self.entry(name, R)
            mp = {"cur": m, "peek": m + 1}
            con2 = self.rename_con(con, mp)
            con2[("tkm", m)] = R.cur() & self.A.TOK
            con2[("tkm", m + 1)] = R.peek() & self.A.TOK
            R2 = Rel([(self.A.ALL, self.A.ALL)])
            f = self.pairs[name][0]
            pay = self.T[f.locals[0]]["args"][0]
            if pay == self.expr_ty and not R.cur() & self.A.TOK:
                possible = tuple(EVERY - {"Ok"})      # expressions need a token (checked in whole_span)
            else:
                possible = EVERY
            solo = None if isinstance(oi, Out) and isinstance(orr, Out) else self.outcomes("i" if isinstance(oi, Out) else "r", name, R, self.flags(con, ev.data[0]), True)
            for cls in ("Ok", "Other", "Dots", "Arrow", "Init"):
                if solo is not None and cls not in solo or cls not in possible:
                    continue
                con3 = dict(con2)
                if cls == "Ok":
                    if name in self.RESULT:
                        con3[("l", n, ())] = self.arrow_variant()
                    if pay == self.expr_ty:
                        con3[("sp", ("l", n, ()))] = (("tk", m, (("f", 2), ("f", 0))), ("e", n))

                    def val(st, ctx):
                        return self.res(ctx, True, ("l", n, ()))
                else:
                    def val(st, ctx, cls=cls):
                        t = self.pty(ctx["f"], ctx["dest"])
                        e = self.err_value(st, t, cls, n)
                        return self.mk_res(t, False, e)
                self.succ(nd, oi, orr, mp, con3, R2, n, val, (nd, name if cls == "Ok" else "%s fails (%s)" % (name, cls), ("call", name, cls)))
        else:
            raise Undecided("event %s" % kind)

    def with_con(self, st, con, R):
        s = st.copy()
        s.con, s.R = con, R
        return s

    def kept_op(self, st):
        for v in st.mem.values():
            op = self.op_memo.get(v, 0)
            if op == 0:
                op = self.op_memo[v] = self.inner_op(v)
            if op is not None:
                return op
        return None

    def inner_op(self, v):
        """a test inside a structure"""
        if v[0] == "op" or v[0] == "c":
            return None
        return self.find_op(v)

    def sub_out(self, o, op, val):
        if not isinstance(o, Out):
            return o

        def sub(x):
            return K(val) if x == op else (x if x[0] == "op" else self.walk(x, sub))
        st = o.st.copy()
        st.mem = {r: (v if v == op else sub(v)) for r, v in st.mem.items()}
        return Out(st, o.kind, o.label, o.data, o.site, o.ctx)

    def flags(self, con, bits):
        """facts about the flags of a callee"""
        out = {}
        for n, v in zip(CTX, bits):
            if v[0] == "k":
                out[("l", "cx:" + n, ())] = frozenset([v[1]])
            elif v in con:
                out[("l", "cx:" + n, ())] = con[v]
        return frozenset(out.items())

    def outcomes(self, side, name, R, flags, top=False):
        """The classes one side of a production can end in when it starts at the given tokens (an over-approximation)."""
        key = (side, name, R, flags)
        r = self.out_memo.get(key)
        if r is not None:
            return r
        if top:
            self.tries = 0
        self.out_memo[key] = EVERY
        f = self.pairs[name][0 if side == "i" else 1]
        st = St(((f.id, 0, None, None, 0),), self.make_args(f, side), dict(flags), (), R, "in")
        r = self.out_memo[key] = self.explore(side, [(st, 0)], 2)
        self.stats["tries"] = max(self.stats["tries"], self.tries)
        if self.tries > self.MAXTRIES and not top:
            del self.out_memo[key]
        return r

    def fates(self, o, side, con, R):
        """The classes one side can end in from an event on."""
        o = Out(self.with_con(o.st, con, R), o.kind, o.label, o.data, o.site, o.ctx)
        self.tries = 0
        r = self.explore(side, [(x, 1) for x in self.solo_step(o, side)], 3)
        self.stats["tries"] = max(self.stats["tries"], self.tries)
        return r

    def explore(self, side, todo, limit):
        saved = self.outs, self.other_names
        res = set()
        while todo and len(res) < 5:
            s, depth = todo.pop()
            self.tries += 1
            self.alltries += 1
            if depth > limit or self.tries > (self.MAXTRIES if self.alltries < 3000 else 5):
                res = EVERY
                break
            for o in self.run_side(s, {}):
                if o.kind == "term":
                    if o.label == "ret":
                        res |= {c for c, _, _ in self.classify(o.st, o.data)}
                    continue
                if o.label[0] != "read-after-error":
                    todo += [(x, depth + 1) for x in self.solo_step(o, side)]
        self.outs, self.other_names = saved
        return frozenset(res)

    def solo_step(self, ev, side):
        """successors of one side alone"""
        R, con = ev.st.R, ev.st.con
        used = [n for n in self.all_names(con, ev, None) if isinstance(n, int)]
        n = max(used, default=-1) + 1
        mp = {"cur": n + 1, "peek": n + 2}
        kind = ev.label[0]
        out = []

        def go(con, R, v):
            st = ev.st.copy()
            st.mem = self.rename_state(ev.st.mem, mp)
            st.con, st.R, st.last = con, R, n
            self.assign(st, ev.ctx["d"], ev.ctx["f"], ev.ctx["dest"], v(st))
            self.goto(st, ev.ctx["ret"])
            out.append(st)
        con = self.rename_con(con, mp)
        con[("tkm", n + 1)] = R.cur() & self.A.TOK
        con[("tkm", n + 2)] = R.peek() & self.A.TOK
        if kind == "consume":
            mp = {"cur": n, "peek": "cur"}
            con = self.rename_con(ev.st.con, mp)
            con[("tkm", n)] = R.cur() & self.A.TOK
            go(con, Rel([(R.peek(), self.A.ALL)]), lambda st: self.res(ev.ctx, True, ("tk", n, ())))
        elif kind == "rewind":
            go(con, Rel([(self.tkmask(ev.st, ev.label[1][1]) & self.A.TOK, self.A.ALL)]), lambda st: self.res(ev.ctx, True, UNIT))
        elif kind == "reread":
            go(con, self.reread(R, ev.label[1]), lambda st: self.res(ev.ctx, True, UNIT))
        elif kind == "call":
            for cls in sorted(self.outcomes(side, ev.label[1], R, self.flags(ev.st.con, ev.data[0]))):
                def val(st, cls=cls):
                    if cls == "Ok":
                        return self.res(ev.ctx, True, ("l", n, ()))
                    t = self.pty(ev.ctx["f"], ev.ctx["dest"])
                    return self.mk_res(t, False, self.err_value(st, t, cls, n))
                go(dict(con), Rel([(self.A.ALL, self.A.ALL)]), val)
        return out

    def reread(self, R, state):
        """re-reading the current token with another lexer state"""
        A = self.A
        if state[0] != "a":
            raise Undecided("lexer state %r" % (state,))
        fs = {f[0]: state[3][i] for i, f in enumerate(self.T[state[1]]["variants"][0]["f"])}
        cur = R.cur()
        out = 0
        div = A.mask("p:Slash") | A.mask("p:SlashEqual")
        close = A.mask("p:BracketClose")
        if cur & (A.EOF | A.ERR):
            out |= cur & (A.EOF | A.ERR)
        t = cur & A.TOK
        if fs["regex_allowed"] == TRUE and t & div:
            out |= A.mask("Regexp") | A.ERR
            t &= ~div
        if fs["inside_template"] == TRUE and t & close:
            out |= A.mask("TemplateMiddle") | A.mask("TemplateTail") | A.ERR
            t &= ~close
        out |= t
        return Rel([(out, A.ALL)])

    def all_names(self, con, oi, orr):
        out = {}
        for o in (oi, orr):
            if isinstance(o, Out):
                self.alive(o.st.mem, out)
                if not isinstance(o.st.last, str):
                    out[o.st.last] = False
        for k, v in con.items():
            out.update(self.names_of(k))
            if isinstance(v, tuple):
                out.update(self.names_of(v))
        return out

    def succ(self, nd, oi, orr, mp, con, R, last, val, parent):
        con = dict(con)
        new = []
        for o in (oi, orr):
            if not isinstance(o, Out):
                new.append(o)
                continue
            st = o.st.copy()
            st.mem = self.rename_state(o.st.mem, mp)
            st.con = con
            st.R = R
            st.last = last
            ctx = o.ctx
            v = val(st, ctx)
            con = st.con
            self.assign(st, ctx["d"], ctx["f"], ctx["dest"], v)
            self.goto(st, ctx["ret"])
            new.append(st)
        n2 = self.add_node(nd.name, new[0], new[1], con, R, last, parent)
        self.edges[nd.n].add((parent[2] if len(parent) > 2 else parent[1], n2.n))

    # ---- accumulated structures
    def generalise(self, name, mi, mr, con):
        names = {}
        for mem in (mi, mr):
            if mem is not None:
                self.alive(mem, names)
        for k, v in con.items():
            names.update(self.names_of(k))
            if isinstance(v, tuple):
                names.update(self.names_of(v))
        fresh = [max([n for n in names if isinstance(n, int)], default=-1) + 1]
        st = [None if m is None else St((), m, con, (), None, None) for m in (mi, mr)]
        solo = mi is None or mr is None
        # expressions
        found = []
        for s in st:
            c = {}
            if s is not None:
                for root in sorted(s.mem, key=repr):
                    self.find_exprs(s, s.mem[root], c)
            found.append(c)
        if solo:
            common = list(found[0]) + list(found[1])
        else:
            common = [c for c in found[0] if c in found[1]]
        emap = {}
        for c in common:
            g = ("l", fresh[0], ())
            fresh[0] += 1
            emap[c] = g
            if not self.check_literal(c, self.with_con(st[0] or st[1], con, self.cur_R)):
                raise Undecided("a literal in %s does not start with its bracket" % name)
            con[g] = frozenset([self.T[self.expr_ty]["variants"][c[2]]["d"]])
            sp = self.expr_span(c, con)
            if sp is not None:
                con[("sp", g)] = sp
        mems = [None if s is None else {r: self.fold_expr(s, v, emap) for r, v in s.mem.items()} for s in st] if emap else [None if s is None else s.mem for s in st]
        # vectors
        st = [None if m is None else St((), m, con, (), None, None) for m in mems]
        vecs = []
        for s in st:
            l = []
            if s is not None:
                for root in sorted(s.mem, key=repr):
                    self.find_vecs(s, s.mem[root], l)
            vecs.append(l)
        vmap = {}
        for v in vecs[0]:
            best = 0
            for w in vecs[1]:
                if v[1] == w[1]:
                    p = 0
                    while p < len(v[2]) and p < len(w[2]) and v[2][p] == w[2][p]:
                        p += 1
                    best = max(best, p)
            if best:
                vmap[(v[1], v[2][:best])] = None
        if solo:
            for v in vecs[0] + vecs[1]:
                vmap[(v[1], v[2])] = None
        for k in vmap:
            vmap[k] = fresh[0]
            fresh[0] += 1
        if vmap:
            mems = [None if s is None else {r: self.fold_vec(s, v, vmap) for r, v in s.mem.items()} for s in st]
        return mems

    def expr_span(self, c, con):
        """span of an expression node"""
        x = c[3][0]
        if x[0] == "a":
            fs = [f[0] for f in self.T[x[1]]["variants"][x[2]]["f"]]
            if "span" in fs:
                s = x[3][fs.index("span")]
                if s[0] == "a":
                    return s[3]
        return None

    def find_exprs(self, st, v, out):
        k = v[0]
        if k == "a":
            if v[1] == self.expr_ty:
                out[self.canon(st, v)] = True
            for x in v[3]:
                self.find_exprs(st, x, out)
        elif k == "t":
            for x in v[1]:
                self.find_exprs(st, x, out)
        elif k == "c":
            for x in v[2]:
                self.find_exprs(st, x, out)
        elif k == "b":
            self.find_exprs(st, v[1], out)
        elif k == "vec":
            for x in v[2]:
                self.find_exprs(st, x, out)
        elif k == "r" and v[1][0] == "V":
            self.find_exprs(st, v[1][1], out)

    def walk(self, v, f):
        k = v[0]
        if k == "a":
            fs = tuple(f(x) for x in v[3])
            return v if fs == v[3] else ("a", v[1], v[2], fs, v[4])
        if k == "t":
            fs = tuple(f(x) for x in v[1])
            return v if fs == v[1] else ("t", fs)
        if k == "c":
            return ("c", v[1], tuple(f(x) for x in v[2]))
        if k == "b":
            return ("b", f(v[1]))
        if k == "vec":
            return ("vec", v[1], tuple(f(x) for x in v[2]))
        if k == "r" and v[1][0] == "V":
            return ("r", ("V", f(v[1][1])), v[2])
        return v

    def fold_expr(self, st, v, emap):
        def f(x):
            if x[0] == "a" and x[1] == self.expr_ty:
                g = emap.get(self.canon(st, x))
                if g is not None:
                    return g
            return self.walk(x, f)
        return f(v)

    def find_vecs(self, st, v, out):
        if v[0] == "vec" and v[2]:
            out.append(self.canon(st, v))

        def f(x):
            self.find_vecs(st, x, out)
            return x
        self.walk(v, f)

    def fold_vec(self, st, v, vmap):
        def f(x):
            if x[0] == "vec" and x[2]:
                c = self.canon(st, x)
                best = None
                for (b, items), g in vmap.items():
                    if b == c[1] and c[2][:len(items)] == items and (best is None or len(items) > best[0]):
                        best = (len(items), g)
                if best:
                    x = ("vec", best[1], x[2][best[0]:])
            return self.walk(x, f)
        return f(v)

    # ---- driver
    def run(self, roots):
        self.reset()
        self.alltries = 0
        self.nm_memo = {}
        self.out_memo = {}
        self.op_memo = {}
        self.per_fn = defaultdict(int)
        ALL = Rel([(self.A.ALL, self.A.ALL)])
        for name in roots:
            start = ALL
            if isinstance(name, tuple):
                name, start = name
            con = {}
            if name.startswith("program"):
                con = {("l", "cx:" + n, ()): frozenset([0]) for n in CTX}
            self.entry(name, start, con)
            self.requests.pop(name, None)
        while self.work:
            nd = self.work.pop()
            nd.queued = False
            if time.time() - self.t0 > self.MAXTIME or self.deadline and time.time() > self.deadline:
                raise Budget("the product of %s takes too long" % nd.name)
            self.process(nd)


def totuple(x):
    return tuple(totuple(y) for y in x) if isinstance(x, (list, tuple)) else x


def nd_last(nd):
    return nd.last


class Node:
    __slots__ = ("name", "key", "parent", "i", "r", "con", "last", "R", "masks", "queued", "n")


class Plain(Interp):
    """Runs a small function on symbolic arguments to the end."""

    def run_fn(self, f, args):
        st = St(((f.id, 0, None, None, 0),), {(0, i + 1): a for i, a in enumerate(args)}, {}, (), 1, None)
        out = []

        def on_term(s, kind, v, site):
            if kind != "ret":
                raise Undecided("%s may panic" % f.path)
            out.append((s.con, v))
        self.run_segment(st, lambda *a: None, on_term)
        return out

    def leaf(self, st, g, args, site):
        raise Undecided("no model of " + g.path)


MODELS = {
    "fajt_common::io::PeekReader::<T, I>::current": Joint.p_current,
    "fajt_common::io::PeekReader::<T, I>::peek": Joint.p_peek,
    "fajt_common::io::PeekReader::<T, I>::position": Joint.p_position,
    "fajt_common::io::PeekReader::<T, I>::consume": Joint.p_consume,
    "fajt_common::io::PeekReader::<T, I>::rewind_to": Joint.p_rewind,
    "fajt_common::io::PeekReader::<T, I>::reread_with_state": Joint.p_reread,
    "std::boxed::Box::<T>::new": Joint.m_box,
    "std::boxed::convert::<impl std::convert::From<T> for std::boxed::Box<T>>::from": Joint.m_box,
    "std::boxed::Box::<T>::new_uninit": Joint.m_uninit,
    "std::boxed::box_assume_init_into_vec_unsafe": Joint.m_into_vec,
    "std::vec::Vec::<T>::new": Joint.m_vec_new,
    "std::vec::Vec::<T>::with_capacity": Joint.m_vec_new,
    "std::vec::Vec::<T, A>::push": Joint.m_vec_push,
    "std::vec::Vec::<T, A>::len": Joint.m_vec_len,
    "std::vec::Vec::<T, A>::is_empty": Joint.m_vec_is_empty,
    "std::vec::Vec::<T, A>::as_slice": Joint.m_ident,
    "<std::vec::Vec<T, A> as std::ops::Deref>::deref": Joint.m_ident,
    "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut": Joint.m_ident,
    "std::vec::Vec::<T, A>::as_mut_slice": Joint.m_ident,
    "<std::string::String as std::ops::Deref>::deref": Joint.m_ident,
    "std::string::String::as_str": Joint.m_ident,
    "std::string::<impl std::cmp::PartialEq<std::string::String> for str>::eq": Joint.m_streq,
    "std::string::<impl std::cmp::PartialEq<str> for std::string::String>::eq": Joint.m_streq,
    "std::string::<impl std::cmp::PartialEq<&str> for std::string::String>::eq": Joint.m_streq,
    "core::str::traits::<impl std::cmp::PartialEq for str>::eq": Joint.m_streq,
    "<std::string::String as std::cmp::PartialEq>::eq": Joint.m_streq,
    "std::str::<impl std::borrow::ToOwned for str>::to_owned": Joint.m_toowned,
    "std::fmt::format": Joint.m_top,
    "core::slice::<impl [T]>::iter": Joint.m_iter,
    "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter": Joint.m_iter,
    "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter": Joint.m_iter,
    "<std::slice::Iter<'a, T> as std::iter::Iterator>::next": Joint.m_next,
    "<std::slice::Iter<'a, T> as std::iter::Iterator>::any": Joint.m_any,
    "<std::slice::Iter<'a, T> as std::iter::Iterator>::all": Joint.m_all,
    "core::slice::<impl [T]>::sort_unstable": Joint.m_sort,
    "std::slice::<impl [T]>::sort": Joint.m_sort,
    "std::slice::<impl [T]>::sort": Joint.m_sort,
    "<T as std::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec": Joint.m_toowned,
    "<std::string::String as std::convert::From<&str>>::from": Joint.m_toowned,
    "std::string::String::is_empty": Joint.m_str_is_empty,
}
