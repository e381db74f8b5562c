"""Product analysis of the lexer and the reference lexer.

`fajt_lexer::Lexer::read` and `RefLexer::read` (harness/src/reference/lexer.rs, from chapter 12 of ECMA-262) read the same
symbolic characters, one at a time; after every character that one of them takes the other one has to take it as well, and
where one returns the other has to return the same token, text, span and line flag, or the same class of error.

Characters are partitioned into classes that neither side can tell apart: every ASCII character is a class of its own, the
others are cut at every constant of the two lexers and by the Unicode properties ID_Start and ID_Continue.  Texts are kept
as segments of the input, together with what has been seen of their characters.
"""
import copy
import os
import time
import traceback
from collections import defaultdict
from multiprocessing import get_context
import joint
from joint import Joint, Out, MODELS
from absint import St, K, TRUE, FALSE, UNIT, TOP, Undecided, Budget
from rel import Rel

LIMIT = 420
SURR, BIG = 0xD800, 0x110000
HEX = "0123456789abcdefABCDEF"


class CharAtoms:
    """Classes of characters; a mask is a set of classes."""
    NL = 0
    ERR = 0

    def __init__(self, consts):
        self.names, self.rep = [], []
        self.single = 0         # classes of one ASCII character
        cuts = {48, 58, 65, 71, 91, 97, 103, 123, 128, 0xD800, 0xE000, 0x110000}
        for c in range(128):
            if not chr(c).isalnum():
                cuts |= {c, c + 1}
        for c in consts:
            if 0 < c <= 0x10FFFF:
                cuts.add(c)
            if 0 <= c < 0x10FFFF:
                cuts.add(c + 1)
        cuts = sorted(cuts)
        for lo, hi in zip(cuts, cuts[1:]):
            if lo == 0xD800:
                continue
            kinds = [(1, 1), (0, 1), (0, 0)]
            if lo < 128:
                n = repr(chr(lo)) if hi == lo + 1 and lo > 32 else "U+%02X" % lo if hi == lo + 1 else "%s-%s" % (chr(lo), chr(hi - 1))
                self.single |= (hi == lo + 1) << len(self.names)
                self.add(n, lo, (chr(lo).isalpha(), chr(lo).isalnum() or lo == 95))
                continue
            if hi - lo <= 64:
                kinds = sorted({self.kind(chr(c)) for c in range(lo, hi)}, reverse=True)
            if hi == lo + 1 and len(kinds) == 1:
                self.single |= 1 << len(self.names)
            for k in kinds:
                self.add("U+%04X%s%s" % (lo, "..%04X" % (hi - 1) if hi > lo + 1 else "", {(1, 1): " start", (0, 1): " part", (0, 0): ""}[k] if hi > lo + 1 else ""), lo, k)
        self.nchar = len(self.names)
        self.TOK = (1 << self.nchar) - 1
        self.add("surrogate", SURR, (0, 0))
        self.add("too big", BIG, (0, 0))
        self.CODE = (1 << len(self.names)) - 1
        self.add("EOF", None, (0, 0))
        self.EOF = 1 << (len(self.names) - 1)
        self.ALL = self.TOK | self.EOF
        self.gcache = {}

    @staticmethod
    def kind(c):
        return (int(c.isidentifier() and c != "_"), int(("a" + c).isidentifier()))

    def add(self, n, rep, k):
        if not self.names:
            self.idstart = self.idcont = 0
        b = 1 << len(self.names)
        self.names.append(n)
        self.rep.append(rep)
        if k[0]:
            self.idstart |= b
        if k[1]:
            self.idcont |= b

    def of(self, pred):
        m = 0
        for i, r in enumerate(self.rep):
            if r is not None and pred(r):
                m |= 1 << i
        return m

    def chars(self, s):
        s = {ord(c) for c in s}
        m = self.of(lambda r: r in s)
        return m

    def chars_hex(self):
        return self.of(lambda r: r < 128 and chr(r) in HEX)

    def groups(self, keyf, mask):
        out = {}
        i = 0
        rep = self.rep
        while mask:
            if mask & 1:
                r = rep[i]
                if r is not None:
                    g = keyf(r)
                    out[g] = out.get(g, 0) | 1 << i
            mask >>= 1
            i += 1
        return out

    def partition(self, path):
        return None

    def mask(self, n):
        return 1 << self.names.index(n)

    def show(self, m):
        idx = [i for i in range(len(self.names)) if m >> i & 1]
        if len(idx) > 12:
            inv = [i for i in range(len(self.names)) if not m >> i & 1 and self.rep[i] not in (SURR, BIG)]
            if len(inv) < len(idx):
                return "any but {" + " ".join(self.names[i] for i in inv[:12]) + (" ..." if len(inv) > 12 else "") + "}"
            return "{" + " ".join(self.names[i] for i in idx[:12]) + " ...}"
        return "{" + " ".join(self.names[i] for i in idx) + "}"


def bits(m):
    n = 0
    while m:
        m &= m - 1
        n += 1
    return n


# what is known of the characters of a segment that consists of hexadecimal digits and `_` only: (first is `_`, two adjacent
# ones, last is `_`, number of characters up to 5 if there is no `_`, else 0); None: other characters
def fl_char(under):
    return (under, False, under, 0 if under else 1)


def fl_join(a, b):
    if a is None or b is None:
        return None
    return (a[0], a[1] or b[1] or a[2] and b[0], b[2], min(5, a[3] + b[3]) if a[3] and b[3] else 0)


class LexJoint(Joint):
    MAXNODES = 60000
    now = ()

    def __init__(self, dump):
        joint.Interp.__init__(self, dump)
        d = dump
        self.inline = ()
        self.only = None
        impl = [f for f in d.fns if f.path == "fajt_lexer::Lexer::<'a>::read" and not f.closure and f.nargs == 1]
        ref = [f for f in d.fns if f.path.endswith("lexer::RefLexer::<'a>::read") and not f.closure and f.nargs == 1]
        if len(impl) != 1 or len(ref) != 1:
            raise Undecided("Lexer::read not found")
        self.pairs = {"read": (impl[0], ref[0])}
        self.cut_of = {}
        self.span_ty = d.adt("fajt_ast::Span")
        self.token_ty = d.adt("token::Token")
        self.tv = d.adt("token::TokenValue")
        self.expr_ty = -1
        self.lex_ty = self.T[impl[0].locals[1]]["to"]
        self.rlex_ty = self.T[ref[0].locals[1]]["to"]
        self.lexerr_ty = d.adt("fajt_lexer::error::Error")
        self.lexkind_ty = d.adt("fajt_lexer::error::ErrorKind")
        self.fail_ty = d.adt("LexFail")
        self.A = CharAtoms(self.constants())
        hexd, under = self.A.chars_hex(), self.A.chars("_")
        self.kinds = {"d": hexd, "_": under, "o": self.A.CODE & ~hexd & ~under}
        self.white = self.A.of(lambda r: chr(r).isspace() if r not in (SURR, BIG) else False) | self.A.chars("\ufeff")
        self.filter = False
        self.violations = {}
        self.nodes_total = self.edges_total = 0
        self.stats = defaultdict(int)
        self.fields = {t: {f[0]: i for i, f in enumerate(self.T[t]["variants"][0]["f"])} for t in (self.lex_ty, self.rlex_ty)}
        self.touched = set()

    def constants(self):
        out = set()

        def val(x):
            if isinstance(x, (list, tuple)):
                if len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], str) and x[1].isdigit():
                    pass
                for y in x:
                    val(y)
            elif isinstance(x, int):
                if x > 32:
                    out.add(x)
            elif isinstance(x, str) and x.isdigit() and len(x) < 9:
                if int(x) > 32:
                    out.add(int(x))
            elif isinstance(x, dict):
                for y in x.values():
                    val(y)
        for f in self.d.fns:
            if f.blocks and (f.crate == "fajt_lexer" or "reference::lexer" in f.path):
                for b in f.blocks:
                    if b:
                        for s in b["s"]:
                            val(self.consts_of(s))
                        if b["t"][0] == "switch":
                            val([x[0] for x in b["t"][2]])
                        else:
                            val(self.consts_of(b["t"]))
                if f.promoted:
                    val(self.consts_of(f.promoted))
        return out

    def consts_of(self, x, out=None):
        """constant operands ["k", c] inside statements"""
        top = out is None
        if top:
            out = []
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] == "k":
                out.append(x[1])
            else:
                for y in x:
                    self.consts_of(y, out)
        elif isinstance(x, dict):
            for y in x.values():
                self.consts_of(y, out)
        return out if top else None

    # ------------------------------------------------------------ characters
    def tkmask(self, st, name):
        if isinstance(name, tuple):
            return st.con.get(("tkm", name), self.A.CODE)
        return super().tkmask(st, name)

    def restrict(self, st, name, m):
        if isinstance(name, tuple):
            s2 = st.copy()
            s2.con = dict(st.con)
            s2.con[("tkm", name)] = self.tkmask(st, name) & m
            return s2
        return super().restrict(st, name, m)

    def norm_pos(self, v):
        return v

    def is_pos(self, v):
        return v[0] == "e"

    def split_value(self, st, v, keyf, allg):
        if v[0] == "tk" and v[2] == ():
            return self.group_split(st, v[1], self.A.groups(keyf, self.tkmask(st, v[1])))
        if v[0] in ("r", "b"):
            return [(keyf(1 << 20), st)]
        return None

    def tk_split(self, st, x, t, keyf, allg):
        return self._opaque_discr(st, x, t, keyf, allg)

    def split_cmp(self, st, op, a, b, keyf, allg):
        if a[0] == "tk" and b[0] == "tk" and op in ("Eq", "Ne"):
            if bits(self.tkmask(st, a[1])) < bits(self.tkmask(st, b[1])):
                a, b = b, a
            mb = self.tkmask(st, b[1])
            if bits(mb) > 4:
                return None
            out = []
            yes = 1 if op == "Eq" else 0
            i = 0
            while mb >> i:
                if mb >> i & 1:
                    s2 = self.restrict(st, b[1], 1 << i)
                    if not self.tkmask(s2, b[1]):
                        i += 1
                        continue
                    if not self.A.single >> i & 1:
                        raise Undecided("comparison of characters")
                    for g, s3 in self.group_split(s2, a[1], {keyf(yes): 1 << i, keyf(1 - yes): self.A.CODE & ~(1 << i)}
                                                  if keyf(yes) != keyf(1 - yes) else {keyf(yes): self.A.CODE}):
                        out.append((g, s3 if s3 is not st else s3.copy()))
                i += 1
            return out
        if a[0] == "e" and b[0] == "op" and b[1] == "datalen" or b[0] == "e" and a[0] == "op" and a[1] == "datalen":
            gs = {keyf(0), keyf(1)}
            return [(g, st.copy()) for g in gs] if len(gs) > 1 else [(gs.pop(), st)]
        return super().split_cmp(st, op, a, b, keyf, allg)

    def split_op(self, st, v, keyf, allg):
        if v[1] == "datalen":
            return None
        return super().split_op(st, v, keyf, allg)

    # ------------------------------------------------------------ models
    def find_primitive(self, g):
        p = g.path
        m = LEXMODELS.get(p) or MODELS.get(p)
        if m is not None:
            return m
        if g is self.pairs["read"][0] or g is self.pairs["read"][1]:
            return LexJoint.p_again
        if g.name in ("is_id_start", "is_id_continue") and "unicode_id" in p:
            return LexJoint.p_idclass
        if p.startswith("core::str::<impl str>::parse"):
            return LexJoint.p_parse
        if p == "core::str::<impl str>::starts_with":
            return LexJoint.p_starts
        if p == "core::str::<impl str>::ends_with":
            return LexJoint.p_ends
        if p == "core::str::<impl str>::contains":
            return LexJoint.p_contains
        if p == "core::slice::<impl [T]>::contains":
            return LexJoint.p_among
        if g.name in ("eq", "ne") and ("std::string::String" in p or "&str" in p or "for str" in p) and "PartialEq" in p:
            return Joint.m_streq if g.name == "eq" else Joint.m_strne
        if p.endswith(" as std::clone::Clone>::clone") and "Rc<" not in p:
            return Joint.m_clone
        if p.endswith("as std::string::ToString>::to_string"):
            return LexJoint.p_tostring
        if p.endswith(" as std::ops::Drop>::drop"):
            return Joint.m_unit
        if "Index" in p and g.name == "index" and ("for str" in p or "String" in p):
            return LexJoint.p_index
        if p.startswith("fajt_common::io::PeekReader::<T, I>::"):
            raise Undecided("unknown reader function " + p)
        return None

    def p_again(self, st, g, args, site, ctx):
        """the recursive call of read in tail position is a jump to its start"""
        f, b, d = ctx["f"], ctx["ret"], len(st.fr) - 1
        if d != 0 or f is not g or ctx["dest"] != [0]:
            raise Undecided("read is called from %s" % f.path)
        n = 0
        while True:
            blk = f.blocks[b]
            if any(s[0] == "=" and s[1][0] == 0 for s in blk["s"]) or n > 50:
                raise Undecided("the recursive call of read is not in tail position")
            t = blk["t"]
            if t[0] == "ret":
                break
            if t[0] == "goto":
                b = t[1]
            elif t[0] == "drop":
                b = t[2] if isinstance(t[2], int) else t[1]
            elif t[0] == "switch":
                # drop flags
                b = t[3]
            else:
                raise Undecided("the recursive call of read is not in tail position")
            n += 1
        st.mem = {r: v for r, v in st.mem.items() if r[0] == "self"}
        st.mem[(0, 1)] = args[0]
        st.fr = ((g.id, 0, None, None, 0),)
        return "ENTER"

    def p_current(self, st, g, args, site, ctx, name="cur"):
        out = []
        for ok, s2 in self.group_split(st, name, {True: self.A.TOK, False: self.A.EOF}):
            if s2 is st:
                s2 = st.copy()
            v = ("r", ("V", ("tk" if ok else "tke", name, ())), ())
            out.append((s2, self.res(ctx, ok, v)))
        return out

    def p_peek(self, st, g, args, site, ctx):
        return self.p_current(st, g, args, site, ctx, "peek")

    def p_consume(self, st, g, args, site, ctx):
        out = []
        for ok, s2 in self.group_split(st, "cur", {True: self.A.TOK, False: self.A.EOF}):
            if s2 is st:
                s2 = st.copy()
            if ok:
                self.stop(s2, ("consume",), site, ctx)
            else:
                out.append((s2, self.res(ctx, False, ("tke", "cur", ()))))
        return out

    def p_idclass(self, st, g, args, site, ctx):
        v = self.deref(st, args[0])
        m = self.A.idstart if g.name == "is_id_start" else self.A.idcont
        if v[0] == "k":
            for i, r in enumerate(self.A.rep):
                if r == v[1] and self.A.single >> i & 1:
                    return K(m >> i & 1)
        if v[0] != "tk":
            raise Undecided("%s of %r" % (g.name, v))
        return [(s2 if s2 is not st else st.copy(), K(x)) for x, s2 in self.group_split(st, v[1], {1: m, 0: self.A.CODE & ~m})]

    # -------- texts
    def before(self, st, name):
        if name == "cur":
            return ("e", st.last)
        if name == "peek":
            return ("e", "cur")
        sp = st.con.get(("sp", ("tk", name, ())))
        return sp[0] if sp else None

    def items_of(self, st, v, flag=True):
        """[(state, items)]: the text of a character or a string"""
        v = self.canon(st, v)
        if v[0] == "tk":
            b = None if isinstance(v[1], tuple) else self.before(st, v[1])
            if b is None:
                return [(st, (v,))]
            out = []
            for k, s2 in self.group_split(st, v[1], self.kinds if flag else {"o": self.A.CODE}):
                out.append((s2, (("seg", b, ("e", v[1]), None if k == "o" else fl_char(k == "_")),)))
            return out
        if v[0] == "k":
            return [(st, (("s", chr(v[1])),))]
        if v[0] == "s":
            return [(st, (v,) if v[1] else ())]
        if v[0] == "vec":
            if v[1] is None:
                return [(st, v[2])]
            return [(st, (("txt", v),))]
        raise Undecided("text %r" % (v,))

    def append(self, v, items):
        """v: ("vec", base, items)"""
        base, have = v[1], list(v[2])
        for it in items:
            if it[0] == "txt":
                if base is None and not have:
                    base, have = it[1][1], list(it[1][2])
                    continue
                it2 = [("txt", ("vec", it[1][1], ()))] + list(it[1][2])
            else:
                it2 = [it]
            for x in it2:
                if have and x[0] == "seg" and have[-1][0] == "seg" and have[-1][2] == x[1]:
                    have[-1] = ("seg", have[-1][1], x[2], fl_join(have[-1][3], x[3]))
                elif have and x[0] == "s" and have[-1][0] == "s":
                    have[-1] = ("s", have[-1][1] + x[1])
                else:
                    have.append(x)
        return ("vec", base, tuple(have))

    def p_push(self, st, g, args, site, ctx):
        out = []
        for s2, items in self.items_of(st, args[1]):
            if s2 is st:
                s2 = st.copy()
            lv, v = self.vec_at(s2, args[0])
            v = self.text(s2, v)
            if lv[0] != "M":
                raise Undecided("push to %r" % (v,))
            if args[1][0] == "k" and (v[2] and v[2][-1][0] == "seg" and self.before(s2, s2.last) == v[2][-1][2] or v[1] is None and not v[2]):
                # the character that follows in the input, written out
                m = self.tkmask(s2, s2.last) if isinstance(s2.last, int) else 0
                if m == self.A.chars(items[0][1]) and bits(m & self.A.single) == 1:
                    its = self.items_of(s2, ("tk", s2.last, ()))
                    if len(its) == 1:
                        items = its[0][1]
            self.storelv(s2, lv, self.append(v, items))
            out.append((s2, UNIT))
        return out

    def text(self, st, v):
        v = self.canon(st, v)
        if v[0] == "s":
            return ("vec", None, (v,) if v[1] else ())
        if v[0] == "vec":
            return v
        raise Undecided("text %r" % (v,))

    def p_from_char(self, st, g, args, site, ctx):
        return [(s2 if s2 is not st else st.copy(), ("vec", None, items)) for s2, items in self.items_of(st, args[0])]

    def p_owned(self, st, g, args, site, ctx):
        v = self.canon(st, args[0])
        return v

    def p_tostring(self, st, g, args, site, ctx):
        v = self.canon(st, args[0])
        if v[0] in ("tk", "k"):
            return self.p_from_char(st, g, args, site, ctx)
        if v[0] in ("vec", "s"):
            return v
        return TOP

    def p_is_empty(self, st, g, args, site, ctx):
        v = self.text(st, self.deref(st, args[0]))
        return K(int(v[1] is None and not v[2]))

    def p_len(self, st, g, args, site, ctx):
        v = self.deref(st, args[0])
        if v[0] == "l":
            return ("op", "datalen", v)
        v = self.text(st, v)
        if v[1] is None and not v[2]:
            return K(0)
        if v[1] is None and len(v[2]) == 1 and v[2][0][0] == "seg" and v[2][0][3] and 0 < v[2][0][3][3] < 5:
            return K(v[2][0][3][3])
        if v[1] is None and all(x[0] == "s" for x in v[2]):
            return K(sum(len(x[1].encode()) for x in v[2]))
        return TOP

    def flags(self, st, v):
        v = self.text(st, v)
        if v[1] is None and len(v[2]) == 1 and v[2][0][0] == "seg":
            return v[2][0][3]
        return None

    def pattern(self, st, v):
        v = self.canon(st, v)
        if v[0] == "k":
            return chr(v[1])
        if v[0] == "s":
            return v[1]
        return None

    def p_starts(self, st, g, args, site, ctx):
        v, p = self.deref(st, args[0]), self.pattern(st, args[1])
        if v[0] == "at" and p is not None:
            # the rest of the source from a position on
            key = ("l", ("sw", v[1], p), ())
            out = []
            for x, s2 in self.split_scalar(st, key, lambda x: x, [0, 1]):
                if s2 is st:
                    s2 = st.copy()
                if x and v[1] == ("e", st.last):
                    for n, c in zip(("cur", "peek"), p):
                        s2 = self.restrict(s2, n, self.A.chars(c))
                    if not s2.R.rows:
                        continue
                out.append((s2, K(x)))
            return out
        t = self.text(st, v)
        if t[1] is None and not t[2]:
            return K(int(p == ""))
        f = self.flags(st, v)
        if p == "_" and f:
            return K(int(f[0]))
        if t[1] is None and t[2][0][0] == "s" and p is not None and len(t[2][0][1]) >= len(p):
            return K(int(t[2][0][1].startswith(p)))
        raise Undecided("starts_with(%r)" % (p,))

    def p_ends(self, st, g, args, site, ctx):
        v, p = self.deref(st, args[0]), self.pattern(st, args[1])
        t = self.text(st, v)
        if t[1] is None and not t[2]:
            return K(int(p == ""))
        if p == "_" and self.flags(st, t):
            return K(int(self.flags(st, t)[2]))
        raise Undecided("ends_with(%r)" % (p,))

    def p_digit(self, st, g, args, site, ctx):
        """char::is_digit / to_digit"""
        v = self.deref(st, args[0])
        if args[1][0] != "k" or not 2 <= args[1][1] <= 36:
            raise Undecided("digit of radix %r" % (args[1],))
        m = self.A.chars([c for c in "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ" if int(c, 36) < args[1][1]])
        if v[0] != "tk":
            raise Undecided("digit %r" % (v,))
        if self.A.of(lambda r: r < 128 and chr(r).isalnum() and int(chr(r), 36) < args[1][1]) != m:
            raise Undecided("digit of radix %r" % (args[1],))
        out = []
        for x, s2 in self.group_split(st, v[1], {1: m, 0: self.A.CODE & ~m}):
            s2 = s2 if s2 is not st else st.copy()
            if g.name == "is_digit":
                out.append((s2, K(x)))
            else:
                t = self.pty(ctx["f"], ctx["dest"])
                i = [k for k, w in enumerate(self.T[t]["variants"]) if (w["n"] == "Some") == bool(x)][0]
                out.append((s2, ("a", t, i, (TOP,) if x else (), None)))
        return out

    def p_among(self, st, g, args, site, ctx):
        xs, v = self.deref(st, args[0]), self.deref(st, args[1])
        if v[0] != "tk" or xs[0] not in ("t", "a") or not all(x[0] == "k" for x in (xs[1] if xs[0] == "t" else xs[3])):
            raise Undecided("contains(%r, %r)" % (xs, v))
        m = self.A.chars([chr(x[1]) for x in (xs[1] if xs[0] == "t" else xs[3])])
        if m & ~self.A.single:
            raise Undecided("comparison of characters")
        return [(s2 if s2 is not st else st.copy(), K(x)) for x, s2 in self.group_split(st, v[1], {1: m, 0: self.A.CODE & ~m})]

    def p_contains(self, st, g, args, site, ctx):
        v, p = self.deref(st, args[0]), self.pattern(st, args[1])
        t = self.text(st, v)
        if t[1] is None and not t[2]:
            return K(int(p == ""))
        f = self.flags(st, v)
        if p == "__" and f:
            return K(int(f[1]))
        raise Undecided("contains(%r)" % (p,))

    def p_index(self, st, g, args, site, ctx):
        v, r = self.deref(st, args[0]), self.deref(st, args[1])
        if v[0] == "l" and r[0] in ("a", "t"):
            fs = r[3] if r[0] == "a" else r[1]
            if "RangeFrom" in g.full and len(fs) == 1 and fs[0][0] == "e":
                return ("r", ("V", ("at", fs[0])), ())
        raise Undecided("index of %r" % (v,))

    def p_boundary(self, st, g, args, site, ctx):
        return TRUE            # positions are the ends of characters (C18)

    def split_texts(self, st, key, dest_ok):
        out = []
        for x, s2 in self.split_scalar(st, key, lambda x: x, [0, 1]):
            out.append((x, s2 if s2 is not st else st.copy()))
        return out

    def strip(self, v):
        """a text without what is known about its characters"""
        if v[0] == "vec":
            return ("vec", v[1], tuple(("seg", x[1], x[2], 0) if x[0] == "seg" else x for x in v[2]))
        return v

    def p_parse(self, st, g, args, site, ctx):
        t = ctx["f"].locals[ctx["dest"][0]] if len(ctx["dest"]) == 1 else self.pty(ctx["f"], ctx["dest"])
        target = self.T[self.T[t]["args"][0]].get("def", "?")
        v = self.canon(st, args[0])
        name = ("parse", target, self.strip(v))
        out = []
        for x, s2 in self.split_texts(st, ("l", name, ("ok",)), None):
            out.append((s2, self.mk_res(t, bool(x), ("l", name, ()) if x else TOP)))
        return out

    def p_radix(self, st, g, args, site, ctx):
        v = self.text(st, self.deref(st, args[0]))
        if args[1] != K(16):
            raise Undecided("from_str_radix(%r)" % (args[1],))
        t = self.pty(ctx["f"], ctx["dest"])
        if v[1] is None and not v[2]:
            return self.mk_res(t, False, TOP)
        f = self.flags(st, v)
        if f is None or not f[3]:
            raise Undecided("from_str_radix of unknown characters")
        name = ("chr", self.strip(v))
        if f[3] <= 4:
            s2 = self.restrict(st, name, self.A.CODE & ~self.A.of(lambda r: r == BIG))
            return [(s2 if s2 is not st else st.copy(), self.mk_res(t, True, ("tk", name, ())))]
        return [(s2, self.mk_res(t, bool(x), ("tk", name, ()) if x else TOP)) for x, s2 in self.split_texts(st, ("l", name, ("ok",)), None)]

    def p_chr(self, st, g, args, site, ctx):
        v = self.deref(st, args[0])
        if v[0] != "tk":
            raise Undecided("character of %r" % (v,))
        t = self.pty(ctx["f"], ctx["dest"])
        res = self.T[t].get("def", "").endswith("result::Result")
        out = []
        for x, s2 in self.group_split(st, v[1], {1: self.A.TOK, 0: self.A.CODE & ~self.A.TOK}):
            s2 = s2 if s2 is not st else st.copy()
            if res:
                out.append((s2, self.mk_res(t, bool(x), v if x else TOP)))
            else:
                i = [k for k, w in enumerate(self.T[t]["variants"]) if (w["n"] == "Some") == bool(x)][0]
                out.append((s2, ("a", t, i, (v,) if x else (), None)))
        return out

    def p_top(self, st, g, args, site, ctx):
        return TOP

    def leaf(self, st, g, args, site):
        if g.name in ("len_utf8", "len_utf16"):
            return TOP
        return super().leaf(st, g, args, site)

    def arith(self, op, a, b):
        return TOP

    # ------------------------------------------------------------ names
    def prune(self, st):
        if st.con:
            al = dict(self.other_names)
            self.alive(st.mem, al)
            if not isinstance(st.last, str):
                al.setdefault(st.last, False)
            st.con = self.prune_con(st.con, al)

    def prune_con(self, con, al):
        out = {}
        al = dict(al)
        for k, v in con.items():
            if k[0] == "sp":
                # where a character starts matters as long as the character itself may be used
                if isinstance(k[1][1], str) or al.get(k[1][1]):
                    out[k] = v
                    for n in self.names_of(v):
                        al.setdefault(n, False)
        for k, v in con.items():
            if k[0] != "sp":
                self.keep_con(k, v, al, out)
        return out

    def keep_con(self, k, v, al, out):
        if k[0] == "tkm":
            n = k[1]
            if isinstance(n, tuple):
                o = {}
                self.collect(n, o)
                if all(isinstance(x, str) or x in al for x in o):
                    out[k] = v
            elif n in al:
                out[k] = v
        else:
            super().keep_con(k, v, al, out)

    def canon(self, st, v, n=0):
        if v[0] == "a" and v[1] == self.token_ty or v[0] == "tk":
            if v[0] == "tk":
                return v
        return super().canon(st, v, n)

    # ------------------------------------------------------------ entry
    def make_arg(self, t, i, mem, side):
        ty = self.T[t]
        if ty["k"] == "ref" and ty["to"] in (self.lex_ty, self.rlex_ty):
            mem[("self", i)] = self.make_lexer(ty["to"])
            return ("r", ("self", i), ())
        raise Undecided("argument %s" % ty["s"])

    FLAGS = ("html_comment_allowed", "regex_allowed", "inside_template", "first_on_line")

    def make_lexer(self, t):
        out = []
        for n, ft in self.T[t]["variants"][0]["f"]:
            if n == "data":
                out.append(("r", ("V", ("l", "data", ())), ()))
            elif n == "reader":
                out.append(("l", "reader", ()))
            elif n in self.FLAGS:
                out.append(("l", "cx:" + n, ()))
            elif n == "state":
                fs = []
                for m, _ in self.T[ft]["variants"][0]["f"]:
                    if m not in self.FLAGS:
                        raise Undecided("unknown field %s of the state" % m)
                    fs.append(("l", "cx:" + m, ()))
                out.append(("a", ft, 0, tuple(fs), None))
            else:
                raise Undecided("unknown field %s of the lexer" % n)
        return ("a", t, 0, tuple(out), None)

    def entry(self, name, R, con=None):
        f, g = self.pairs[name]
        si = St(((f.id, 0, None, None, 0),), self.make_args(f, "i"), {}, (), R, "in")
        sr = St(((g.id, 0, None, None, 0),), self.make_args(g, "r"), {}, (), R, "in")
        nd = self.add_node(name, si, sr, dict(con or {}), R, "in", None)
        self.entries[name] = nd.n

    def add_node(self, name, si, sr, con, R, last, parent):
        self.cur_last = last
        return super().add_node(name, si, sr, con, R, last, parent)

    # ------------------------------------------------------------ end of a token
    def classify(self, st, v):
        if v[0] != "a" or not self.T[v[1]].get("def", "").endswith("result::Result"):
            raise Undecided("result %r" % (v,))
        if self.T[v[1]]["variants"][v[2]]["n"] == "Ok":
            return [("Ok", v[3][0], st)]
        e = self.deref(st, v[3][0])
        if e[0] != "a":
            raise Undecided("error value %r" % (e,))
        if e[1] == self.fail_ty:
            return [(self.T[e[1]]["variants"][e[2]]["n"], None, st)]
        fs = {f[0]: i for i, f in enumerate(self.T[e[1]]["variants"][0]["f"])}
        k = e[3][fs["kind"]]
        if k[0] != "a":
            raise Undecided("error kind %r" % (k,))
        return [("End" if self.T[k[1]]["variants"][k[2]]["n"] == "EndOfStream" else "Bad", None, st)]

    def cls_text(self, c):
        return {"Ok": "returns a token", "Bad": "is an error", "End": "reports the end of the input"}[c]

    def field(self, st, name):
        v = st.mem.get(("self", 0))
        if v is None or v[0] != "a":
            raise Undecided("the lexer is not a known value")
        fs = self.fields[v[1]]
        if name in fs:
            return self.canon(st, v[3][fs[name]])
        s = v[3][fs["state"]]
        sf = {f[0]: i for i, f in enumerate(self.T[s[1]]["variants"][0]["f"])}
        return self.canon(st, s[3][sf[name]])

    def match_ret(self, nd, oi, orr, ci, di, si, cr, dr, sr):
        if ci != cr:
            self.viol(nd, "accept", oi, orr, "%s where the grammar %s" % (self.cls_text(ci), self.cls_text(cr)), self.cond(sr))
            return
        self.stats["terminals"] += 1
        if ci != "Ok":
            return
        self.edges[nd.n].add(("ret", -1))
        a, b = self.canon(si, di), self.canon(sr, dr)
        diffs = []
        self._eq(sr, self.plain(a), self.plain(b), (), diffs, False)
        for p, x, y, span in diffs:
            where = ".".join("%s.%s" % q if q[0] else str(q[1]) for q in p)
            if "?" in (x[0], y[0]):
                raise Undecided("unknown value at %s of the token" % where)
            kind = "span" if span else "line" if "first_on_line" in where else "value"
            self.viol(nd, kind, oi, orr, "the token differs at %s: %s, the grammar has %s" % (where, self.sh(x), self.sh(y)), self.cond(sr), where)
        for n in self.FLAGS:
            x, y = self.norm_scalar(sr, self.field(si, n)), self.norm_scalar(sr, self.field(sr, n))
            if x != y:
                self.viol(nd, "line" if n == "first_on_line" else "value", oi, orr, "leaves %s = %s, the grammar has %s" % (n, self.sh(x), self.sh(y)), self.cond(sr), "state." + n)

    def plain(self, v):
        if v[0] == "vec":
            v = self.strip(v)
            if v[1] is None and (not v[2] or len(v[2]) == 1 and v[2][0][0] == "s"):
                return ("s", v[2][0][1] if v[2] else "")
            return ("vec", v[1], tuple(self.plain(x) for x in v[2]))
        return self.walk(v, self.plain)

    def _eq(self, st, a, b, path, diffs, span):
        for x, y in ((a, b), (b, a)):
            if x[0] == "k" and y[0] == "tk":
                m = self.tkmask(st, y[1])
                if m and not m & ~(self.A.of(lambda r: r == x[1]) & self.A.single):
                    return
        if a[0] == "tk" and b[0] == "tk" and a != b:
            m = self.tkmask(st, a[1]) | self.tkmask(st, b[1])
            if bits(m) == 1 and m & self.A.single:
                return
        super()._eq(st, a, b, path, diffs, span)

    def solo(self, nd, o, side, done):
        if o.kind == "term" and o.label == "ret":
            for c, dta, s2 in self.classify(o.st, o.data):
                if c != done[1]:
                    me, other = (c, done[1]) if side == "i" else (done[1], c)
                    w = "%s where the grammar %s" % (self.cls_text(me), self.cls_text(other))
                    self.viol(nd, "accept", o if side == "i" else None, o if side == "r" else None, w, self.cond(s2),
                              w + " @" + self.where(done[3] if side == "i" else o.site), loc=done[2] if side == "r" else None)
            return
        super().solo(nd, o, side, done)

    # ------------------------------------------------------------ parts of the analysis, by the first character of the token
    GROUPS = ("\"'`", "0123456789.", "a", "\\", "/<>", "=!+-*", "")
    TRIVIA = ("trivia", "rest_of_line", "block_comment")
    group = None
    all_trivia = True

    def group_mask(self, i):
        A = self.A
        ms = [A.chars(g) for g in self.GROUPS]
        ms[2] = (A.idstart | A.chars("$_")) & A.TOK
        ms[-1] = A.CODE | A.EOF
        for m in ms[:-1]:
            ms[-1] &= ~m
        return ms[i]

    def phase(self, fr):
        """name of the reference function, without the helpers"""
        names = [self.d.fns[x[0]].name for x in fr]
        while names and names[-1] in ("bump", "eat"):
            names.pop()
        return names[-1] if names else None

    def process(self, nd):
        self.filter = self.group is not None and nd.r[0] != "done" and nd.i[0] != "done" and (nd.parent is None or self.phase(nd.r[0]) in self.TRIVIA)
        if self.filter and (self.phase(nd.r[0]) == "trivia" if nd.parent is not None else not self.all_trivia):
            # comments before words and literals make no difference to what comes before a punctuator
            R = nd.R.restrict_cur(self.group | (self.white | self.A.chars("/<") if self.all_trivia else self.A.chars("\n")))
            if R.empty():
                return
            nd = copy.copy(nd)
            nd.R = R
        super().process(nd)

    # ------------------------------------------------------------ steps
    def match(self, nd, oi, orr):
        # a side that has ended with an error waits for the other one
        con, R = orr.st.con, orr.st.R
        if self.filter and (orr.kind == "term" or not set(self.functions(orr.site)[:3]) & set(self.TRIVIA)):
            # the first character of a token
            R = R.restrict_cur(self.group)
            if R.empty():
                return
            orr = Out(self.with_con(orr.st, con, R), orr.kind, orr.label, orr.data, orr.site, orr.ctx)
        si = oi.st.copy()
        si.con, si.R = con, R
        sr = orr.st
        if orr.kind == "term" and orr.label in ("panic", "loop"):
            raise Undecided("the reference panics in %s" % nd.name)
        if oi.kind == "term" and orr.kind == "term":
            for ci, di, s2 in self.classify(si, oi.data):
                for cr, dr, s3 in self.classify(sr, orr.data):
                    self.match_ret(nd, oi, orr, ci, di, s2, cr, dr, s3)
            return
        if oi.kind == "term" or orr.kind == "term":
            t, o, side = (oi, orr, "r") if oi.kind == "term" else (orr, oi, "i")
            c = self.classify(si if side == "r" else sr, t.data)[0][0]
            if c != "Bad":
                self.viol(nd, "event", oi, orr, "%s where the grammar goes on" % self.cls_text(c) if side == "r" else "goes on where the grammar %s" % self.cls_text(c),
                          self.cond(sr))
                return
            done = ("done", c, self.site_loc(t.site), t.site)
            o2 = Out((sr if side == "r" else si), "ev", o.label, o.data, o.site, o.ctx)
            self.advance(nd, done if side == "r" else o2, o2 if side == "r" else done, con, R, oi)
            return
        self.advance(nd, Out(si, "ev", oi.label, oi.data, oi.site, oi.ctx), Out(sr, "ev", orr.label, orr.data, orr.site, orr.ctx), con, R, oi)

    def advance(self, nd, oi, orr, con, R, o):
        self.stats["events"] += 1
        used = [n for n in self.all_names(con, oi, orr) if isinstance(n, int)]
        n = max(used, default=-1) + 1
        mp = {"cur": n, "peek": "cur"}
        con2 = self.rename_con(con, mp)
        con2[("tkm", n)] = R.cur() & self.A.TOK
        con2[("sp", ("tk", n, ()))] = (("e", nd_last(nd)),)
        R2 = Rel([(R.peek(), self.A.ALL)]) if R.peek() != self.A.EOF else Rel([(self.A.EOF, self.A.EOF)])
        self.succ(nd, oi, orr, mp, con2, R2, n, lambda st, ctx: self.res(ctx, True, ("tk", n, ())), (nd, self.A.show(R.cur())))

    def kept_op(self, st):
        return None

    def generalise(self, name, mi, mr, con):
        """all but the last part of a text is forgotten"""
        names = {}
        for mem in (mi, mr):
            if mem is not None:
                self.alive(mem, names)
        for k, v in con.items():
            names.update(self.names_of(k))
            if isinstance(v, tuple):
                names.update(self.names_of(v))
        fresh = [max([n for n in names if isinstance(n, int)], default=-1) + 1]
        vmap = {}
        last = self.cur_last
        near = {("e", last)}
        sp = con.get(("sp", ("tk", last, ())))
        if sp:
            near.add(sp[0])

        def f(x):
            if x[0] == "vec" and x[2] and x[2][-1][0] == "seg" and x[2][-1][2] not in near:
                x = ("vec", x[1], tuple(("seg", i[1], i[2], None) if i[0] == "seg" else i for i in x[2]))
            if x[0] == "vec" and x[2] and (x[1] is not None or len(x[2]) > 1):
                # what is known of characters is used for whole texts only
                x = ("vec", x[1], tuple(("seg", i[1], i[2], None) if i[0] == "seg" else i for i in x[2]))
            if x[0] == "vec" and len(x[2]) >= 2 and all(i[0] in ("seg", "s", "tk", "txt") for i in x[2]):
                k = self.strip(("vec", x[1], x[2][:-1]))
                g = vmap.get(k)
                if g is None:
                    g = vmap[k] = fresh[0]
                    fresh[0] += 1
                return ("vec", g, x[2][-1:])
            return self.walk(x, f)
        return [None if m is None else {r: f(v) for r, v in m.items()} for m in (mi, mr)]

    # ------------------------------------------------------------ reports
    def functions(self, site):
        """functions of a call chain, innermost first"""
        out = []
        c = site
        while c:
            parent, fid, bb = self.chain_list[c]
            f = self.d.fns[fid]
            if f.crate and f.crate.startswith("fajt") and not f.closure:
                out.append(f.name)
            c = parent
        return out

    def where(self, site):
        fs = self.functions(site) if site else []
        return fs[0] if fs else "?"

    def lab(self, o):
        return "return" if o.kind == "term" else o.label[0]

    def cond(self, st):
        b = []
        for k, v in sorted(st.con.items(), key=repr):
            if k[0] == "l" and isinstance(k[1], str) and k[1].startswith("cx:") and len(v) == 1:
                b.append(("" if next(iter(v)) else "!") + k[1][3:])
        return "current %s, next %s%s" % (self.A.show(st.R.cur()), self.A.show(st.R.peek()), (" [" + " ".join(b) + "]") if b else "")

    def vflags(self, *sts):
        return []

    def viol(self, nd, kind, oi, orr, what, cond, detail=None, loc=None):
        n0 = len(self.violations)
        rf = self.functions(orr.site) if orr is not None and orr.site else []
        fi = self.functions(oi.site) if oi is not None and oi.site else []
        detail = "%s/%s:%s" % (fi[0] if fi else "-", rf[0] if rf else "-", detail or what)
        super().viol(nd, kind, oi, orr, what, cond, detail, loc)
        if len(self.violations) > n0:
            k = next(reversed(self.violations))
            done = [x for x in (nd.i, nd.r) if x[0] == "done"]
            for x in done:
                (rf if x is nd.r else fi).extend(self.functions(x[3]))
            self.violations[k].update(impl=fi, ref=rf)


def nd_last(nd):
    return nd.last


LEXMODELS = {
    "fajt_common::io::PeekReader::<T, I>::current": LexJoint.p_current,
    "fajt_common::io::PeekReader::<T, I>::peek": LexJoint.p_peek,
    "fajt_common::io::PeekReader::<T, I>::position": LexJoint.p_position,
    "fajt_common::io::PeekReader::<T, I>::consume": LexJoint.p_consume,
    "std::string::String::new": Joint.m_vec_new,
    "std::string::String::with_capacity": Joint.m_vec_new,
    "std::string::String::push": LexJoint.p_push,
    "std::string::String::push_str": LexJoint.p_push,
    "std::string::String::is_empty": LexJoint.p_is_empty,
    "core::str::<impl str>::is_empty": LexJoint.p_is_empty,
    "std::string::String::len": LexJoint.p_len,
    "core::str::<impl str>::len": LexJoint.p_len,
    "core::str::<impl str>::is_char_boundary": LexJoint.p_boundary,
    "std::str::<impl std::borrow::ToOwned for str>::to_owned": LexJoint.p_owned,
    "<std::string::String as std::convert::From<&str>>::from": LexJoint.p_owned,
    "<std::string::String as std::convert::From<char>>::from": LexJoint.p_from_char,
    "core::num::<impl u32>::from_str_radix": LexJoint.p_radix,
    "std::char::convert::<impl std::convert::TryFrom<u32> for char>::try_from": LexJoint.p_chr,
    "std::char::from_u32": LexJoint.p_chr,
    "core::char::convert::from_u32": LexJoint.p_chr,
    "std::char::methods::<impl char>::from_u32": LexJoint.p_chr,
    "core::char::methods::<impl char>::from_u32": LexJoint.p_chr,
    "std::char::methods::<impl char>::to_digit": LexJoint.p_digit,
    "core::char::methods::<impl char>::to_digit": LexJoint.p_digit,
    "std::char::methods::<impl char>::is_digit": LexJoint.p_digit,
    "core::char::methods::<impl char>::is_digit": LexJoint.p_digit,
    "core::char::methods::<impl char>::len_utf8": LexJoint.p_top,
    "core::char::methods::<impl char>::len_utf16": LexJoint.p_top,
    "std::fmt::format": LexJoint.p_top,
}


def part(i):
    j = LexJoint(_D)
    j.group = j.group_mask(i)
    j.all_trivia = i >= 4
    t0 = time.time()
    j.deadline = t0 + LIMIT
    und = None
    try:
        j.reset()
        j.alltries = 0
        j.nm_memo, j.out_memo, j.op_memo = {}, {}, {}
        j.per_fn = defaultdict(int)
        j.entry("read", Rel([(j.A.TOK, j.A.ALL), (j.A.EOF, j.A.EOF)]))
        while j.work:
            nd = j.work.pop()
            nd.queued = False
            if time.time() > j.deadline:
                raise Budget("the product of the lexers takes too long")
            j.process(nd)
    except (Undecided, Budget) as e:
        fr = j.lastfr or ()
        und = "%s: %s in %s" % (type(e).__name__, str(e)[:300], _D.fns[fr[-1][0]].path if fr else "?")
    except Exception as e:
        traceback.print_exc()
        und = "%s: %s" % (type(e).__name__, str(e)[:300])
    return dict(part=i, violations=list(j.violations.values()), undecided=und, nodes=len(j.nodes), stats=dict(j.stats), atoms=len(j.A.names), time=time.time() - t0,
                shape=shape(j) if SHAPE else None)


SHAPE = False


def shape(j):
    c = defaultdict(int)
    for nd in j.nodes.values():
        c[tuple(">".join(j.d.fns[f[0]].name for f in x[0]) if x[0] != "done" else "done" for x in (nd.i, nd.r))] += 1
    return sorted(c.items(), key=lambda x: -x[1])[:60]


def run(dump, log=print):
    """results of the parts"""
    global _D
    _D = dump
    LexJoint(dump)
    t0 = time.time()
    with get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = list(pool.imap_unordered(part, range(len(LexJoint.GROUPS)), chunksize=1))
    log("lexer: %d product states in %.0f s" % (sum(r["nodes"] for r in res), time.time() - t0))
    return res


if __name__ == "__main__":
    import sys
    import dump as dm
    SHAPE = len(sys.argv) > 2
    for r in run(dm.Dump(sys.argv[1])):
        print(r["part"], LexJoint.GROUPS[r["part"]], "nodes", r["nodes"], r["stats"], "%.1f s" % r["time"], "atoms", r["atoms"], "UNDECIDED %s" % r["undecided"] if r["undecided"] else "")
        for v in r["violations"][:8]:
            print("   ", v["kind"], v["what"][:300], v["impl"][:3], v["ref"][:3])
        for x in r["shape"] or ():
            print("      ", x)
