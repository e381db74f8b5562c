"""The reader that is one item ahead, rewinding and re-reading with another lexer state.

Every operation is interpreted with an opaque state; what it takes from the source below it are events with opaque
results.  On every path the events, the state that is left and the result are compared with the specification.
"""
from absint import Interp, St, K, TRUE, FALSE, UNIT, TOP, Undecided, Budget
from joint import PANICS

INL = ("l", "inner", ())


class Reader(Interp):
    """events: what is asked of the source of the items"""

    def __init__(self, dump):
        super().__init__(dump)
        self.event = {}
        self.MAXSTEPS = 20000

    def load_self(self, st):
        return st.mem.get(("self", 0))

    # ---- models
    def intrinsic(self, st, name, tys, args):
        if name == "typed_swap_nonoverlapping":
            a, b = [self.place(x) for x in args]
            x, y = self.loadlv(st, a), self.loadlv(st, b)
            self.storelv(st, a, y)
            self.storelv(st, b, x)
            return UNIT
        if name in ("write_via_move", "write"):
            self.storelv(st, self.place(args[0]), args[1])
            return UNIT
        if name in ("read_via_copy", "read"):
            return self.deref1(st, args[0])
        return super().intrinsic(st, name, tys, args)

    def place(self, v):
        if v[0] != "r" or v[1][0] == "V":
            raise Undecided("store through %r" % (v,))
        return ("M", v[1], v[2])

    def find_primitive(self, g):
        if g.id in self.event:
            return Reader.p_event
        p = g.path
        if p in ("core::str::<impl str>::char_indices",):
            return Reader.p_term
        if g.name == "index" and "Index<" in p and "str" in p:
            return Reader.p_index
        if p.endswith("<impl str>::len"):
            return Reader.p_term
        if p.endswith("<impl str>::is_char_boundary"):
            return Reader.p_boundary
        if p.endswith("::len_utf8") or p.endswith("::len_utf16"):
            return Reader.p_term
        if PANICS.search(p):
            return None
        return None

    def p_term(self, st, g, args, site, ctx):
        return ("op", g.name) + tuple(self.norm(st, a) for a in args)

    p_boundary = p_term

    def p_index(self, st, g, args, site, ctx):
        return ("op", "slice") + tuple(self.norm(st, a) for a in args)

    def norm(self, st, a):
        """arguments: what they refer to"""
        if a[0] == "r":
            return self.deref(st, a)
        return a

    def p_event(self, st, g, args, site, ctx):
        lab = self.event[g.id]
        n = sum(1 for a in st.acts if a[0] == "ev")
        if n >= 6:
            raise Undecided("more than six requests in one operation")
        res = ("l", "r%d" % n, ())
        extra = ()
        if self.on_call:
            extra = self.on_call(self, st, lab, n)
        st.acts = st.acts + (("ev", lab, tuple(self.norm(st, a) for a in args[1:])) + tuple(extra),)
        return UNIT if lab in ("rewind_before",) else res
    on_call = None

    def leaf(self, st, g, args, site):
        if PANICS.search(g.path):
            return None
        if g.kind == "drop":
            return UNIT
        if g.name in ("char_indices", "len", "len_utf8", "len_utf16", "is_char_boundary"):
            return self.p_term(st, g, args, site, None)
        raise Undecided("call of %s" % g.path)

    def split_op(self, st, v, keyf, allg):
        if v[1] in ("is_char_boundary",):
            return self.split_scalar(st, v, keyf, allg)
        return None

    def split_cmp(self, st, op, a, b, keyf, allg):
        v = ("op", op, a, b)
        neg = {"Ge": "Lt", "Le": "Gt", "Ne": "Eq"}
        if op == "Gt":
            v, op = ("op", "Lt", b, a), "Lt"
        elif op == "Le":
            v = ("op", "Lt", b, a)
        elif op in neg:
            v = ("op", neg[op], a, b)
        flip = op in neg
        return self.split_scalar(st, v, (lambda x: keyf(1 - x)) if flip else keyf, allg)

    def arith(self, op, a, b):
        op = {"AddWithOverflow": "Add", "AddUnchecked": "Add", "SubUnchecked": "Sub"}.get(op, op)
        if op == "Add":
            # sums are normalised: constants to the right and added up
            if a[0] == "k":
                a, b = b, a
            if b == K(0):
                return a
            if b[0] == "k" and a[0] == "op" and a[1] == "Add" and a[3][0] == "k":
                return ("op", "Add", a[2], K(a[3][1] + b[1]))
            if b[0] != "k" and repr(b) < repr(a):
                a, b = b, a
            return ("op", "Add", a, b)
        if op == "Sub":
            if b == K(0):
                return a
            return ("op", "Sub", a, b)
        return ("op", op, a, b)

    def cast(self, v, kind, ty):
        if kind in ("IntToInt",):
            return v
        return super().cast(v, kind, ty)

    # ---- running
    def paths(self, f, args, selfv=None, ext=None):
        """all paths of f: [(kind, value, acts, con, state, site)]"""
        out = []
        mem = {(0, i + 1): a for i, a in enumerate(args)}
        if selfv is not None:
            mem[("self", 0)] = selfv
        for i, v in (ext or {}).items():
            mem[i] = v
        st = St(((f.id, 0, None, None, 0),), mem, {}, (), _R, None)

        def term(s, kind, v, site):
            out.append((kind, v, s.acts, s.con, s, site))
        self.run_segment(st, None, term)
        return out


class _Rel:
    def __or__(self, o):
        return self

    def __eq__(self, o):
        return True

    def empty(self):
        return False


_R = _Rel()


def run(dump):
    out = []
    n = [0]
    T = dump.types
    undecided = {}

    def section(f, *args):
        try:
            f(*args)
        except (Undecided, Budget, KeyError, IndexError, ValueError, AttributeError, TypeError, StopIteration) as e:
            undecided[" ".join((f.__name__[:-8],) + args)] = "%s: %s" % (type(e).__name__, str(e)[:200])

    def fn(suffix, *must):
        c = [f for f in dump.fns if f.path == suffix and f.nargs and f.blocks and all(m in f.full for m in must)]
        if len(c) != 1:
            raise Undecided("%s %s: %d definitions" % (suffix, must, len(c)))
        return c[0]

    def bad(key, what, f):
        out.append(dict(key="reader:" + key, what=what, loc=(f.path, f.loc)))

    class Spec:
        """comparison of values under the case distinctions of a path"""

        def __init__(self, D, con, st):
            self.D, self.con, self.st = D, con, st

        def eq(self, a, b):
            """a: value of the code, b: value of the specification"""
            D = self.D
            if a[0] == "r":
                a = D.deref(self.st, a)
            if b[0] == "r":
                b = D.deref(self.st, b)
            if a == b:
                return True
            if a[0] == "b" and b[0] == "l":
                return self.eq(a[1], b)
            if a[0] == "l" and b[0] == "a":
                a, b = b, a
            if a[0] == "a" and b[0] == "l":
                vs = T[a[1]].get("variants") or []
                if len(vs) > 1:
                    d = vs[a[2]]["d"]
                    if self.con.get(b) != frozenset([d]):
                        return False
                return all(self.eq(x, self.pr(b, a, i)) for i, x in enumerate(a[3]))
            if a[0] == "l" and b[0] == "t":
                a, b = b, a
            if a[0] == "t" and b[0] == "l":
                return all(self.eq(x, D.proj(b, ("f", i))) for i, x in enumerate(a[1]))
            if a[0] == "a" and b[0] == "a":
                return a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]) and all(self.eq(x, y) for x, y in zip(a[3], b[3]))
            if a[0] == "t" and b[0] == "t":
                return len(a[1]) == len(b[1]) and all(self.eq(x, y) for x, y in zip(a[1], b[1]))
            if a[0] == "op" and b[0] == "op" and a[1] == b[1] and len(a) == len(b):
                return all(x == y or isinstance(x, tuple) and isinstance(y, tuple) and self.eq(x, y) for x, y in zip(a[2:], b[2:]))
            return False

        def pr(self, b, a, i):
            vs = T[a[1]].get("variants") or []
            if len(vs) > 1:
                b = self.D.proj(b, ("v", a[2]))
            return self.D.proj(b, ("f", i))

    def okv(D, r):
        return D.proj(D.proj(r, ("v", 0)), ("f", 0))

    def errv(D, r):
        return D.proj(D.proj(r, ("v", 1)), ("f", 0))

    def struct(name, must=""):
        c = [i for i, t in enumerate(T) if t.get("s", "").startswith(name) and t.get("variants") and must in t["s"]]
        if len(c) != 1:
            raise Undecided("type %s %s: %d" % (name, must, len(c)))
        return c[0]

    def opaque(ty):
        fs = [f[0] for f in T[ty]["variants"][0]["f"]]
        return ("a", ty, 0, tuple(("l", x, ()) for x in fs), None), fs

    SELF = ("r", ("self", 0), ())

    def isres(ret, D):
        """('Ok'|'Err', payload) of a result value; None when it is not constructed"""
        if ret[0] == "a":
            return T[ret[1]]["variants"][ret[2]]["n"], (ret[3][0] if ret[3] else UNIT)
        return None, None

    def each(f, D, args, selfv=None, ext=None):
        ps = D.paths(f, args, selfv, ext)
        if not ps:
            raise Undecided("%s: no path" % f.path)
        for kind, v, acts, con, st, site in ps:
            n[0] += 1
            if kind == "panic":
                yield None, v, acts, con, st, Spec(D, con, st)
                continue
            if kind != "ret":
                raise Undecided("%s: path ends with %s" % (f.path, kind))
            yield st.mem.get(("self", 0)), v, acts, con, st, Spec(D, con, st)

    def result_is(ret, r, S, D, con, okf):
        """the result is Ok(okf(payload)) or the same error, as the case distinctions of the path say"""
        c = con.get(r)
        if c == frozenset([0]):
            k, x = isres(ret, D)
            return k == "Ok" and S.eq(x, okf(okv(D, r)))
        if c == frozenset([1]):
            k, x = isres(ret, D)
            return k == "Err" and S.eq(x, errv(D, r))
        return False

    # ------------------------------------------------------------ the reader, for characters and for tokens
    lexer_ty = struct("fajt_lexer::Lexer<")
    r0, ls = ("l", "r0", ()), ("l", "other", ())
    def reader_section(item, must):
        m = must.replace("PeekReader", "PeekReader::")
        P = "fajt_common::io::PeekReader::<T, I>::"

        def rfn(name):
            c = [f for f in dump.fns if f.full.startswith("fajt_common::io::" + m) and f.full.endswith(">::" + name) and f.blocks and f.nargs and not f.closure]
            if len(c) != 1:
                raise Undecided("%s::%s: %d definitions" % (m, name, len(c)))
            return c[0]
        ty = struct("fajt_common::io::" + must)
        sv, fs = opaque(ty)
        if fs != ["inner", "current", "next", "position", "offset"]:
            raise Undecided("fields of the reader: %s" % fs)
        F = {x: i for i, x in enumerate(fs)}
        L = {x: ("l", x, ()) for x in fs}
        D = Reader(dump)
        nexts = [f.id for f in dump.fns if f.nargs and f.name == "next" and ("PeekRead<char> for" in f.path if item == "character" else "as fajt_common::io::PeekRead<fajt_lexer::token::Token>>" in f.full)]
        for i in nexts:
            D.event[i] = "next"
        for f in dump.fns:
            if f.nargs and f.name in ("rewind_before", "read_with_state") and "ReReadWithState" in f.path:
                D.event[f.id] = f.name

        def same(S, st, but=()):
            cur = st
            return [x for x in fs if x not in but and not S.eq(cur[3][F[x]], L[x])]

        def labels(acts):
            return [a[1] for a in acts if a[0] == "ev"]
        for name, src in (("current", "current"), ("peek", "next")):
            f = rfn(name)
            for st, ret, acts, con, s, S in each(f, D, [SELF], sv):
                if st is None or acts or same(S, st) or not result_is(ret, L[src], S, D, con, lambda p: D.proj(p, ("f", 1))):
                    bad("%s:%s" % (item, name), "%s() of the %s reader does not give the %s item and leave the reader as it is" % (name, item, src), f)
        f = rfn("position")
        for st, ret, acts, con, s, S in each(f, D, [SELF], sv):
            if st is None or acts or same(S, st) or not S.eq(ret, L["position"]):
                bad("%s:position" % item, "position() of the %s reader is not its position" % item, f)
        f = rfn("consume")
        seen = set()
        for st, ret, acts, con, s, S in each(f, D, [SELF], sv):
            c = con.get(L["current"])
            seen.add(c)
            if st is None or labels(acts) != ["next"] or not S.eq(st[3][F["current"]], L["next"]) or not S.eq(st[3][F["next"]], ("l", "r0", ())) \
                    or same(S, st, ("current", "next", "position")):
                bad("%s:consume" % item, "consume() of the %s reader does not move every item one place up and read one" % item, f)
            elif not result_is(ret, L["current"], S, D, con, lambda p: D.proj(p, ("f", 1))):
                bad("%s:consume:result" % item, "consume() of the %s reader does not return the current item or error" % item, f)
            else:
                want = D.arith("Add", D.proj(okv(D, L["current"]), ("f", 0)), L["offset"]) if c == frozenset([0]) else L["position"]
                if not S.eq(st[3][F["position"]], want):
                    bad("%s:consume:position" % item, "after consume() the position of the %s reader is not the end of the item it returned" % item, f)
        for name in ("with_offset", "new"):
            f = rfn(name)
            off = ("l", "off", ()) if name == "with_offset" else K(0)
            for st, ret, acts, con, s, S in each(f, D, [INL] + ([off] if name == "with_offset" else [])):
                k, x = isres(ret, D)
                want = [INL, ("l", "r0", ()), ("l", "r1", ()), off, off]
                if labels(acts) != ["next", "next"] or k != "Ok" or x[0] != "a" or not all(S.eq(a, b) for a, b in zip(x[3], want)):
                    bad("%s:%s" % (item, name), "%s() of the %s reader does not start with the first two items at the given offset" % (name, item), f)
        if item == "token":
            f = rfn("rewind_to")
            tok = ("l", "item", ())
            for st, ret, acts, con, s, S in each(f, D, [SELF, ("r", ("V", tok), ())], sv):
                ev = [a for a in acts if a[0] == "ev"]
                if st is None or labels(acts) != ["rewind_before", "next", "next"] or not S.eq(ev[0][2][0], tok) or not S.eq(st[3][F["current"]], ("l", "r1", ())) \
                        or not S.eq(st[3][F["next"]], ("l", "r2", ())) or same(S, st, ("current", "next")) or isres(ret, D)[0] != "Ok":
                    bad("rewind_to", "rewind_to() does not go back to the item and read it and the one after it again", f)
            f = rfn("reread_with_state")
            lst = ("l", "state", ())
            for st, ret, acts, con, s, S in each(f, D, [SELF, lst], sv):
                ev = [a for a in acts if a[0] == "ev"]
                c = con.get(L["current"])
                if c == frozenset([0]):
                    t = D.proj(okv(D, L["current"]), ("f", 1))
                    ok = st is not None and labels(acts) == ["rewind_before", "read_with_state", "next"] and S.eq(ev[0][2][0], t) and S.eq(ev[1][2][0], lst) \
                        and S.eq(st[3][F["current"]], ("l", "r1", ())) and S.eq(st[3][F["next"]], ("l", "r2", ())) and not same(S, st, ("current", "next"))
                else:
                    ok = st is not None and c == frozenset([1]) and not ev and not same(S, st)
                if not ok or isres(ret, D)[0] != "Ok":
                    bad("reread_with_state", "reread_with_state() does not read the current item again with the state and the next one without it", f)

    section(reader_section, "character", "PeekReader<char")
    section(reader_section, "token", "PeekReader<fajt_lexer::token::Token")

    # ------------------------------------------------------------ positions of characters
    @section
    def positions_section():
        c = [f for f in dump.fns if "PeekRead<char> for std::str::CharIndices" in f.path and f.name == "next" and f.nargs == 1]
        if len(c) != 1:
            raise Undecided("next of CharIndices: %d" % len(c))
        f = c[0]
        D = Reader(dump)
        for g in dump.fns:
            if g.path == "<std::str::CharIndices<'a> as std::iter::Iterator>::next":
                D.event[g.id] = "next_char"
        r0 = ("l", "r0", ())
        for st, ret, acts, con, s, S in each(f, D, [("r", ("self", 0), ())], ("l", "chars", ())):
            c = con.get(r0)
            k, x = isres(ret, D)
            if [a[1] for a in acts] != ["next_char"] or c not in (frozenset([0]), frozenset([1])) or (k == "Ok") != (c == frozenset([1])):
                bad("char:next", "reading a character does not give the next one of the text, or the end of the stream at its end", f)
            elif k == "Ok":
                it = D.proj(D.proj(r0, ("v", 1)), ("f", 0))
                ch, pos = D.proj(it, ("f", 1)), D.proj(it, ("f", 0))
                if x[0] != "t" or not S.eq(x[1][1], ch):
                    bad("char:next", "reading a character does not give the next one of the text", f)
                else:
                    end = x[1][0]
                    ends = {nm: D.arith("Add", pos, ("op", nm, ch)) for nm in ("len_utf8", "len_utf16")}
                    if S.eq(end, ends["len_utf16"]):
                        bad("position:utf16", "the end of a character outside ASCII is counted in UTF-16 units from its first byte (positions and spans after it are too small)", f)
                    elif not S.eq(end, ends["len_utf8"]):
                        bad("char:end", "the end of a character is not its position plus its length", f)

    # ------------------------------------------------------------ the lexer as a source that can go back
    sv, fs = opaque(lexer_ty)
    if sorted(fs) != ["data", "first_on_line", "reader", "state"]:
        raise Undecided("fields of the lexer: %s" % fs)
    F = {x: i for i, x in enumerate(fs)}
    L = {x: ("l", x, ()) for x in fs}
    # the text is behind a reference
    sv = sv[:3] + (tuple(("r", ("V", ("l", "text", ())), ()) if x == "data" else v for x, v in zip(fs, sv[3])), None)
    L["data"] = ("l", "text", ())

    def lfn(name, full=None):
        c = [g for g in dump.fns if g.path.startswith(("fajt_lexer::Lexer", "<fajt_lexer::Lexer")) and g.name == name and g.nargs and g.blocks and (full is None or full in g.path)]
        if len(c) != 1:
            raise Undecided("Lexer::%s: %d definitions" % (name, len(c)))
        return c[0]

    def lsame(S, st, but=()):
        return [x for x in fs if x not in but and not S.eq(st[3][F[x]], L[x])]
    # next: the token and its end
    @section
    def next_section():
        f = lfn("next", "PeekRead")
        D = Reader(dump)
        D.event[lfn("read").id] = "read"
        for st, ret, acts, con, s, S in each(f, D, [SELF], sv):
            if st is None or [a[1] for a in acts] != ["read"] or lsame(S, st) or not result_is(ret, r0, S, D, con, lambda p: ("t", (token_end(D, p, T), p))):
                bad("lexer:next", "the next item of the lexer is not the token that was read with its end", f)
    # rewinding
    @section
    def rewind_before_section():
        f = lfn("rewind_before")
        D = Reader(dump)
        cb = lfn("char_boundary")
        D.event_pure = cb.id
        D.prim_cache[cb.id] = lambda self, st, g, args, site, ctx: ("op", "char_boundary", args[1])
        for g in dump.fns:
            if g.nargs and g.name == "next" and "PeekRead<char> for" in g.path:
                D.event[g.id] = "next"
        tok = ("l", "item", ())
        for st, ret, acts, con, s, S in each(f, D, [SELF, ("r", ("V", tok), ())], sv):
            ok = False
            if st is not None:
                b = ("op", "char_boundary", token_start(D, tok, T))
                rd = st[3][F["reader"]]
                ok = rd[0] == "a" and [a[1] for a in acts] == ["next", "next"] and S.eq(st[3][F["first_on_line"]], token_line(D, tok, T)) and not lsame(S, st, ("reader", "first_on_line"))
                if ok:
                    inner, cur, nxt, pos, off = rd[3]
                    ok = S.eq(cur, ("l", "r0", ())) and S.eq(nxt, ("l", "r1", ())) and S.eq(pos, b) and S.eq(off, b) and chars_from(inner, b, L["data"], S)
            if not ok:
                bad("lexer:rewind_before", "going back to a token does not set the lexer to the start of the token with the token's line terminator flag", f)
    # reading with another state
    @section
    def read_with_state_section():
        f = lfn("read_with_state")
        D = Reader(dump)
        for g in dump.fns:
            if g.nargs and g.name == "next" and "as fajt_common::io::PeekRead<fajt_lexer::token::Token>>" in g.full:
                D.event[g.id] = "next"
            if g.nargs and g.path.startswith("fajt_lexer::Lexer") and g.name == "read":
                D.event[g.id] = "read"
        states = []

        def snap(D, st, lab, k):
            v = st.mem[("self", 0)]
            states.append(v[3][F["state"]])
            # the lexer moves on
            st.mem[("self", 0)] = v[:3] + (tuple(("l", x + "'", ()) if x in ("reader", "first_on_line") else y for x, y in zip(fs, v[3])), None)
            return ()
        D.on_call = snap
        for st, ret, acts, con, s, S in each(f, D, [SELF, ls], sv):
            lab = [a[1] for a in acts]
            ok = st is not None and all(S.eq(x, ls) for x in states) and not lsame(S, st, ("reader", "first_on_line")) and S.eq(st[3][F["reader"]], ("l", "reader'", ())) \
                and S.eq(st[3][F["first_on_line"]], ("l", "first_on_line'", ()))
            if ok and lab == ["next"]:
                ok = S.eq(ret, r0) or result_is(ret, r0, S, D, con, lambda p: p)
            elif ok:
                ok = lab == ["read"] and result_is(ret, r0, S, D, con, lambda p: ("t", (token_end(D, p, T), p)))
            if not ok:
                bad("lexer:read_with_state", "reading with another state does not read one token in that state and restore the state afterwards, also after an error", f)
    # a new lexer
    @section
    def new_section():
        f = lfn("new")
        D = Reader(dump)
        for g in dump.fns:
            if g.nargs and g.name == "next" and "PeekRead<char> for" in g.path:
                D.event[g.id] = "next"
        text = ("l", "text", ())
        for st, ret, acts, con, s, S in each(f, D, [("r", ("V", text), ())]):
            k, x = isres(ret, D)
            ok = k == "Ok" and x[0] == "a" and [a[1] for a in acts] == ["next", "next"]
            if ok:
                rd = x[3][F["reader"]]
                ok = rd[0] == "a" and S.eq(x[3][F["data"]], text) and x[3][F["first_on_line"]] == TRUE and flags(x[3][F["state"]]) == STATES["default"]
                if ok:
                    inner, cur, nxt, pos, off = rd[3]
                    ok = S.eq(cur, ("l", "r0", ())) and S.eq(nxt, ("l", "r1", ())) and pos == K(0) and off == K(0) and inner[0] == "op" and inner[1] == "char_indices" and S.eq(inner[2], text)
            if not ok:
                bad("lexer:new", "a new lexer does not start at the start of the text, at the start of a line, in the default state", f)
    # the states
    @section
    def states_section():
        sty = struct("fajt_lexer::LexerState")
        names = [x[0] for x in T[sty]["variants"][0]["f"]]
        for name, want in STATES.items():
            c = [g for g in dump.fns if g.name == name and "LexerState" in g.path and g.nargs == 0 and g.blocks and g.locals[0] == sty]
            if len(c) != 1:
                raise Undecided("LexerState::%s: %d definitions" % (name, len(c)))
            D = Reader(dump)
            for st, ret, acts, con, s, S in each(c[0], D, []):
                if flags(ret) is None or dict(zip(names, flags_list(ret))) != want:
                    bad("state:" + name, "the lexer state %s is not %s" % (name, {k: bool(v) for k, v in want.items()}), c[0])
        c = [g for g in dump.fns if g.name == "with_html_comments_allowed" and "LexerState" in g.path and g.nargs == 2]
        if len(c) == 1:
            D = Reader(dump)
            ov, _ = opaque(sty)
            for st, ret, acts, con, s, S in each(c[0], D, [SELF, ("l", "allowed", ())], ov):
                want = {x: ("l", x, ()) for x in names}
                want["html_comment_allowed"] = ("l", "allowed", ())
                if ret[0] != "a" or any(not S.eq(v, want[x]) for x, v in zip(names, ret[3])):
                    bad("state:with_html_comments_allowed", "with_html_comments_allowed changes more or less than that flag", c[0])
        c = [g for g in dump.fns if g.name == "set_state" and g.path.startswith("fajt_lexer::Lexer") and g.nargs == 2]
        if len(c) == 1:
            D = Reader(dump)
            for st, ret, acts, con, s, S in each(c[0], D, [SELF, ls], sv):
                if st is None or not S.eq(st[3][F["state"]], ls) or lsame(S, st, ("state",)):
                    bad("lexer:set_state", "set_state does not set the state of the lexer and nothing else", c[0])
    def entry(f, only, args):
        D = Entry(dump)
        kinds = {v["d"]: v["n"] for t in T if t.get("s") == "fajt_ast::SourceType" for v in t["variants"]}
        text = ("l", "text", ())
        for k, ret, acts, con, st, site in D.paths(f, args):
            if k != "ret":
                if k not in ("cut", "unreachable"):
                    ok = any(a[0] == "fails" for a in acts)
                    if not ok:
                        bad("entry:panic", "parsing can fail before the source is read", f)
                continue
            made = [a for a in acts if a[0] == "reader"]
            run_ = [a for a in acts if a[0] == "parse"]
            if not made or not run_:
                if any(a[0] == "fails" for a in acts):
                    continue
                raise Undecided("%s: no reader or no parser" % f.path)
            seen = con.get(("l", "type", ()))
            for c, vals in con.items():
                if c[0] == "op" and c[1] == "discr" and c[2] == ("l", "type", ()):
                    seen = vals
                if c[0] == "op" and c[1] in ("Eq", "Ne") and len(c) == 4 and c[2][0] == "op" and c[2][1] == "discr" and c[2][2] == ("l", "type", ()) and c[3][0] == "k":
                    eq = (c[1] == "Eq") == (vals == frozenset([1]))
                    seen = frozenset(x for x in (seen or kinds) if (x == c[3][1]) == eq)
            types = only or {kinds[x] for x in (kinds if seen is None else seen) if x in kinds}
            lx = made[0][1]
            disc = {n: d for d, n in kinds.items()}

            def value(v, d):
                """a flag, if the source type is this one"""
                if v == ("l", "type", ()) or v[0] == "op" and v[1] == "discr" and v[2] == ("l", "type", ()):
                    return d
                if v[0] == "k":
                    return int(v[1])
                if v[0] == "op" and v[1] == "Not":
                    return 1 - value(v[2], d)
                if v[0] == "op" and v[1] in ("Eq", "Ne"):
                    return int((value(v[2], d) == value(v[3], d)) == (v[1] == "Eq"))
                raise Undecided("lexer state %r" % (v,))
            for ty in sorted(types):
                if lx[0] != "a" or lx[3][F["state"]][0] != "a":
                    raise Undecided("%s: lexer state %r" % (f.path, lx))
                state = flags(("a", 0, 0, tuple(K(value(x, disc[ty])) for x in lx[3][F["state"]][3]), None))
                want = dict(STATES["default"], html_comment_allowed=0 if ty == "Module" else 1)
                if state != want and not (ty not in ("Module", "Script") and dict(state, html_comment_allowed=1) == STATES["default"]):
                    bad("entry:state:" + ty, "a %s is read in the lexer state %s" % (ty.lower(), {k: bool(v) for k, v in state.items()}), f)
            if not S_eq(lx[3][F["data"]], text):
                bad("entry:text", "not the whole source is read", f)
            passed = run_[0][1]
            names = types if passed == ("l", "type", ()) else {kinds.get(T_variant(passed))} if T_variant(passed) is not None else None
            if names is None:
                raise Undecided("%s: source type %r" % (f.path, passed))
            if names != types:
                bad("entry:type", "the source is parsed as another type than the caller gave", f)

    def S_eq(a, b):
        return a == b or (a[0] == "r" and a[1] == ("V", b))

    def T_variant(v):
        if v[0] == "a":
            return v[2]
        if v[0] == "k":
            return v[1]
        return None
    # from the source and its type to the parser
    @section
    def entry_section():
        tops = [g for g in dump.fns if g.crate == "fajt_parser" and g.name == "parse" and g.nargs == 2 and g.blocks and not g.trait and not g.closure and g.promoted is None
                and T[g.locals[1]].get("s") == "&str" and T[g.locals[2]].get("s") == "fajt_ast::SourceType"]
        for name, want in (("parse_script", "Script"), ("parse_module", "Module")):
            for f in [g for g in dump.fns if g.crate == "fajt_parser" and g.name == name and g.blocks and g.nargs == 1]:
                entry(f, {want}, [("r", ("V", ("l", "text", ())), ())])
        for f in tops:
            entry(f, None, [("r", ("V", ("l", "text", ())), ()), ("l", "type", ())])

    # the start of the next character
    @section
    def char_boundary_section():
        cb = lfn("char_boundary")
        D = Reader(dump)
        D.MAXSTEPS = 2000
        pos = ("l", "position", ())

        def at(k):
            return D.arith("Add", pos, K(k))
        text_len = None

        def boundary(self, st, g, args, site, ctx):
            v = self.norm(st, args[1]) if len(args) > 1 else TOP
            # a character has at most four bytes
            if v[0] == "op" and v[1] == "Add" and v[3][0] == "k" and v[3][1] >= 3:
                return TRUE
            if v not in [at(k) for k in range(3)]:
                raise Undecided("is_char_boundary(%r)" % (v,))
            return ("op", "is_char_boundary", v)
        for g in dump.fns:
            if g.path.endswith("<impl str>::is_char_boundary"):
                D.prim_cache[g.id] = boundary
            if g.path.endswith("<impl str>::len"):
                D.prim_cache[g.id] = lambda self, st, g, args, site, ctx: ("l", "len", ())
        ln = ("l", "len", ())

        def truth(con, v):
            x = con.get(v)
            return None if x is None or len(x) != 1 else next(iter(x))
        for st, ret, acts, con, s, S in each(cb, D, [SELF, pos], sv):
            k = next((i for i in range(4) if ret == at(i)), None)
            inside = lambda i: truth(con, ("op", "Lt", at(i), ln))
            on = lambda i: 1 if i == 3 else truth(con, ("op", "is_char_boundary", at(i)))
            ok = k is not None and (inside(k) == 0 or on(k) == 1 or ln == at(k)) and all(on(i) == 0 for i in range(k))
            if not ok:
                bad("lexer:char_boundary", "the start of the next character is not the first boundary at or after the position", cb)
    return dict(violations=out, cases=n[0], undecided=undecided)


class Entry(Reader):
    def find_primitive(self, g):
        if g.name == "next" and "PeekRead<char> for" in g.path:
            return Entry.p_char
        if g.name in ("new", "with_offset") and "PeekReader::<fajt_lexer::token::Token" in g.full:
            return Entry.p_reader
        if g.crate == "fajt_parser" and g.name == "parse" and not g.trait and "::Parser::<" in g.path:
            return Entry.p_parse
        return super().find_primitive(g)

    def p_char(self, st, g, args, site, ctx):
        return ("l", "char", ())

    def p_reader(self, st, g, args, site, ctx):
        st.acts = st.acts + (("reader", self.deref(st, args[0]) if args[0][0] == "r" else args[0]),)
        ty = self.pty(ctx["f"], ctx["dest"])
        return ("a", ty, 0, (("l", "reader", ()),), None)

    def p_parse(self, st, g, args, site, ctx):
        st.acts = st.acts + (("parse", args[-1]),)
        return ("l", "result", ())


STATES = {"default": dict(html_comment_allowed=1, regex_allowed=0, inside_template=0), "regex_allowed": dict(html_comment_allowed=1, regex_allowed=1, inside_template=0),
          "inside_template": dict(html_comment_allowed=1, regex_allowed=0, inside_template=1)}


def flags_list(v):
    return [x[1] if x[0] == "k" else None for x in v[3]]


def flags(v):
    if v[0] != "a" or any(x[0] != "k" for x in v[3]):
        return None
    return dict(zip(("html_comment_allowed", "regex_allowed", "inside_template"), flags_list(v)))


def field(D, T, v, ty, name):
    t = next(i for i, t in enumerate(T) if t.get("s") == ty and t.get("variants"))
    i = [x[0] for x in T[t]["variants"][0]["f"]].index(name)
    return D.proj(v, ("f", i))


def token_span(D, tok, T):
    return field(D, T, tok, "fajt_lexer::token::Token", "span")


def token_end(D, tok, T=None):
    T = T or D.T
    return field(D, T, token_span(D, tok, T), "fajt_common::Span" if any(t.get("s") == "fajt_common::Span" for t in T) else "fajt_ast::Span", "end")


def token_start(D, tok, T):
    return field(D, T, token_span(D, tok, T), "fajt_common::Span" if any(t.get("s") == "fajt_common::Span" for t in T) else "fajt_ast::Span", "start")


def token_line(D, tok, T):
    return field(D, T, tok, "fajt_lexer::token::Token", "first_on_line")


def chars_from(inner, b, text, S):
    """the characters of the text from b on"""
    if inner[0] != "op" or inner[1] != "char_indices":
        return False
    s = inner[2]
    if s[0] == "op" and s[1] == "slice":
        rng = s[3]
        return S.eq(s[2], text) and rng[0] == "a" and len(rng[3]) >= 1 and S.eq(rng[3][0], b) and (len(rng[3]) == 1 or rng[3][1] == ("op", "len", text))
    return False


if __name__ == "__main__":
    import sys
    import dump as dm
    r = run(dm.Dump(sys.argv[1]))
    print(r["cases"])
    for v in r["violations"]:
        print(v)
