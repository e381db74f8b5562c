"""Spelling tables and the table of reserved words.

Every branch of the generated `from_str`, `as_str` and `to_string` functions, and of the reservation predicate, is
walked abstractly: one cube per variant (or per compared literal)."""
from absint import K, UNIT, Undecided
from pathdom import PathDomain, cubes

PUNCT = {
    "(": "ParenOpen", ")": "ParenClose", "[": "BraceOpen", "]": "BraceClose", "{": "BracketOpen", "}": "BracketClose", ".": "Dot",
    "...": "TripleDot", ";": "SemiColon", ",": "Comma", "<": "LessThan", "<<": "DoubleLessThan", ">": "GreaterThan",
    ">>": "DoubleGreaterThan", ">>>": "TripleGreaterThan", "=": "Equal", "==": "DoubleEqual", "<=": "LessEqual", "<<=": "DoubleLessEqual",
    ">=": "GreaterEqual", ">>=": "DoubleGreaterEqual", ">>>=": "TripleGreaterEqual", "=>": "EqualGreater", "!=": "NotEqual",
    "+=": "PlusEqual", "-=": "MinusEqual", "*=": "StarEqual", "**=": "DoubleStarEqual", "/=": "SlashEqual", "%=": "PercentEqual",
    "|=": "PipeEqual", "^=": "CaretEqual", "&=": "AmpersandEqual", "===": "TripleEqual", "!==": "ExclamationDoubleEqual", "+": "Plus",
    "++": "DoublePlus", "-": "Minus", "--": "DoubleMinus", "*": "Star", "**": "DoubleStar", "/": "Slash", "%": "Percent",
    "&": "Ampersand", "&&": "DoubleAmpersand", "|": "Pipe", "||": "DoublePipe", "^": "Caret", "!": "Exclamation", "~": "Tilde",
    "?": "QuestionMark", "??": "DoubleQuestionMark", "?.": "QuestionMarkDot", ":": "Colon",
}
KEYWORDS = """await as async break case catch class const continue debugger default delete do else enum export extends false finally
for from function get if implements import in instanceof interface let new null of package private protected public return set
static super switch target this throw true try typeof var void while with yield""".split()
BINARY = {
    "+": "Plus", "-": "Minus", "*": "Multiplication", "/": "Division", "%": "Modulus", "**": "Exponent", "<<": "ShiftLeft",
    ">>": "ShiftRight", ">>>": "ShiftRightUnsigned", "<": "LessThan", ">": "MoreThan", "<=": "LessThanEquals", ">=": "MoreThanEquals",
    "instanceof": "InstanceOf", "in": "In", "==": "Equal", "!=": "NotEqual", "===": "StrictEqual", "!==": "StrictNotEqual",
    "&": "BitwiseAnd", "^": "BitwiseXOR", "|": "BitwiseOR",
}
TABLES = {
    "fajt_lexer::token::Punctuator": PUNCT,
    "fajt_lexer::token::Keyword": {k: k.capitalize() for k in KEYWORDS},
    "fajt_ast::BinaryOperator": BINARY,
    "fajt_ast::LogicalOperator": {"&&": "And", "||": "Or", "??": "Coalesce"},
    "fajt_ast::UnaryOperator": {"delete": "Delete", "void": "Void", "typeof": "Typeof", "+": "Plus", "-": "Minus", "~": "BitwiseNot", "!": "Not"},
    "fajt_ast::UpdateOperator": {"++": "Increase", "--": "Decrease"},
    "fajt_ast::AssignmentOperator": {
        "=": "Assign", "*=": "Multiply", "**=": "Power", "/=": "Divide", "%=": "Modulus", "+=": "Add", "-=": "Sub",
        "<<=": "LeftShift", ">>=": "RightShift", ">>>=": "UnsignedRightShift", "&=": "BitwiseAnd", "^=": "BitwiseXOr", "|=": "BitwiseOr"},
    "fajt_ast::VariableKind": {"var": "Var", "let": "Let", "const": "Const"},
}
ALWAYS = {"As", "Async", "From", "Get", "Of", "Set", "Target"}
NON_STRICT = {"Implements", "Interface", "Let", "Package", "Private", "Protected", "Public", "Static"}


class Spell(PathDomain):
    def find_primitive(self, g):
        if g.path.endswith("str as std::cmp::PartialEq>::eq") or g.path.endswith("impl std::cmp::PartialEq for str>::eq") \
                or (g.blocks is None and g.name == "eq" and "str" in g.full):
            return Spell.p_streq
        if g.blocks is None and g.name in ("to_string", "to_owned", "into", "from") and "str" in g.full:
            return Spell.p_same
        return super().find_primitive(g)

    def p_streq(self, st, g, args, site, ctx):
        a, b = self.deref(st, args[0]), self.deref(st, args[1])
        if a[0] == "s" and b[0] == "s":
            return K(int(a[1] == b[1]))
        if a[0] == "s":
            a, b = b, a
        if a[0] == "l" and b[0] == "s":
            return ("op", "streq", a, b[1])
        raise Undecided("comparison of %r and %r" % (a, b))

    def p_same(self, st, g, args, site, ctx):
        return self.deref(st, args[0])

    def split_op(self, st, v, keyf, allg):
        if v[1] == "streq":
            return self.path_split(st, ("l", v[2][1], v[2][2] + ("=" + v[3],)), [0, 1], keyf)
        return super().split_op(st, v, keyf, allg)

    def term_label(self, st, v):
        return ("value", self.deref(st, v))


def value_of(nfa):
    es = nfa.edges[nfa.start]
    if len(es) != 1:
        raise Undecided("%s: no single result" % nfa.name)
    return next(iter(es))[0]


def run(dump):
    D = Spell(dump)
    out = []
    n = 0
    arg = ("r", ("V", ("l", "self", ())), ())

    def fn(path):
        fs = dump.by_path.get(path, [])
        if len(fs) != 1:
            raise Undecided("%s: %d definitions" % (path, len(fs)))
        return fs[0]
    sizes = {}
    for ty, table in TABLES.items():
        tid = dump.adt(ty)
        short = ty.split("::")[-1]
        variants = [v["n"] for v in dump.types[tid]["variants"]]
        sizes[short] = len(variants)
        inv = {v: k for k, v in table.items()}
        discr = {v["d"]: v["n"] for v in dump.types[tid]["variants"]}
        extra = set()
        for v in variants:
            if v not in inv:
                extra.add(v)     # an extension: both directions have to agree
        for v in inv:
            if v not in variants:
                out.append(dict(key="spell:%s::%s:gone" % (short, v), what="%s has no variant for `%s`" % (short, inv[v]), loc=None))
        funs = [("as_str", ty + "::as_str")]
        ts = "<%s as std::string::ToString>::to_string" % ty
        if ts in dump.by_path:
            funs.append(("to_string", ts))
        for nm, p in funs:
            f = fn(p)
            for cube, nfa in cubes(lambda c, dm: D.analyse(f, [arg], c, dm)):
                n += 1
                lab = value_of(nfa)
                ds = [d for k, d in cube.items() if k[2] == ()]
                if len(ds) != 1 or lab[0] != "value" or lab[1][0] != "s":
                    raise Undecided("%s: result %r" % (p, lab))
                v = discr[ds[0]]
                if v in extra and lab[1][1] not in table and inv.setdefault(v, lab[1][1]) == lab[1][1]:
                    table = {**table, lab[1][1]: v}
                if inv.get(v) != lab[1][1]:
                    out.append(dict(key="spell:%s::%s:%s" % (short, v, nm), loc=(p, f.loc),
                                    what="%s of %s::%s is `%s`, the language spells it `%s`" % (nm, short, v, lab[1][1], inv.get(v))))
        f = fn("<%s as std::str::FromStr>::from_str" % ty)
        seen = {}
        for cube, nfa in cubes(lambda c, dm: D.analyse(f, [("l", "s", ())], c, dm)):
            n += 1
            lab = value_of(nfa)
            lit = [k[2][-1][1:] for k, d in cube.items() if d == 1]
            val = lab[1]
            if lab[0] != "value" or val[0] != "a":
                raise Undecided("%s: result %r" % (f.path, lab))
            res = dump.types[val[1]]["variants"][val[2]]["n"]
            if res == "Ok":
                inner = val[3][0]
                v = dump.types[tid]["variants"][inner[2]]["n"]
                if len(lit) != 1 or lit[0] in seen or table.get(lit[0]) != v:
                    out.append(dict(key="spell:%s:from:%s" % (short, v), loc=(f.path, f.loc),
                                    what="the text %s is read as %s::%s, the language spells that `%s`" % (lit, short, v, inv.get(v))))
                else:
                    seen[lit[0]] = v
            elif lit:
                out.append(dict(key="spell:%s:from:reject:%s" % (short, lit[0]), loc=(f.path, f.loc), what="the text %s is not read as %s" % (lit, short)))
        for s in table:
            if s not in seen:
                out.append(dict(key="spell:%s:from:missing:%s" % (short, s), loc=(f.path, f.loc), what="`%s` is not recognised as %s" % (s, short)))
    return dict(violations=out, cubes=n, sizes=sizes)


def reserved(dump):
    """Which keywords are identifiers, for every combination of [Await], [Yield] and strictness."""
    D = Spell(dump)
    out, n = [], 0
    kc = [f for f in dump.fns if f.path.endswith("Context::keyword_context")]
    al = dump.by_path.get("fajt_lexer::token::Keyword::is_allowed_as_identifier", [])
    if len(kc) != 1 or len(al) != 1:
        raise Undecided("keyword_context / is_allowed_as_identifier: %d / %d definitions" % (len(kc), len(al)))
    kc, al = kc[0], al[0]
    cty = dump.types[kc.locals[1]]["to"]
    fields = [x[0] for x in dump.types[cty]["variants"][0]["f"]]
    tid = dump.adt("fajt_lexer::token::Keyword")
    discr = {v["d"]: v["n"] for v in dump.types[tid]["variants"]}
    others = [x for x in fields if x not in ("is_await", "is_yield", "is_strict")]
    for bits in range(8):
        on = {"is_await": bits & 1, "is_yield": bits >> 1 & 1, "is_strict": bits >> 2 & 1}
        for rest in (0, 1):
            ctx = ("a", cty, 0, tuple(K(on.get(x, rest)) for x in fields), None)
            lab = value_of(D.analyse(kc, [("r", ("V", ctx), ())], {}, {}))
            kcv = lab[1]
            for cube, nfa in cubes(lambda c, dm: D.analyse(al, [("r", ("V", ("l", "self", ())), ()), kcv], c, dm)):
                n += 1
                r = value_of(nfa)[1]
                ds = [d for k, d in cube.items() if k[2] == ()]
                if r[0] != "k":
                    raise Undecided("is_allowed_as_identifier: result %r" % (r,))
                for d in (ds or list(discr)):
                    v = discr[d]
                    want = v in ALWAYS or (v == "Await" and not on["is_await"]) or (v == "Yield" and not (on["is_yield"] or on["is_strict"])) \
                        or (v in NON_STRICT and not on["is_strict"])
                    if bool(r[1]) != want:
                        cs = "+".join(k[3:] for k in on if on[k]) or "sloppy"
                        out.append(dict(key="reserved:%s:%s" % (v, cs), loc=(al.path, al.loc),
                                        what="`%s` is %s as identifier in context %s" % (v.lower(), "accepted" if r[1] else "rejected", cs)))
    return dict(violations=out, cubes=n, others=others)


if __name__ == "__main__":
    from dump import Dump
    d = Dump()
    for r in (run(d), reserved(d)):
        print({k: v for k, v in r.items() if k != "violations"})
        for v in r["violations"]:
            print(v)
