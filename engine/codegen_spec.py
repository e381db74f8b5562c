"""What the code generator has to write: the grammar templates of the node types, and the rules for white space."""
import re
import time
from collections import defaultdict
from absint import Undecided
from pathdom import NFA, NeedCube, NeedElem
from spell_check import TABLES

# -------------------------------------------------------------------- characters
PUNCT = [c for c in map(chr, range(33, 127)) if not c.isalnum()]
WS = [" ", "\n", "\t", "\r", "\x0b", "\x0c"]
REPS = {c: (ord(c),) for c in PUNCT + WS}
REPS["L"] = tuple(range(65, 91)) + tuple(range(97, 123))
REPS["D"] = tuple(range(48, 58))
REPS["UA"] = (0xE9, 0x4E00, 0x3B1)
REPS["US"] = (0xA0, 0x2028, 0xFEFF)
REPS["UO"] = (0x200D, 0x1F600)
REPS["CTL"] = (0, 1, 0x7F)
REPS["START"] = ()
CLS = list(REPS)
ALL = frozenset(CLS)
WORD = frozenset(["L", "D", "$", "_", "UA", "UO"])


def class_of(code):
    for c, r in REPS.items():
        if code in r:
            return c
    ch = chr(code)
    return "UA" if ch.isalnum() else ("US" if ch.isspace() else ("UO" if code > 127 else "CTL"))


PREDS = {
    "is_alphanumeric": lambda c: chr(c).isalnum(), "is_alphabetic": lambda c: chr(c).isalpha(), "is_numeric": lambda c: chr(c).isnumeric(),
    "is_whitespace": lambda c: chr(c).isspace() and c != 0xFEFF, "is_ascii": lambda c: c < 128,
    "is_ascii_alphanumeric": lambda c: c < 128 and chr(c).isalnum(), "is_ascii_digit": lambda c: 48 <= c < 58,
    "is_ascii_alphabetic": lambda c: c < 128 and chr(c).isalpha(), "is_ascii_punctuation": lambda c: chr(c) in PUNCT,
    "is_ascii_whitespace": lambda c: chr(c) in " \n\t\r\x0c", "is_control": lambda c: c < 32 or c == 127,
    "is_ascii_lowercase": lambda c: 97 <= c < 123, "is_ascii_uppercase": lambda c: 65 <= c < 91,
    "is_ascii_graphic": lambda c: 33 <= c < 127,
}


def char_pred(name, code):
    if name not in PREDS:
        raise Undecided("predicate char::%s" % name)
    return PREDS[name](code)


# -------------------------------------------------------------------- texts that come from the tree
RAW = {("Ident", "name"): "ident", ("LitNumber", "raw"): "number", ("Literal", "Regexp"): "regexp"}
NONEMPTY = {"ident", "number", "regexp"}
TEXT = [c for c in CLS if c != "START"]
RAW_FIRST = {"ident": ["L", "$", "_", "UA", "UO"], "number": ["D", "."], "regexp": ["/"], "text": [""] + TEXT}
RAW_LAST = {"ident": WORD, "number": frozenset(["L", "D", "_", "."]), "regexp": frozenset(["/", "L", "$", "_", "UA"]), "text": frozenset(TEXT)}
# sequences the grammar never leaves empty
NONEMPTY_SEQ = {("StmtVariable", "declarations"), ("ExprSequence", "expr"), ("ExprArrowFunction", "parameters.bindings")}
NOT_PRINTED = {"BinaryOperator", "LogicalOperator", "UnaryOperator", "UpdateOperator", "AssignmentOperator", "VariableKind", "MethodKind"}
TEXT_OF = {ty.split("::")[-1]: {v: k for k, v in t.items()} for ty, t in TABLES.items() if ty.startswith("fajt_ast::")}
TEXT_OF["MethodKind"] = {"Get": "get", "Set": "set", "Method": ""}



def follows(ty, seq, before, after):
    """whether the parser puts an element like `after` (None: the end) behind one like `before`"""
    if ty == "ArrayAssignmentPattern" and seq == "elements":
        # every comma is an element `None`; there is one between two targets, and before the rest
        return not (before.get(()) == 1 and after is not None and after.get(()) == 1)
    return True


# -------------------------------------------------------------------- templates
# 'x' token; name field; [f: ...] if present/true/Some; [!f: ...] otherwise; {f} elements; {f ','} separated; {f ';'!} terminated;
# ~ no line terminator here; _ no white space at all; ;- the previous semicolon may be dropped; ;! it has to be dropped
TEMPLATES = {
    "StmtList": "{directives ';'!} {body}",
    "Program": {"Script": "0 ;-", "Module": "0 ;-"},
    "Body": "'{' {directives ';'!} {statements} ;- '}'",
    "StmtBlock": "'{' {statements} ;- '}'",
    "StmtTry": "'try' block [handler: 'catch' handler] [finalizer: 'finally' finalizer]",
    "CatchClause": "[parameter: '(' parameter ')'] body",
    "StmtLabeled": "label ':' body",
    "StmtThrow": "'throw' ~ argument ';'",
    "StmtSwitch": "'switch' '(' discriminant ')' '{' {cases} ;- '}'",
    "SwitchCase": "[test: 'case' test] [!test: 'default'] ':' {consequent}",
    "StmtIf": "'if' '(' condition ')' consequent [alternate: 'else' alternate]",
    "ExprArrowFunction": "[asynchronous: 'async' ~] [binding_parameter: {parameters.bindings}] [!binding_parameter: parameters] ~ '=>' body",
    "ExprAwait": "'await' argument",
    "StmtFor": "'for' '(' [init: init] ';' [test: test] ';' [update: update] ')' body",
    "ForInit": {"Expr": "0", "Declaration": "0 ;!"},
    "StmtForOf": "'for' [asynchronous: 'await'] '(' left 'of' right ')' body",
    "StmtForIn": "'for' '(' left 'in' right ')' body",
    "ForBinding": "kind binding",
    "StmtWhile": "'while' '(' test ')' body",
    "StmtDoWhile": "'do' body 'while' '(' test ')'",
    "ExprUnary": "operator argument",
    "ExprUpdate": "[prefix: operator argument] [!prefix: argument ~ operator]",
    "ExprBinary": "left operator right",
    "ExprLogical": "left operator right",
    "ExprAssignment": "left operator right",
    "ExprCall": "callee '(' {arguments ','} ')'",
    "Callee": {"Super": "'super'", "Import": "'import'", "Expr": "0"},
    "Super": "'super'",
    "ExprMetaProperty": "meta '.' property",
    "ExprOptionalCall": "callee [optional: '?.'] '(' {arguments ','} ')'",
    "ExprOptionalMember": "object <optional> property",
    "ExprMember": "object property",
    "MemberProperty": {"Ident": "'.' 0", "Expr": "'[' 0 ']'"},
    "Argument": {"Expr": "0", "Spread": "'...' 0"},
    "ExprParenthesized": "'(' expression ')'",
    "ExprFunction": "[asynchronous: 'async' ~] 'function' [generator: '*'] [identifier: identifier] parameters body",
    "DeclFunction": "[asynchronous: 'async' ~] 'function' [generator: '*'] identifier parameters body",
    "DeclClass": "'class' identifier [super_class: 'extends' super_class] '{' {body} '}'",
    "ExprClass": "'class' [identifier: identifier] [super_class: 'extends' super_class] '{' {body} '}'",
    "MethodDefinition": "[is_static: 'static'] [asynchronous: 'async' ~] [generator: '*'] kind name parameters body",
    "ExprConditional": "condition '?' consequent ':' alternate",
    "ExprNew": "'new' callee [arguments_span: '(' {arguments ','} ')']",
    "ExportDecl": "'export' decl",
    "ExportDefaultDecl": "'export' 'default' decl",
    "ExportDefaultExpr": "'export' 'default' expr ';'",
    "ExportNamespace": "'export' '*' [alias: 'as' alias] 'from' from ';'",
    "ExportNamed": "'export' '{' {named_exports ','} '}' [from: 'from' from] ';'",
    "NamedExport": "[alias_of: alias_of 'as'] name",
    "DeclImport": "'import' [default_binding: default_binding [namespace_binding: ','] [named_imports: ',']] [namespace_binding: '*' 'as' namespace_binding] "
                  "[named_imports: '{' {named_imports ','} '}'] <from> from ';'",
    "NamedImport": "name [alias: 'as' alias]",
    "StmtReturn": "'return' [argument: ~ argument] ';'",
    "FormalParameters": "'(' {bindings ',' rest} ')'",
    "StmtEmpty": "';'",
    "BindingElement": "pattern [initializer: '=' initializer]",
    "ExprYield": "'yield' [delegate: ~ '*'] [argument: ~ argument]",
    "StmtVariable": "kind {declarations ','} ';'",
    "VariableDeclaration": "pattern [initializer: '=' initializer]",
    "ArrayBinding": "'[' <holes> ']'",
    "ObjectBinding": "'{' {props ',' rest} '}'",
    "SingleNameBinding": "ident [initializer: '=' initializer]",
    "NamedBinding": "property ':' binding",
    "ArrayAssignmentPattern": "'[' <commas> [rest: '...' rest] ']'",
    "ObjectAssignmentPattern": "'{' {props ',' rest} '}'",
    "AssignmentElement": "target [initializer: '=' initializer]",
    "SingleNameAssignmentProp": "ident [initializer: '=' initializer]",
    "NamedAssignmentProp": "name ':' value [initializer: '=' initializer]",
    "ArrayElement": {"Elision": "", "Expr": "0", "Spread": "'...' 0"},
    "ExprThis": "'this'",
    "ExprLiteral": "literal",
    "Literal": {"Null": "'null'", "Boolean": "<bool>", "Regexp": "0", "String": "0", "Number": "0", "Array": "0", "Object": "0", "Template": "0"},
    "LitString": "delimiter _ value _ delimiter",
    "LitNumber": "raw",
    "LitTemplate": "'`' _ {parts} _ '`'",
    "TemplatePart": {"String": "_ 0 _", "Expr": "_ '${' 0 '}' _"},
    "LitArray": "'[' <elements> ']'",
    "LitObject": "'{' {props ','} '}'",
    "PropertyDefinition": {"IdentRef": "0", "Spread": "'...' 0", "Named": "0", "Method": "0"},
    "NamedProperty": "name ':' value",
    "PropertyName": {"Ident": "0", "String": "0", "Number": "0", "Computed": "'[' 0 ']'"},
    "StmtContinue": "'continue' [label: ~ label] ';'",
    "StmtBreak": "'break' [label: ~ label] ';'",
    "StmtExpr": "expr ';'",
    "StmtWith": "'with' '(' object ')' body",
    "ExprSequence": "{expr ','}",
    "Ident": "name",
    "StmtDebugger": "'debugger' ';'",
    "ExprTaggedTemplate": "callee template",
}
# node types before and after which a line may be broken
LINES = {"Program", "StmtList", "Stmt", "SwitchCase", "DeclExport"}


def is_line(name):
    return name in LINES or name.startswith(("Stmt", "Decl", "Export"))


def is_plain(dump, t):
    return dump.types[t]["akind"] == "enum"


def possible(name, cube, dom):
    """Combinations that no parsed tree has."""
    def val(*fs):
        for (k, r, path), v in cube.items():
            if dom.field_names(("l", r, tuple(p for p in path if not isinstance(p, str)))) == ".".join(fs) and not any(isinstance(p, str) for p in path):
                return v
        return None
    if name == "DeclImport" and val("namespace_binding") == 1 and val("named_imports") == 1:
        return False
    if name == "ExprYield" and val("delegate") == 1 and val("argument") == 0:
        return False
    if name == "MethodDefinition":
        k = [v["n"] for v in dom.T[dom.d.adt("fajt_ast::MethodKind")]["variants"] if v["d"] == val("kind")]
        if k and k[0] != "Method" and (val("generator") == 1 or val("asynchronous") == 1):
            return False
    firsts = {k[2][:-1]: v for k, v in cube.items() if k[2] and k[2][-1] == "#first"}
    for k, v in cube.items():
        if k[2] and k[2][-1] == "#num" and v in ("int", "dec") and firsts.get(k[2][:-1]) == ".":
            return False
    return True


TOKEN = re.compile(r"'(?P<tok>[^']+)'|\[(?P<neg>!?)(?P<cond>\w+):|(?P<close>\])|\{(?P<seq>[\w.]+)(?: '(?P<sep>[^']+)'(?P<term>!)?)?(?: (?P<rest>\w+))?\}"
                   r"|<(?P<fn>\w+)>|(?P<semi>;[-!])|(?P<mod>[~_](?!\w))|(?P<name>[\w.]+)|\s+")


def parse(text):
    out, stack, pos = [], [], 0
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise ValueError(text[pos:])
        pos = m.end()
        if m.group("cond"):
            stack.append(out)
            new = []
            out.append(("if", m.group("cond"), not m.group("neg"), new))
            out = new
        elif m.group("close"):
            out = stack.pop()
        elif m.group("tok"):
            out.append(("tok", m.group("tok")))
        elif m.group("seq"):
            out.append(("seq", m.group("seq"), m.group("sep"), bool(m.group("term")), m.group("rest")))
        elif m.group("fn"):
            out.append(("fn", m.group("fn")))
        elif m.group("semi"):
            out.append(("semi", m.group("semi")))
        elif m.group("mod"):
            out.append(("mod", m.group("mod")))
        elif m.group("name"):
            out.append(("field", m.group("name")))
    return out


PARSED = {k: ({v: parse(x) for v, x in t.items()} if isinstance(t, dict) else parse(t)) for k, t in TEMPLATES.items()}


class Builder:
    """Automaton of a node type under a cube."""

    def __init__(self, dump, dom, ty, cube, demands):
        self.d, self.T, self.dom, self.ty, self.cube, self.demands = dump, dump.types, dom, ty, cube, demands
        self.n = NFA("spec")
        self.glue = set()

    def build(self):
        n = self.n
        n.start = self.new()
        name = self.d.tname(self.ty)
        t = self.T[self.ty]
        root = ("l", "self", ())
        self.mode = 2 if is_line(name) else 1
        tpl = PARSED.get(name)
        if t["akind"] == "enum":
            d = self.choose(root, [v["d"] for v in t["variants"]])
            i = next(i for i, v in enumerate(t["variants"]) if v["d"] == d)
            var = t["variants"][i]
            base = ("l", "self", (("v", i),))
            fields = {str(j): (("l", "self", (("v", i), ("f", j))), ft) for j, (fn, ft) in enumerate(var["f"])}
            if tpl is None:
                items = [("field", str(j)) for j in range(len(var["f"]))]
            else:
                if var["n"] not in tpl:
                    raise Undecided("no template for %s::%s" % (name, var["n"]))
                items = tpl[var["n"]]
        else:
            fields = {fn: (("l", "self", (("f", j),)), ft) for j, (fn, ft) in enumerate(t["variants"][0]["f"])}
            items = tpl
        self.fields = fields
        e = self.items(items, n.start)
        if self.mode != 0:
            self.mode = 2 if is_line(name) else 1
        g = self.gap(e)
        n.final.add(g)
        for v in sorted({l[1] for es in n.edges.values() for l, _ in es if l[0] == "end"}, key=repr):
            self.loose_end(v)
        return n

    def loose_end(self, v):
        """Asking for one more element writes nothing: that there is none may be known before or after what is written at that point."""
        n = self.n
        nodes = range(n.n)
        early, late = {x: self.new() for x in nodes}, {x: self.new() for x in nodes}
        for x in nodes:
            for label, y in list(n.edges.get(x, ())):
                if label == ("end", v):
                    n.eps[x].add(late[y])
                    n.eps[early[x]].add(y)
                elif label[:2] != ("next", v):
                    for m in (early, late):
                        n.edges[m[x]].add((label, m[y]))
                        if (x, label) in self.glue:
                            self.glue.add((m[x], label))
            for y in list(n.eps.get(x, ())):
                if y in early:
                    n.eps[early[x]].add(early[y])
                    n.eps[late[x]].add(late[y])
        for x in nodes:
            n.edges[x].add((("end", v), early[x]))
            n.edges[late[x]].add((("end", v), x))

    def new(self):
        return self.n.new()

    def gap(self, node):
        g = self.new()
        self.n.eps[node].add(g)
        if self.mode >= 1:
            self.n.add(g, ("sp",), g)
        if self.mode >= 2:
            self.n.add(g, ("nl",), g)
        self.glued = self.mode == 0
        self.mode = 2
        return g

    def choose(self, x, options):
        r = self.cube.get(x)
        if r is None:
            if len(options) == 1:
                return options[0]
            raise NeedCube(x, options)
        return r

    def lookup(self, name):
        f = self.fields
        parts = name.split(".")
        if parts[0] not in f:
            raise Undecided("field %s.%s is gone" % (self.d.tname(self.ty), parts[0]))
        v, t = f[parts[0]]
        for p in parts[1:]:
            v, t = self.unbox(v, t)
            fs = self.T[t]["variants"][0]["f"]
            j = next((j for j, x in enumerate(fs) if x[0] == p), None)
            if j is None:
                raise Undecided("field %s is gone" % name)
            v, t = ("l", v[1], v[2] + (("f", j),)), fs[j][1]
        return v, t

    def unbox(self, v, t):
        while self.T[t].get("box"):
            t = self.T[t]["args"][0]
        return v, t

    def tname(self, t):
        return self.T[t].get("def", "").split("::")[-1] if self.T[t]["k"] == "adt" else self.T[t]["k"]

    def edge(self, node, label):
        m = self.new()
        self.n.add(node, label, m)
        if self.glued:
            self.glue.add((node, label))
        return m

    def tok(self, node, text):
        from codegen_check import units
        g = self.gap(node)
        us = units(text)
        if len(us) == 1 or all(u[0] == "p" for u in us):
            for i, u in enumerate(us):
                g = self.edge(g, u)
                self.glued = True
            return g
        for i, u in enumerate(us):      # `${`
            g = self.edge(g, u)
            self.glued = True
        return g

    def cond(self, name):
        v, t = self.lookup(name)
        v, t = self.unbox(v, t)
        if self.tname(t) == "Option":
            return self.choose(v, [0, 1]) == 1
        if self.tname(t) == "bool" or self.T[t]["s"] == "bool":
            return self.choose(v, [0, 1]) == 1
        raise Undecided("condition on %s" % name)

    def items(self, items, node):
        for it in items:
            k = it[0]
            if k == "tok":
                node = self.tok(node, it[1])
            elif k == "mod":
                self.mode = min(self.mode, 1 if it[1] == "~" else 0)
            elif k == "if":
                if self.cond(it[1]) == it[2]:
                    node = self.items(it[3], node)
            elif k == "field":
                v, t = self.lookup(it[1])
                v, t = self.unbox(v, t)
                if self.tname(t) == "Option":
                    if self.choose(v, [0, 1]) == 1:
                        v, t = ("l", v[1], v[2] + (("v", 1), ("f", 0))), self.T[t]["args"][0]
                        node = self.value(node, v, t)
                else:
                    node = self.value(node, v, t)
            elif k == "seq":
                node = self.seq(node, *it[1:])
            elif k == "semi":
                m = self.new()
                self.n.add(node, ("pop",), m)
                if it[1] == ";-":
                    self.n.eps[node].add(m)
                node = m
            else:
                node = getattr(self, "fn_" + it[1])(node)
        return node

    def value(self, node, v, t):
        v, t = self.unbox(v, t)
        name = self.tname(t)
        if name in TEXT_OF:
            d = self.choose(v, [x["d"] for x in self.T[t]["variants"]])
            var = next(x["n"] for x in self.T[t]["variants"] if x["d"] == d)
            text = TEXT_OF[name].get(var)
            if text is None:
                raise Undecided("spelling of %s::%s" % (name, var))
            return self.tok(node, text) if text else node
        if self.dom.is_node(t):
            return self.edge(self.gap(node), ("child", v, name))
        if name == "String":
            if self.cube.get(("l", v[1], v[2] + ("#first",))) == "":
                return node
            return self.edge(self.gap(node), ("raw", v))
        if name == "char" or self.T[t]["s"] == "char":
            return self.edge(self.gap(node), ("rawc", v))
        if name == "Vec":
            raise Undecided("sequence")
        raise Undecided("a field of type %s" % self.T[t]["s"])

    # sequences -------------------------------------------------------------------
    def sequence(self, node, name, item, sep, end, must=None):
        """item(node, element, type, combo); sep(node, combo of the element before); end(node, combo|None)"""
        v, t = self.lookup(name)
        v, t = self.unbox(v, t)
        if self.tname(t) == "Option":
            v, t = ("l", v[1], v[2] + (("v", 1), ("f", 0))), self.T[t]["args"][0]
        if self.tname(t) != "Vec":
            raise Undecided("field %s is no sequence" % name)
        if must is not None:
            if (must[0], must[1]) not in self.demands.get(v, []):
                raise NeedElem(v, must[0], must[1])
        et = self.T[t]["args"][0]
        el = ("l", ("elem", v), ())
        combos = self.dom.combos(v, self.demands)
        empty = self.cube.get(("l", v[1], v[2] + ("#empty",)))
        if self.dom.nonempty(v):
            empty = 0
        single = self.cube.get(("l", v[1], v[2] + ("#single",)))
        mode0 = self.mode
        n = self.n
        out = self.new()
        after = {}
        modes = set()

        node = self.gap(node)
        self.mode = mode0

        def follow(a, first, early=False):
            nonlocal stage
            stage = 1 if first or single is None else 2
            return follow1(a, first, early)
        stage = 1

        def follow1(a, first, early=False):
            """one more element; its separator is written before (early) or after it is known that there is one"""
            if early:
                self.mode = 2
                a = self.gap(sep(a, prev))
                self.mode = 2
            for c, suffix in combos:
                m = self.new()
                n.add(a, ("next", v, suffix), m)
                self.mode = mode0 if first else 2
                if not first and not early:
                    m = sep(m, prev)
                if early:
                    m = self.gap(m)
                    self.mode = 2
                m = item(m, el, et, c)
                modes.add(self.mode)
                n.eps[m].add(after[suffix, stage])
        stages = (1,) if single is None else (1, 2)
        for c, suffix in combos:
            for k in stages:
                a = after[suffix, k] = self.new()
                if mode0 > 0:
                    n.add(a, ("sp",), a)
                    if name != "parameters.bindings":   # `=>` stays on the line of its parameters
                        n.add(a, ("nl",), a)
        if empty != 0:
            self.mode = mode0
            m = self.new()
            n.add(node, ("end", v), m)
            n.eps[end(m, None)].add(out)
            modes.add(self.mode)
        if empty != 1:
            prev = None
            follow(node, True)
            for k in stages:
                for c, suffix in combos:
                    prev = c
                    a = after[suffix, k]
                    if single != 1:
                        follow(a, False)
                        follow(a, False, True)
                    if single == 0 and k == 1:
                        continue
                    self.mode = 2
                    m = end(a, c)
                    n.add(self.gap(m), ("end", v), out)
                    m = self.new()
                    n.add(a, ("end", v), m)
                    self.mode = 2
                    n.eps[end(m, c)].add(out)
                    modes.add(self.mode)
        self.mode = 0 if mode0 == 0 else 2
        return out

    def item(self, node, el, et, c):
        if self.mode == 0 or self.tight:
            self.mode = 0
        return self.value(node, el, et)

    tight = False

    def seq(self, node, name, sep, term, rest):
        self.tight = self.mode == 0
        t = self.tight

        def item(m, el, et, c):
            m = self.item(m, el, et, c)
            return self.tok(m, sep) if term else m

        def sepf(m, c):
            return self.tok(m, sep) if sep and not term else m

        def end(m, c):
            if rest is not None and self.cond(rest):
                if c is not None:
                    m = self.tok(m, sep)
                m = self.tok(m, "...")
                m = self.items([("field", rest)], m)
            return m
        out = self.sequence(node, name, item, sepf, end)
        self.tight = False
        if t:
            self.mode = 0
        return out

    def fn_holes(self, node):
        """elements of an array binding pattern: a hole is nothing, and a trailing hole needs its comma"""
        rest = self.cond("rest")

        def item(m, el, et, c):
            if c.get(()) == 1:
                return self.value(m, ("l", el[1], (("v", 1), ("f", 0))), self.T[et]["args"][0])
            return m

        def end(m, c):
            if c is not None and (rest or c.get(()) == 0):
                m = self.tok(m, ",")
            if rest:
                m = self.items([("field", "rest")], self.tok(m, "..."))
            return m
        return self.sequence(node, "elements", item, lambda m, c: self.tok(m, ","), end, must=((), [0, 1]))

    def fn_commas(self, node):
        """elements of an array assignment pattern: every comma is an element `None`"""
        def item(m, el, et, c):
            if c.get(()) == 1:
                return self.value(m, ("l", el[1], (("v", 1), ("f", 0))), self.T[et]["args"][0])
            return self.tok(m, ",")
        return self.sequence(node, "elements", item, lambda m, c: m, lambda m, c: m, must=((), [0, 1]))

    def fn_elements(self, node):
        v, t = self.lookup("elements")
        et = self.T[t]["args"][0]
        vs = self.T[et]["variants"]
        elision = next((x["d"] for x in vs if x["n"] == "Elision"), None)
        if elision is None:
            raise Undecided("ArrayElement::Elision is gone")

        def end(m, c):
            return self.tok(m, ",") if c is not None and c.get(()) == elision else m
        return self.sequence(node, "elements", lambda m, el, et, c: self.value(m, el, et), lambda m, c: self.tok(m, ","), end,
                             must=((), [x["d"] for x in vs]))

    def fn_bool(self, node):
        v, t = self.lookup("0")
        return self.tok(node, "true" if self.choose(v, [0, 1]) else "false")

    def fn_from(self, node):
        if self.cond("default_binding") or self.cond("namespace_binding") or self.cond("named_imports"):
            return self.tok(node, "from")
        return node

    def fn_optional(self, node):
        if not self.cond("optional"):
            return node
        v, t = self.lookup("property")
        v, t = self.unbox(v, t)
        vs = self.T[t]["variants"]
        d = self.choose(v, [x["d"] for x in vs])
        var = next(x["n"] for x in vs if x["d"] == d)
        node = self.tok(node, "?." if var == "Expr" else "?")
        self.mode = 0 if var != "Expr" else 2
        return node


# -------------------------------------------------------------------- the state of the output, for all node types at once
NUM = {"int": frozenset(["D", "_"]), "num": frozenset(["L", "D", "_"]), "numdot": frozenset(["."])}


def chars(s):
    k = s[0]
    if k == "p":
        return frozenset([s[1]])
    if k == "w":
        return WORD
    if k in NUM:
        return NUM[k]
    if k == "reg":
        return frozenset(["/"])
    if k == "regf":
        return frozenset(["L", "$", "_", "UA"])
    if k == "sp":
        return frozenset([" "])
    if k == "nl":
        return frozenset(["\n"])
    if k == "START":
        return frozenset(["START"])
    return ALL - {"START"}


def passes(s, guard):
    if guard is None:
        return True
    kind, marks = s
    lc, (base, ms) = guard
    if lc is not ALL and not (chars(kind) & lc):
        return False
    for cell, v in ms:
        if marks == "*" and kind == ("unk",):
            continue
        has = marks == "*" or cell in marks
        if has != bool(v):
            return False
    return True


NONE = frozenset()


class Flow:
    def __init__(self, dump, dom, per):
        self.d, self.dom, self.per = dump, dom, per
        self.prev = defaultdict(set)
        self.last = defaultdict(set)
        self.at = {}
        self.users = defaultdict(set)

    def run(self):
        start = (("START",), "*")
        for name in ("Program", "Stmt", "Expr"):
            self.prev[name].add(start)
        for name, (t, f, res, imp) in self.per.items():
            for i, (c, (a, b)) in enumerate(res):
                for es in a.edges.values():
                    for l, _ in es:
                        if l[0] == "child":
                            self.users[l[2]].add(name)
        work = list(self.per)
        dirty = set(work)
        n = 0
        limit = time.time() + 200
        while work:
            name = work.pop(0)
            dirty.discard(name)
            n += 1
            if n > 20000 or time.time() > limit:
                raise Undecided("fixpoint")
            for x in self.visit(name):
                if x not in dirty and x in self.per:
                    dirty.add(x)
                    work.append(x)

    def visit(self, name):
        t, f, res, imp = self.per[name]
        changed = set()
        for i, (c, (a, b)) in enumerate(res):
            at = self.at.setdefault((name, i), defaultdict(set))
            parts = name == "TemplatePart" and any(l[0] == "raw" for es in a.edges.values() for l, _ in es)
            for s in self.prev[name]:
                if not (parts and s[0] == ("any",)):    # the parser has an expression between two strings of a template
                    at[a.start].add(s)
            work = list(at)
            while work:
                x = work.pop()
                for label, y in a.edges.get(x, ()):
                    outs = set()
                    for s in at[x]:
                        if passes(s, label[-1] if label[0] != "panic" else None):
                            outs |= self.step(name, c, label, s, changed)
                    if label[0] == "ret":
                        if not outs <= self.last[name]:
                            self.last[name] |= outs
                            changed |= self.users[name]
                    elif not outs <= at[y]:
                        at[y] |= outs
                        work.append(y)
        return changed

    def step(self, name, cube, label, s, changed):
        k = label[0]
        if k == "w":
            return {(("w",), NONE)}
        if k == "p":
            if name == "StmtEmpty" and label[1] == ";":
                return {(("p", label[1], "E"), NONE)}
            run = label[1]
            if s[0][0] == "p" and run in OPCHARS and s[0][1] in OPCHARS and s[0][2:] != "E":
                run = last_token((s[0][2] if len(s[0]) > 2 else s[0][1]) + run)
            return {(("p", label[1], run), NONE)}
        if k in ("sp", "nl"):
            return {((k,), NONE)}
        if k == "blank":
            return {s, (("sp",), NONE)}
        if k == "rawc":
            return {(("p", '"'), NONE), (("p", "'"), NONE)}
        if k == "raw":
            kind = label[2]
            if kind == "ident":
                return {(("w",), NONE)}
            if kind == "number":
                r = label[1]
                kinds = {"int": "int", "other": "num", "dec": "numdot"}
                n = cube.get(("l", r[1], r[2] + ("#num",)))
                return {((kinds[n],), NONE)} if n else {((k2,), NONE) for k2 in kinds.values()}
            if kind == "regexp":
                return {(("reg",), NONE), (("regf",), NONE)}
            return {(("any",), NONE)} | ({s} if label[3] is None else set())
        if k == "mark":
            kind, marks = s
            if marks == "*":
                return {(kind, "*")} if label[2] or kind == ("unk",) else {(kind, NONE)}
            return {(kind, marks | {label[1]} if label[2] else marks - {label[1]})}
        if k == "pop":
            return {(("unk",) if s[0] == ("unk",) else ("any",), NONE)}
        if k == "child":
            ty = label[2]
            if ty in NOT_PRINTED:
                return {s}
            if ty not in self.per:
                return {(("unk",), "*")}
            if s not in self.prev[ty]:
                self.prev[ty].add(s)
                changed.add(ty)
            return self.last[ty]
        return {s}


OPCHARS = set("+-*/<>=&|?!.%^")
OPERATORS = sorted("""... ?. >>>= >>> >>= <<= **= &&= ||= ??= === !== => ++ -- << >> <= >= == != && || ?? ** += -= *= /= %= &= |= ^=
                   // /* <!--""".split(), key=lambda x: -len(x))


def meets(run, c):
    """whether maximal munch takes `c` to the same token as the end of `run`"""
    if c in "/*" and run[-1] == "/" or c == "!" and run[-1] == "<":
        return True
    return len(last_token(run + c)) > 1


def last_token(text):
    i = 0
    while True:
        t = next((o for o in OPERATORS if text.startswith(o, i)), text[i])
        i += len(t)
        if i >= len(text):
            return t


def conflict(s, guard, unit, cube):
    """the character or word `unit` written right after state s reads as something else"""
    kind, marks = s
    cl = chars(kind) if guard is None else chars(kind) & guard[0]
    k = unit[0]
    wordy = k == "w" or k == "raw" and unit[2] == "ident"
    num = k == "raw" and unit[2] == "number"
    first = unit[3] if k == "raw" else None
    if num and first is None:
        firsts = {"D", "."}
    elif num:
        firsts = {first}
    else:
        firsts = set()
    if kind[0] == "unk":
        return False
    if kind[0] == "any":
        if wordy or num:
            return bool(cl & WORD)
        return k == "p" and unit[1] in "+-/<!*=&|?.>"
    if wordy:
        return kind[0] in ("w", "int", "num", "numdot", "reg", "regf")
    if num:
        if kind[0] in ("w", "regf") and "D" in firsts:
            return True
        if kind[0] == "reg" and "D" in firsts:
            return True
        return kind[0] in NUM or kind == ("p", ".") and False
    if k == "p":
        if kind[0] == "int" and unit[1] == ".":
            return True
        if unit[1] == "$":
            return kind[0] in ("w", "int", "num", "reg", "regf")
        if kind[0] == "p":
            return unit[1] in OPCHARS and kind[1] in OPCHARS and meets(kind[2] if len(kind) > 2 else kind[1], unit[1])
    if k == "raw" and unit[2] == "regexp":
        return kind[0] == "p" and kind[1] in "/<" and kind[1] == "/"
    return False


def compare(dump, dom, per, flow, minified, R):
    from traverse_check import path_str, show_cube
    mode = "minified" if minified else "pretty"

    def text(t, l):
        k = l[0]
        if k in ("w", "p"):
            return "`%s`" % l[1]
        if k in ("child", "raw", "rawc"):
            return "%s %s" % ({"child": "child", "raw": "text", "rawc": "text"}[k], ppath(t, l[1]))
        if k in ("next", "end"):
            return "%s element of %s" % ({"next": "another", "end": "no more"}[k], ppath(t, l[1]))
        return {"sp": "a space", "nl": "a line break", "ret": "the end", "pop": "removal of `;`"}.get(k, k)

    def ppath(t, v):
        try:
            return path_str(dump, t, v)
        except Exception:
            return "?"
    for name, (t, f, res, imp) in per.items():
        found = []
        for i, (cube, (a, b)) in enumerate(res):
            at = flow.at.get((name, i), {})
            specglue = b_glue(b)
            start = (a.start, b.closure([b.start]))
            seen = {start}
            work = [start]
            ended = False
            if not flow.prev[name]:
                continue    # never reached

            def bad(prop, key, what, loc):
                found.append(dict(prop=prop, key="codegen:%s:%s" % (name, key), loc=loc or (f.path, f.loc),
                                  what="%s of %s %s: %s" % (mode, name, show_cube2(dump, t, cube), what)))
            while work:
                x, S = work.pop()
                sx = at.get(x, ())
                for label, y in a.edges.get(x, ()):
                    k = label[0]
                    g = label[-1] if k != "panic" else None
                    ss = [s for s in sx if passes(s, g)]
                    if not ss:
                        continue
                    loc = a.locs.get((x, label))
                    T = None
                    if k == "panic":
                        bad("C21", "panic", "may panic: %s" % (label[1],), loc)
                        continue
                    if k == "ret":
                        if not (S & b.final):
                            bad("C21", "end", "ends where %s is expected" % expected(b, S, t, text), loc)
                        ended = True
                        continue
                    if k in ("mark", "again"):
                        T = S
                    elif k in ("sp", "nl", "blank"):
                        kk = "sp" if k == "blank" else k
                        T = S if (k == "blank") else step(b, S, (kk,))
                        if name == "MemberProperty" and x == a.start and any(s[0] == ("p", "?") for s in ss):
                            bad("C22", "space:optional", "a space inside of the token `?.`", loc)
                        if not step(b, S, (kk,)):
                            bad("C22", "space:%s" % k, "%s between tokens where none may be, before %s" % (text(t, (kk,)), expected(b, S, t, text)), loc)
                            T = S
                    elif k == "pop":
                        known = [s for s in ss if s[0] != ("unk",)]
                        if not known:
                            T = (step(b, S, ("pop",)) or frozenset()) | S
                            n2 = (y, frozenset(T))
                            if n2 not in seen:
                                seen.add(n2)
                                work.append(n2)
                            continue
                        cl = frozenset().union(*[chars(s[0]) & g[0] for s in known])
                        if cl <= {" ", "\n"}:
                            T = S
                        else:
                            T = step(b, S, ("pop",))
                            if not T or cl != {";"}:
                                bad("C22", "remove", "removes a character of the output that is not redundant (%s)" % "".join(sorted(cl))[:20], loc)
                                T = T or S
                            elif any(s[0] == ("p", ";", "E") for s in ss) and name != "ForInit":
                                bad("C22", "remove:empty", "removes the semicolon of an empty statement", loc)
                    else:
                        l = {"child": lambda: ("child", label[1], label[2]), "raw": lambda: ("raw", label[1]), "rawc": lambda: ("rawc", label[1]),
                             "w": lambda: label[:2], "p": lambda: label[:2], "next": lambda: label[:3], "end": lambda: label[:2]}[k]()
                        T = step(b, S, l)
                        if not T:
                            bad("C21", "%s" % key_of(t, l, text), "%s where %s is expected" % (text(t, l), expected(b, S, t, text)), loc)
                            continue
                        if k == "child" and label[3] != "visitor":
                            bad("C21", "visitor", "child %s is written with other settings or to another output" % ppath(t, label[1]), loc)
                        glued = any((s, l) in specglue for s in S)
                        if k in ("w", "p", "raw") and not glued and not (k == "raw" and label[2] == "text"):
                            for s in ss:
                                if name == "MemberProperty" and k == "p" and label[1] == "." and s[0][:2] == ("p", "?"):
                                    continue    # the token `?.`
                                if conflict(s, g, label, cube):
                                    bad("C22", "merge:%s" % text(t, l), "%s is written right after %s" % (text(t, l), show_state(s)), loc)
                                    break
                    n2 = (y, frozenset(T))
                    if n2 not in seen:
                        seen.add(n2)
                        work.append(n2)
            if not ended:
                bad("C21", "no-end", "never ends", None)
        if found and imp:
            R["undecided"][name] = "imprecise: %s; %s" % (sorted(map(str, imp))[0], found[0]["what"])
        else:
            R["violations"] += found


def show_cube2(dump, t, cube):
    from traverse_check import path_str
    out = []
    for k, v in sorted(cube.items(), key=repr):
        s = [p for p in k[2] if isinstance(p, str)]
        try:
            p = path_str(dump, t, ("l", k[1], tuple(p for p in k[2] if not isinstance(p, str))))
        except Exception:
            p = "?"
        out.append("%s%s=%s" % (p, "".join(s), v))
    return "{" + ", ".join(out) + "}"


def show_state(s):
    k = s[0]
    return {"w": "a word", "int": "an integer", "num": "a number", "numdot": "a number that ends with a dot", "reg": "a regular expression", "regf": "regular expression flags",
            "any": "an unknown character", "START": "the start"}.get(k[0], "`%s`" % k[-1])


def key_of(t, l, text):
    return text(t, l)


def b_glue(b):
    return getattr(b, "glue", set())


def step(b, S, l):
    out = set()
    for s in S:
        for l2, m in b.edges.get(s, ()):
            if l2 == l:
                out.add(m)
    return b.closure(out) if out else None


def expected(b, S, t, text):
    ls = sorted({text(t, l) for s in S for l, _ in b.edges.get(s, ()) if l[0] not in ("sp", "nl", "pop")})
    if S & b.final:
        ls.append("the end")
    return " or ".join(ls) or "nothing"
