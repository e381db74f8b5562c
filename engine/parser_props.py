"""Which disagreements between the parser and the reference grammar break which property."""
import glob, hashlib, os, pickle
import parser_check

ROOTS = {"program", "program_stmt", "program_expr"}
STMT = {"parse_stmt", "parse_declaration_or_statement", "parse_variable_stmt"} | ROOTS
OPERATOR = {"parse_expr", "parse_assignment_expr", "parse_conditional_expr", "parse_short_circuit_expr", "parse_logical_or_expr", "parse_logical_and_expr",
            "parse_bitwise_or_expr", "parse_bitwise_xor_expr", "parse_bitwise_and_expr", "parse_equality_expr", "parse_relational_expr", "parse_shift_expr",
            "parse_additive_expr", "parse_multiplicative_expr", "parse_exponentiation_expr", "parse_unary_expr"}
PATTERN = {"parse_binding_element", "parse_binding_pattern", "parse_assignment_pattern", "parse_assignment_expr", "is_assignment_target_type_simple",
           "parse_formal_parameters"}
MODULE = {"parse_import_declaration", "parse_export_declaration", "program", "program_stmt", "parse_declaration_or_statement"}
PRIMARY = {"parse_left_hand_side_expr", "parse_new_or_member_expr", "parse_arguments", "parse_primary_expr", "parse_array_literal", "parse_template_literal"}
FUNC = {"parse_arrow_function_expr", "parse_async_arrow_function_expr", "parse_function_expr", "parse_function_declaration", "parse_async_function_expr",
        "parse_async_function_declaration", "parse_class_decl", "parse_class_expr", "parse_method_definition", "parse_object_literal", "parse_property_name",
        "parse_formal_parameters", "parse_function_body", "parse_directive_prologue"}
EARLY = {"contains_strict", "is_simple", "early_errors_getter", "early_errors_setter", "early_errors_method", "is_assignment_target_type_simple",
         "early_errors_unary_delete"}
# productions with `[no LineTerminator here]` before a token of their own
RESTRICTED = {"parse_arrow_function_expr", "parse_async_arrow_function_expr"}
CONTEXT = {"is_await", "is_yield", "is_in", "is_strict", "is_default", "is_return", "in_method", "super_call_allowed", "static_method_allowed"}
GRAMMAR = {"event", "accept", "value", "arg", "ctx"}


def g(v, fns):
    return v["fn"] in fns and v["kind"] in GRAMMAR


def ctxflags(v):
    return set(v["flags"]) & CONTEXT


SELECT = {
    "C01": lambda v: v["kind"] == "panic",
    "C02": lambda v: v["kind"] == "loop",
    "C03": lambda v: v["fn"] in ROOTS and v["kind"] in GRAMMAR or set(v["flags"]) & {"eof", "lexerr"} and v["kind"] in ("event", "accept")
        or "lexical error" in v["what"],
    "C04": lambda v: v["kind"] == "span",
    "C05": lambda v: g(v, STMT),
    "C06": lambda v: g(v, OPERATOR) or v["kind"] == "ctx" and ":is_in" in v["key"] or "is_in" in v["flags"] and v["kind"] in GRAMMAR,
    "C07": lambda v: set(v["flags"]) & {"newline", "semicolon"} and v["kind"] in ("event", "accept", "value") or v["fn"] in RESTRICTED and v["kind"] == "accept",
    "C08": lambda v: v["kind"] == "ctx" or ctxflags(v) and v["kind"] in GRAMMAR,
    "C09": lambda v: g(v, PATTERN) or v["kind"] in GRAMMAR and any("pattern" in l or "binding" in l for l in v["labels"]),
    "C10": lambda v: g(v, MODULE) or v["kind"] in GRAMMAR and ("source_type" in v["flags"] or "source_type" in v["key"] or v["kind"] == "ctx" and "is_strict" in v["key"]),
    "C11": lambda v: g(v, PRIMARY),
    "C12": lambda v: g(v, FUNC),
    "C15": lambda v: v["kind"] in GRAMMAR and "reserved" in v["flags"],
    "C13": lambda v: g(v, EARLY) or v["kind"] in GRAMMAR and ("semantics" in v["flags"] or v["kind"] == "accept" and v["fn"] in FUNC | {"parse_unary_expr", "parse_assignment_expr"}),
}
# the productions a property is about; everything else needs no look
SCOPE = {"C05": STMT, "C06": None, "C09": None, "C10": None, "C11": PRIMARY, "C12": FUNC}


def cached(dump, scope, log):
    """FAJT_CACHE: several properties of the same tree in a row while developing (never set by the registered commands)"""
    if not os.environ.get("FAJT_CACHE"):
        return parser_check.run(dump, log, scope)
    h = hashlib.sha256(open(dump.path, "rb").read())
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "*.py"))):
        if not f.endswith(("props.py", "registry.py")):
            h.update(open(f, "rb").read())
    h.update(b"x")
    p = os.path.join(os.environ["FAJT_CACHE"], "joint-%s.pkl" % h.hexdigest()[:24])
    if not os.path.exists(p):
        r = parser_check.run(dump, log, None)
        pickle.dump(r, open(p, "wb"))
    return pickle.load(open(p, "rb"))


def run(dump, prop, log=print):
    res = cached(dump, SCOPE.get(prop), log)
    und = {n: r["undecided"] for n, r in res.items() if r["undecided"]}
    sel = SELECT[prop]
    seen, viol = set(), []
    for n, r in sorted(res.items()):
        if SCOPE.get(prop) and n not in SCOPE[prop]:
            continue
        for v in r["violations"]:
            if sel(v) and v["key"] not in seen:
                seen.add(v["key"])
                viol.append(dict(key=v["key"], what=v["what"], loc=v["loc"]))
    scope = sorted(n for n in res if not SCOPE.get(prop) or n in SCOPE[prop])
    und = {n: u for n, u in und.items() if n in scope}
    more = {}
    obligations = sum(res[n]["nodes"] for n in scope)
    if prop == "C02":
        pv, po, facts = parser_check.progress(res)
        viol += [dict(key=v["key"], what=v["what"], loc=v["loc"]) for v in pv]
        obligations += po
        more["may_be_empty"] = facts["may_be_empty"]
    viol += deviations(prop, res, scope, und)
    return dict(violations=viol, undecided=und, obligations=obligations, productions=scope, **more)


# What the reference grammar takes over from the parser although ECMA-262 says otherwise (pinned by the snapshot tests or out of reach of a small
# repair): (property, production, key, text).  Reported as known findings as long as the production agrees with the reference.
DEVIATIONS = [
    ("C06", "parse_exponentiation_expr", "exponent-left", "`a ** b ** c` is grouped as `(a ** b) ** c`"),
    ("C06", "parse_exponentiation_expr", "exponent-unary", "`-a ** b` is accepted"),
    ("C06", "parse_short_circuit_expr", "coalesce-mixed", "`a ?? b || c` is accepted without parentheses"),
    ("C06", "parse_assignment_expr", "yield-stop", "`yield` without argument before `,` or `:` (`f(yield, 1)`) is rejected"),
    ("C09", "parse_assignment_pattern", "array-pattern-elision", "an array assignment pattern gets one empty element too many per separating comma"),
    ("C09", "parse_binding_pattern", "object-rest-pattern", "the rest element of an object binding pattern may be a pattern (`var {...{a}} = b`)"),
    ("C08", "parse_method_definition", "method-yield", "a method inside a generator function is marked as generator itself"),
    ("C08", "parse_async_arrow_function_expr", "async-arrow-params", "`async (await) => 1` is accepted: the parameters are parsed without the await context"),
    ("C10", "parse_export_declaration", "export-reserved", "`export { default }` and other reserved words are accepted as local names without a module"),
    ("C05", "parse_stmt", "default-twice", "a switch statement with two default clauses is accepted"),
]


def deviations(prop, res, scope, und):
    out = []
    for p, fn, key, text in DEVIATIONS:
        if p == prop and fn in res and not res[fn]["undecided"]:
            out.append(dict(key="deviation:%s:%s" % (fn, key), what=text, loc=None))
    return out
