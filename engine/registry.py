"""The checks and the properties they decide."""
COMMON_ASSUMPTIONS = [
    "rustc's MIR (nightly, unoptimised) represents the semantics of the sources; the standard library behaves as modelled",
]
CHECKS = {}


def check(prop, level="proof", assumptions=()):
    def deco(f):
        CHECKS[prop] = {"run": f, "level": level, "assumptions": list(assumptions)}
        return f
    return deco


def proof(obligations, violations, base, **more):
    return {"violations": violations,
            "coverage": dict(obligations=obligations, discharged=max(0, obligations - len({v["key"] for v in violations})),
                             checker_cmd="python3 check.py", trusted_base=list(base), **more)}


ENGINE = ["/verif/driver (dump of the monomorphised MIR)", "/verif/engine/absint.py (abstract interpreter)"]


@check("C20")
def c_traverse(dump, tier):
    import traverse_check as t
    r = t.check(dump)
    if r["types"] < 100:
        r["violations"].append(dict(key="floor", what="only %d node types found, 104 confirmed by hand" % r["types"], loc=None))
    return proof(r["cubes"], r["violations"], ENGINE + ["/verif/engine/traverse_check.py (child order tables)"],
                 node_types=r["types"], automaton_states=r["states"], visitor_methods=len(r["methods"]),
                 rule="for every node type and every combination of its variants and options: event automaton of the Traverse implementation == automaton generated from the type definition")


@check("C16")
def c_spelling(dump, tier):
    import spell_check as t
    r = t.run(dump)
    n = sum(r["sizes"].values())
    if n < 150:
        r["violations"].append(dict(key="floor", what="only %d variants found, 157 confirmed by hand" % n, loc=None))
    return proof(r["cubes"], r["violations"], ENGINE + ["/verif/engine/spell_check.py (spelling tables)"], variants=r["sizes"],
                 rule="from_str, as_str and to_string of every token/operator enumeration agree with the spelling table, branch by branch")


@check("C15")
def c_reserved(dump, tier):
    import parser_props as pp
    import spell_check as t
    r = t.reserved(dump)
    q = pp.run(dump, "C15")
    out = proof(r["cubes"] + q["obligations"], r["violations"] + q["violations"],
                ENGINE + ["/verif/engine/spell_check.py (reserved words)", "/verif/engine/joint.py (product construction)", "/verif/harness/src/reference (reference grammar)"],
                productions=q["productions"],
                rule="for every keyword and every combination of the context flags: the reservation predicate == table of ECMA-262 12.7.2/13.1.1; no production takes a word where the "
                     "grammar rejects it as reserved, or rejects it as reserved where the grammar takes it")
    out["undecided"] = ["%s: %s" % x for x in sorted(q["undecided"].items())]
    return out


LEXER = ["/verif/engine/lexjoint.py (product construction)", "/verif/harness/src/reference/lexer.rs (reference lexer)"]
LEXER_TOO = ("C01", "C02", "C03", "C04", "C07")


def entry(dump, r, *keys):
    """from the source and its type to the parser: what reader_check reports about that"""
    import reader_check as t
    if not hasattr(dump, "reader"):
        dump.reader = t.run(dump)
    q = dump.reader
    r["violations"] = r["violations"] + [v for v in q["violations"] if v["key"].split("reader:")[1].startswith(keys)]
    r["undecided"] = dict(r["undecided"], **{k: v for k, v in q["undecided"].items() if k in ("entry", "states", "new")})
    r["obligations"] += 6


def parser_check_for(prop):
    def run(dump, tier):
        import parser_props as pp
        r = pp.run(dump, prop)
        base = ENGINE + ["/verif/engine/joint.py (product construction)", "/verif/harness/src/reference (reference grammar)"]
        if prop in LEXER_TOO:
            import lexer_props as lp
            q = lp.run(dump, prop)
            r["violations"] = r["violations"] + q["violations"]
            r["undecided"] = dict(r["undecided"], **q["undecided"])
            r["obligations"] += q["obligations"]
            r["lexer"] = q["parts"]
            base += LEXER
        if prop == "C04":
            import spans_check as sc
            q = sc.run(dump)
            r["violations"] = r["violations"] + q["violations"]
            r["undecided"] = dict(r["undecided"], **q["undecided"])
            r["obligations"] += len(q["types"])
            r["span_of"] = q["types"]
            base += ["/verif/engine/spans_check.py (span() of every node type)"]
        if prop == "C10":
            entry(dump, r, "entry:type", "entry:text")
        if prop == "C13":
            import names_check as nc
            q = nc.run(dump)
            r["violations"] = r["violations"] + q["violations"]
            r["undecided"] = dict(r["undecided"], **q["undecided"])
            r["obligations"] += q["cubes"]
            r["names"] = q["functions"]
            base += ["/verif/engine/names_check.py (bound names, duplicates)"]
        more = {k: v for k, v in r.items() if k not in ("violations", "undecided", "obligations")}
        out = proof(r["obligations"], r["violations"], base,
                    rule="every pair of states of production and reference production that the same tokens lead to agrees on the next step", **more)
        out["coverage"]["discharged"] = max(0, out["coverage"]["discharged"] - len(r["undecided"]))
        out["undecided"] = ["%s: %s" % x for x in sorted(r["undecided"].items())]
        return out
    check(prop)(run)


for _p in ["C%02d" % i for i in range(1, 14)]:
    parser_check_for(_p)


def lexer_check_for(prop):
    def run(dump, tier):
        import lexer_props as lp
        r = lp.run(dump, prop)
        if prop == "C14":
            entry(dump, r, "entry:state", "entry:text", "state:", "lexer:new", "lexer:set_state")
        more = {k: v for k, v in r.items() if k not in ("violations", "undecided", "obligations")}
        out = proof(r["obligations"], r["violations"], ENGINE + LEXER,
                    rule="every pair of states of lexer and reference lexer that the same characters lead to agrees on the next step, and the tokens are equal", **more)
        out["coverage"]["discharged"] = max(0, out["coverage"]["discharged"] - len(r["undecided"]))
        out["undecided"] = ["%s: %s" % x for x in sorted(r["undecided"].items())]
        return out
    check(prop)(run)


for _p in ("C14", "C17"):
    lexer_check_for(_p)


@check("C18")
def c_reader(dump, tier):
    import reader_check as t
    r = t.run(dump)
    r["violations"] = [v for v in r["violations"] if not v["key"].startswith("reader:entry:")]
    out = proof(max(1, r["cases"]), r["violations"], ENGINE + ["/verif/engine/reader_check.py (specification of the reader operations)"],
                 rule="every path of every operation of the reader and of the lexer's re-reading leaves the specified state, makes the specified requests and returns the specified result")
    out["undecided"] = ["%s: %s" % x for x in sorted(r["undecided"].items())]
    return out


def codegen_check_for(prop, rule):
    def run(dump, tier):
        import codegen_check as t
        if not hasattr(dump, "codegen"):
            dump.codegen = t.run(dump)
        r = dump.codegen
        vs = [dict(v) for v in r["violations"] if v["prop"] == prop]
        if r["types"] + len(r["undecided"]) < 180:
            vs.append(dict(key="floor", what="only %d node types (in two modes) found, 198 confirmed by hand" % r["types"], loc=None))
        out = proof(r["cubes"], vs, ENGINE + ["/verif/engine/codegen_check.py (model of the generator)", "/verif/engine/codegen_spec.py (grammar templates, token rules)"],
                    node_types_and_modes=r["types"], automaton_states=r["states"], undecided=["%s: %s" % x for x in sorted(r["undecided"].items())], rule=rule)
        out["undecided"] = ["%s: %s" % x for x in sorted(r["undecided"].items())]
        return out
    return run


check("C21")(codegen_check_for("C21", "for every node type, combination of its variants and options, and mode: every path of the generator writes what the grammar template of the node has"))
check("C22")(codegen_check_for("C22", "for every write of the generator and every text that can precede it: the tokens do not merge, white space is only where the grammar ignores it, only redundant semicolons are removed"))


@check("C24")
def c_effects(dump, tier):
    import effects_check as t
    r = t.run(dump)
    vs = list(r["violations"])
    if r["functions"] < 1500:
        vs.append(dict(key="floor", what="only %d bodies of the library crates found, 2850 confirmed by hand" % r["functions"], loc=None))
    out = proof(max(1, r["names"]), vs, ["/verif/driver (scan of all bodies of the library crates)", "/verif/engine/effects_check.py (judgement of the functions of the standard library)"],
                bodies=r["functions"], rule="no body of the library crates names a function, static or cast that reaches anything but its arguments, or lets the order of a hash table or an address into its result")
    out["undecided"] = ["%s: %s" % x for x in sorted(r["undecided"].items())]
    return out


@check("C26")
def c_cli(dump, tier):
    import cli_check as t
    r = t.run(dump)
    vs = list(r["violations"])
    out = proof(max(1, r["cases"]), vs, ENGINE + ["/verif/engine/text_model.py (formatted text)", "/verif/engine/cli_check.py (what a run does)"],
                rule="every path through main reads the named file, parses it as its extension says, and reports, prints or generates as the options say, with the right status")
    out["undecided"] = ["%s: %s" % x for x in sorted(r["undecided"].items())]
    return out


@check("C23")
def c_serial(dump, tier):
    import dump as dm
    import serial_check as t
    r = t.run(dm.Dump(dm.dump_path("serial")))
    vs = list(r["violations"])
    if r["types"] < 100:
        vs.append(dict(key="floor", what="only %d serialised types found, 113 confirmed by hand" % r["types"], loc=None))
    out = proof(max(1, r["cases"]), vs, ENGINE + ["/verif/harness/src/serial.rs (format-less serializer and deserializer)", "/verif/engine/serial_check.py (documents)"],
                node_types=r["types"], fields=r["fields"],
                rule="for every serialised type and every variant: what Deserialize makes of the document that Serialize writes, by name and by position, is the value that was written; a text that is not a position is an error")
    out["undecided"] = ["%s: %s" % x for x in sorted(r["undecided"].items())]
    return out


@check("C25")
def c_diag(dump, tier):
    import diag_check as t
    r = t.run(dump)
    vs = list(r["violations"])
    out = proof(max(1, r["cases"]), vs, ENGINE + ["/verif/engine/text_model.py (formatted text)", "/verif/engine/diag_check.py (what a report is)"],
                rule="every path through the error emitter prints the error, the place where it starts, the source it covers with a mark below, and the explanation of its kind; the source is cut at positions of the error or of line ends only")
    out["undecided"] = ["%s: %s" % x for x in sorted(r["undecided"].items())]
    return out
