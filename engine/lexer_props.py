"""Which disagreements between the lexer and the reference lexer break which property."""
import glob, hashlib, os, pickle
import lexjoint

# functions of the reference lexer for the tokens that carry a text
LITERAL = {"number", "digits", "string", "template_characters", "regular_expression"}
GRAMMAR = {"event", "accept", "value"}

LITERAL_PARTS = [i for i, g in enumerate(lexjoint.LexJoint.GROUPS) if set(g) & set("0'\"`/")]


def literal(v):
    fs = set(v["ref"]) & LITERAL or {f for f in v["impl"] if "literal" in f or "number" in f}
    return bool(fs) or "Literal" in v["key"]


SELECT = {
    "C01": lambda v: v["kind"] == "panic",
    "C02": lambda v: v["kind"] == "loop",
    "C03": lambda v: v["kind"] in ("accept", "event") and "reports the end of the input" in v["what"],
    "C04": lambda v: v["kind"] == "span",
    "C07": lambda v: v["kind"] == "line",
    # where tokens begin and end, what kind they are, what lies between them
    "C14": lambda v: True,
    # what is a literal, and its text
    "C17": lambda v: v["kind"] in GRAMMAR and (literal(v) or v["part"] in LITERAL_PARTS),
}


def cached(dump, log):
    if not os.environ.get("FAJT_CACHE"):
        return lexjoint.run(dump, log)
    h = hashlib.sha256(open(dump.path, "rb").read())
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "*.py"))):
        if not f.endswith(("props.py", "registry.py")):
            h.update(open(f, "rb").read())
    p = os.path.join(os.environ["FAJT_CACHE"], "lexer-%s.pkl" % h.hexdigest()[:24])
    if not os.path.exists(p):
        r = lexjoint.run(dump, log)
        pickle.dump(r, open(p, "wb"))
    return pickle.load(open(p, "rb"))


def run(dump, prop, log=print):
    try:
        res = cached(dump, log)
    except Exception as e:
        return dict(violations=[], undecided={"lexer": "%s: %s" % (type(e).__name__, str(e)[:200])}, obligations=1, parts=[])
    sel = SELECT[prop]
    seen, viol, und = set(), [], {}
    for r in sorted(res, key=lambda r: r["part"]):
        g = lexjoint.LexJoint.GROUPS[r["part"]]
        name = "tokens starting with %s" % (repr(g) if g else "another character")
        if r["undecided"]:
            und[name] = r["undecided"]
        for v in r["violations"]:
            v["part"] = r["part"]
            if sel(v) and v["key"] not in seen:
                seen.add(v["key"])
                viol.append(dict(key=v["key"], what=v["what"], loc=v["loc"]))
    return dict(violations=viol, undecided=und, obligations=sum(r["nodes"] for r in res),
                parts=["%s: %d product states" % (lexjoint.LexJoint.GROUPS[r["part"]] or "other", r["nodes"]) for r in res], character_classes=res[0]["atoms"])
