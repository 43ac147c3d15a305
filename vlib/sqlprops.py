"""C01-C06: conformance of parse and print with spec/SqlSyntax.tla."""
from . import core
from .stateprops import judge

DQL = {"SELECT"}
DML = {"INSERT", "INSERT NAMED", "UPDATE", "DELETE", "COPY"}
DDL = {"CREATE TABLE", "CREATE INDEX", "CREATE DATABASE", "DROP DATABASE", "DROP TABLE", "DROP INDEX",
       "ALTER DATABASE", "ALTER TABLE", "TRUNCATE", "VACUUM", "USE", "BEGIN", "COMMIT", "ROLLBACK"}
ALL = DQL | DML | DDL
SELS = {"star", "col", "qual", "qual3", "tstar", "alias", "count", "aggr", "fn0", "fn1", "fnlit", "fnalias", "expr", "lit"}

EXH = dict(Kinds=ALL, Lens={1, 2}, Stmts={1}, SelKinds={"star", "col", "count", "fnlit"}, OrdKinds={"", "DESC"},
           IdMax=6, LitMax=12, Semis={1, 2}, Emit=True)
SIM = dict(Kinds=ALL, Lens={1, 2, 3, 5, 9}, Stmts={1}, SelKinds=SELS, OrdKinds={"", "ASC", "DESC"},
           IdMax=12, LitMax=40, Semis={1, 2, 3}, Emit=True)
INVS = ["ParseMeansDerivation", "PrintParses", "NoEarlyStatement"]


def texts(run, obs, n=5):
    for o in core.sample(obs, n, run.seed):
        run.samples.append(o.get("_text", ""))


def generate(run, exh, sim, n_exh, n_sim):
    """Every derivation within the exhaustive bounds (a random sample of n_exh of them is
    replayed), plus n_sim random derivations within the larger bounds."""
    vecs = []
    if n_exh:
        _, v = run.tlc("SqlGen", exh, invs=INVS, args=["-seed", str(run.seed)])
        run.cov["derivations_enumerated"] = len(v)
        vecs += core.sample(v, n_exh, run.seed)
    if n_sim:
        _, v = run.tlc("SqlGen", sim, invs=INVS[:2], args=["-simulate", f"num={max(1, n_sim // core.CPUS)}", "-depth", "400",
                                                           "-seed", str(run.seed)])
        vecs += v
    return core.number(vecs)


def known(run, vecs, prop):
    out = []
    for f in core.known_vectors(prop):
        if "vector" in f:
            out.append(dict(f["vector"], id=len(vecs) + len(out), known=f["what"]))
    return vecs + out


def conform(run, kinds, mode, n_exh, n_sim, exh=None, sim=None):
    e = dict(EXH, Kinds=kinds, **(exh or {}))
    s = dict(SIM, Kinds=kinds, **(sim or {}))
    vecs = known(run, generate(run, e, s, n_exh, n_sim), run.prop)
    obs = run.drive("sql", vecs)
    run.validate("SqlTrace", {"Mode": mode}, obs, vecs)
    texts(run, obs)


def c01(run):
    conform(run, ALL, "roundtrip", *((60000, 60000) if run.thorough else (5000, 6000)))
    vecs = core.number(literals(run, *((3, 60000) if run.thorough else (2, 3000))))
    obs = run.drive("sql", vecs)
    run.validate("SqlTrace", {"Mode": "roundtrip"}, obs, vecs)


def c02(run):
    conform(run, DQL, "fidelity", *((60000, 60000) if run.thorough else (4000, 6000)))
    # texts around and beyond the supported statements: rejected, or nothing of their clauses is lost
    n = 40000 if run.thorough else 3000
    vecs = derivations(run, n, {"s_select"}, 40, 40, fancy=False) + derivations(run, n // 2, {"select_stmt"}, 30, 30, fancy=False)
    vecs += [dict(toks=v["toks"]) for v in mutants(run, n, Kinds=DQL)]
    textjudge(run, vecs, 2, printed=True)


def c03(run):
    conform(run, DML, "fidelity", *((60000, 60000) if run.thorough else (4000, 6000)))
    # texts around and beyond the supported statements: rejected, or nothing of them is lost
    n = 40000 if run.thorough else 3000
    vecs = derivations(run, n, {"s_insert", "s_update", "s_delete", "s_copy"}, 50, 40, fancy=False)
    vecs += derivations(run, n, {"insert_stmt", "update_stmt", "delete_stmt"}, 30, 30, fancy=False)
    vecs += [dict(toks=v["toks"]) for v in mutants(run, n, Kinds=DML)]
    textjudge(run, vecs, 2, printed=True)


def c04(run):
    conform(run, DDL, "fidelity", *((60000, 60000) if run.thorough else (4000, 6000)))


MUTGEN = dict(Changes={"sib"}, MaxMut=1, Alphabet={";"})
SYMS = {"i1", "i3", "n1", "n5", "s1", "s7", "u2", "z3", "x1", "?", "d1", "c1", "f1", "g2"}
PUNCT = {"(", ")", ",", ".", ";", "=", "!=", "<>", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"}
WORDS = {"SELECT", "FROM", "WHERE", "AND", "OR", "GROUP", "BY", "ORDER", "LIMIT", "OFFSET", "INSERT", "INTO", "VALUES", "UPDATE", "SET", "DELETE",
         "CREATE", "TABLE", "INDEX", "PRIMARY", "KEY", "IF", "NOT", "EXISTS", "DROP", "ALTER", "RENAME", "TO", "ADD", "COLUMN", "DATABASE", "USE", "TRUNCATE",
         "VACUUM", "BEGIN", "COMMIT", "ROLLBACK", "TRANSACTION", "AS", "ASC", "DESC", "NULL", "ALL", "COPY", "STDIN", "WITH", "FORMAT", "CSV", "INT", "TEXT"}
ALPHABET = SYMS | PUNCT | WORDS
ANYCHANGE = {"drop", "dup", "cut", "tail", "swap", "ins", "own", "rep", "app", "move"}


def mutants(run, n, changes=ANYCHANGE, mut=1, alphabet=ALPHABET, **gen):
    c = dict(SIM, Lens={1, 2, 3}, **gen)
    c.update(Changes=changes, MaxMut=mut, Alphabet=alphabet)
    v = run.tlc("SqlMutate", c, spec="MSpec", invs=["SiblingsParse"] if changes == {"sib"} else [],
                args=["-simulate", f"num={max(1, n // core.CPUS)}", "-depth", "200", "-seed", str(run.seed)])[1]
    return [x for x in v if "mut" in x]


def c08(run):
    """Histories of ParserHist over families of texts: scripts, siblings which differ in one symbol, broken texts."""
    import random
    rng = random.Random(run.seed)
    q = not run.thorough
    kinds = ALL - {"CREATE TABLE"}
    n = 3000 if q else 12000
    fam = mutants(run, n, changes={"sib"}, Kinds=kinds, Stmts={1, 1, 2})
    fam2 = mutants(run, n // 2, changes={"sib"}, mut=2, Kinds=DQL | DML, Stmts={1, 2, 3})
    tab = run.tlc("SqlGen", dict(SIM, Kinds={"CREATE TABLE"}), args=["-simulate", f"num={n // 40}", "-depth", "200", "-seed", str(run.seed)])[1]
    broken = mutants(run, n)
    ok = [(v["was"], v["toks"]) for v in fam + fam2] + [(v["toks"], v["toks"]) for v in tab]

    def family(k):
        ts = []
        a, b = rng.choice(ok)
        for t in (a, b):
            ts.append(dict(toks=t, valid=True))
        m = rng.choice(broken)
        ts.append(dict(toks=m["toks"], valid=False))
        while len(ts) < k:
            r = rng.random()
            if r < 0.3:
                ts.append(dict(toks=rng.choice(broken)["toks"], valid=False))
            elif r < 0.45:
                ts.append(dict(toks=m["was"], valid=True))
            elif r < 0.6:
                ts.append(dict(toks=a[:rng.randrange(0, len(a))], valid=False))
            else:
                ts.append(dict(toks=rng.choice(rng.choice(ok)), valid=True))
        return ts
    exh = dict(MaxOps=3 if q else 4, Parsers=1, Texts=3, Threads=0, PerThread=0, Emit=True)
    vecs = run.tlc("ParserHist", exh, props=["Stable"])[1]
    run.cov["histories_enumerated"] = len(vecs)
    vecs = [dict(v, texts=family(3)) for v in core.sample(vecs, 1500 if q else 15000, run.seed)]
    rnd = dict(exh, MaxOps=24, Parsers=3, Texts=8)
    sim = lambda c, n: run.tlc("ParserHist", c, spec="RandomSpec", args=["-simulate", f"num={max(1, n // core.CPUS)}", "-depth", "60", "-seed", str(run.seed)])[1]
    vecs += [dict(v, texts=family(8)) for v in sim(rnd, 600 if q else 8000)]
    judge(run, "parserhist", "ParserHistTrace", exh, vecs)
    con = dict(exh, MaxOps=0, Texts=8, Threads=6, PerThread=6)
    judge(run, "parserhist", "ParserHistTrace", exh, [dict(v, texts=family(8)) for v in sim(con, 300 if q else 3000)], samples=1)
    judge(run, "parserhist", "ParserHistTrace", exh, [dict(v, texts=family(8)) for v in sim(con, 120 if q else 1200)], race=True, samples=1)


def sim(run, module, consts, n, depth=3000, invs=()):
    return run.tlc(module, consts, invs=list(invs), args=["-simulate", f"num={max(1, n // core.CPUS)}", "-depth", str(depth), "-seed", str(run.seed)])[1]


STMTS = {"select_stmt", "insert_stmt", "update_stmt", "delete_stmt", "create_table_stmt", "create_index_stmt", "alter_table_stmt", "drop_table_stmt", "copy_stmt",
         "begin_stmt", "sql_stmt"}
SUPPORTED = {"s_select", "s_insert", "s_update", "s_delete", "s_create_table", "s_create_index", "alter_table_stmt", "stmt"}


def derivations(run, n, starts=STMTS, budget=40, depth=30, fancy=True):
    """Random derivations of the full grammar."""
    return sim(run, "SqlDerive", dict(Starts=starts, Budget=budget, Depth=depth, Fancy=fancy, Emit=True), n, invs=["InLanguage"])


def edits(run, n, most):
    return sim(run, "EditGen", dict(MaxEdits=most, Emit=True), n, 20, invs=["Within"])


def textjudge(run, vecs, n=5, printed=False):
    vecs = known(run, core.number(vecs), run.prop)
    obs = run.drive("text", vecs)
    run.validate("SqlTextTrace", {"Printed": printed}, obs, vecs)
    texts(run, obs, n)
    return obs


def c07(run):
    q = not run.thorough
    n = 5000 if q else 60000
    vecs = [dict(toks=v["toks"]) for v in mutants(run, n, Stmts={1, 1, 2}) + mutants(run, n // 2, mut=3, Stmts={1, 2})]
    full = derivations(run, n) + derivations(run, n // 2, {"sql_stmt_list"}, 90, 60) + derivations(run, n // 2, SUPPORTED)
    vecs += full
    gen = sim(run, "SqlGen", dict(SIM, Stmts={1, 2}), n, 400)
    ed = edits(run, 2 * n, 2)
    vecs += [dict(toks=a["toks"], edits=b["edits"]) for a, b in zip(gen + full, ed)]
    vecs += [dict(text=t, toks=[]) for t in ("", " ", ";", ";;", "\n", "-- c", "/* c */", "/*", "'", "\"")]
    obs = textjudge(run, vecs)
    run.cov["texts_accepted"] = sum(o["res"] == "ok" for o in obs)
    run.cov["texts_rejected"] = sum(o["res"] == "err" for o in obs)


SEPS = {"semi", "space", "nl", "two", "many", "line", "block", "before", "comment"}
ENDS = {"none", "none", "blank", "leadline", "leadblock", "semi", "two", "nl"}


def c06(run):
    import random
    rng = random.Random(run.seed)
    q = not run.thorough
    n = 4000 if q else 40000
    # scripts of the specification, each statement judged by its meaning
    conform(run, ALL, "fidelity", 0, n, sim=dict(Stmts={2, 3, 5}, Lens={1, 2}))
    good = [v["toks"] for v in sim(run, "SqlGen", dict(SIM, Stmts={1}, Semis={0}, Lens={1, 2, 3}), n, 400)]
    good = [[t for t in v if t != ";"] for v in good]
    bad = [[t for t in v["toks"] if t != ";"] for v in mutants(run, n) + derivations(run, n // 2)]
    bad = [v for v in bad if v]
    base = dict(MaxPieces=4, Seps=SEPS, Ends=ENDS, BadOneIn=6, Emit=True)
    shapes = sim(run, "Script", base, n, 20, invs=["Consistent", "Ordered"])
    shapes += sim(run, "Script", dict(base, MaxPieces=12, BadOneIn=1), n // 8, 40, invs=["Consistent", "Ordered"])
    shapes += sim(run, "Script", dict(base, MaxPieces=60, BadOneIn=80), n // 40, 200)
    vecs = [dict(v, texts=[rng.choice(good if ok else bad) for ok in v["ok"]]) for v in shapes]
    vecs = known(run, core.number(vecs), run.prop)
    obs = run.drive("script", vecs)
    run.validate("ScriptTrace", dict(base, Emit=False), obs, vecs, spec="TSpec")
    texts(run, obs, 3)


def literals(run, most, n):
    """Scripts whose symbols stand for every content of a string up to a length, and random longer contents, numbers and names."""
    import random
    rng = random.Random(run.seed)
    base = dict(Kinds={"s"}, MaxLen=most, Random=False, Emit=True)
    invs = ["ReadsBack", "OneWord"]
    get = lambda c, k: [v["c"] for v in sim(run, "Literal", dict(base, Random=True, **c), k, 100, invs)]
    strs = [v["c"] for v in run.tlc("Literal", base, invs=invs)[1]]
    run.cov["contents_enumerated"] = len(strs)
    long = get(dict(MaxLen=40), n // 3)
    nums = [v["c"] for v in run.tlc("Literal", dict(base, Kinds={"n"}, MaxLen=4), invs=invs)[1]] + get(dict(Kinds={"n"}, MaxLen=14), n // 2)
    ids = [v["c"] for v in run.tlc("Literal", dict(base, Kinds={"i"}, MaxLen=2), invs=invs)[1]] + get(dict(Kinds={"i"}, MaxLen=30), n // 3)
    rng.shuffle(strs)
    queue = list(strs)
    vecs = []
    scripts = sim(run, "SqlGen", dict(SIM, Stmts={1, 1, 2}, Lens={1, 2, 3}), n, 400)
    for v in scripts:
        syms, used = {}, set()
        for t in dict.fromkeys(v["toks"]):
            if len(t) < 2 or t[0] not in "sni" or not t[1].isdigit():
                continue
            while True:
                if t[0] == "s":
                    x = queue.pop() if queue else rng.choice(long)
                    key = ("s", "".join(x))
                elif t[0] == "n":
                    x = rng.choice(nums)
                    key = ("n", "".join(x).lstrip("+-"))
                else:
                    x = rng.choice(ids)
                    key = ("i", "".join(x).upper())
                if key not in used and key != ("s", "STDIN"):
                    break
            used.add(key)
            syms[t] = x
        vecs.append(dict(toks=v["toks"], syms=syms))
    return vecs


def c05(run):
    q = not run.thorough
    n = 3000 if q else 30000
    vecs = run.tlc("SqlLayout", dict(SIM, Stmts={1, 2}, Lens={1, 2, 3}, Dressings=4), spec="LSpec", invs=["Same"],
                   args=["-simulate", f"num={max(1, n // core.CPUS)}", "-depth", "300", "-seed", str(run.seed)])[1]
    vecs = known(run, core.number([v for v in vecs if "lays" in v]), run.prop)
    obs = run.drive("layout", vecs)
    run.validate("SqlTrace", {"Mode": "layout"}, obs, vecs)
    texts(run, obs, 3)
    vecs = core.number(literals(run, *((2, 4000) if q else (3, 60000))))
    obs = run.drive("sql", vecs)
    run.validate("SqlTrace", {"Mode": "fidelity"}, obs, vecs)
    texts(run, obs, 3)


def contents(run, most, n):
    """Every content of a string literal up to a length, and random long ones, in random order."""
    import random
    base = dict(Kinds={"s"}, MaxLen=most, Random=False, Emit=True)
    inv = ["ReadsBack"]
    strs = [v["c"] for v in run.tlc("Literal", base, invs=inv)[1]]
    run.cov["contents_enumerated"] = len(strs)
    strs += [v["c"] for v in sim(run, "Literal", dict(base, Random=True, MaxLen=40), n, 100, inv)]
    random.Random(run.seed).shuffle(strs)
    return strs


def c09(run):
    q = not run.thorough
    n = 4000 if q else 60000
    c = dict(SIM, Kinds={"SELECT", "INSERT", "INSERT NAMED", "UPDATE", "DELETE"}, Lens={1, 2, 3, 5}, LitMax=12, Stmts={1, 1, 2, 3}, Emit=False)
    one = lambda c, n: run.tlc("SqlBind", c, spec="BSpec", invs=["WalkIsSubst", "SameShape"],
                               args=["-simulate", f"num={max(1, n // core.CPUS)}", "-depth", "600", "-seed", str(run.seed)])[1]
    vecs = one(dict(c, Params={0, 1, 2, 3, 4}, MarkOneIn=6), n)
    vecs += one(dict(c, Params={5, 8, 12, 13}, MarkOneIn=12, Lens={3, 5, 9}), n // 3)
    # string parameters and literals of any content
    cs = contents(run, 2 if q else 3, n // 2)
    k = 0
    for v in vecs:
        syms = {}
        for t in dict.fromkeys([x for x in v["toks"]] + [p["sym"] for p in v["params"] if p["g"] == "string"]):
            if t[0] == "s" and t[1:].isdigit() and cs[k % len(cs)] not in syms.values():
                syms[t] = cs[k % len(cs)]
                k += 1
        v["syms"] = syms
    vecs = known(run, core.number(vecs), run.prop)
    obs = run.drive("bind", vecs)
    run.validate("SqlTrace", {"Mode": "bind"}, obs, vecs)
    run.cov["bound"] = sum(o["runs"][0]["res"] == "ok" for o in obs)
    texts(run, obs, 4)


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04}
MORE = {}


MORE["C08"] = dict(run=c08, mode="parserhist",
                   technique="TLA+ machine of parsers and held results (ParserHist) over texts whose meaning is given by SqlSyntax; TLC-generated parse histories, overwritten results and concurrent parsers (also with the race detector) replayed, all results re-read at the end, judged by TLC (ParserHistTrace)",
                   note="Families of texts: scripts, the same script with one changed literal or name, and broken texts. For broken texts the result (with its error text) must be the same whenever it is parsed.")

MORE["C07"] = dict(run=c07, mode="text",
                   technique="TLA+ grammar and lexer of the dialect (SqlLex, SqlGrammar) decide which texts are scripts; TLC-generated token mutants, derivations of the full grammar and character-level edits (SqlMutate, SqlDerive, EditGen) are parsed by the real parser and judged by TLC (SqlTextTrace)",
                   note="One direction only: a text outside the dialect must be an error without statements; that texts of the dialect are accepted is decided by C01-C06.")

MORE["C06"] = dict(run=c06, mode="script",
                   technique="TLA+ machine of scripts (Script) and the syntax specification (SqlSyntax); TLC-generated scripts of valid and broken statements with all separators are parsed whole and piece by piece by the real parser, judged by TLC (ScriptTrace, SqlTrace)",
                   note="Broken pieces are token mutants and derivations of the full grammar; whether such a piece is an error alone is taken from the parser itself, what the whole script gives from the specification.")

MORE["C05"] = dict(run=c05, mode="layout",
                   technique="TLA+ machine of layouts (SqlLayout) over derived scripts and TLA+ scanner of literals (Literal); TLC-generated layouts, literal contents and positions are parsed by the real parser, what it reports is judged by TLC (SqlTrace, LiteralTrace)",
                   note="")

MORE["C09"] = dict(run=c09, mode="bind",
                   technique="TLA+ definition of substitution (SqlSubst) and machine of templates and parameters (SqlBind); TLC-generated templates with any placeholders are bound to values of all Go types by the real code, the statements are judged by TLC against the meaning of the substituted script (SqlTrace)",
                   note="Placeholders ? and $n; the numbered form ?n is not generated. Contents of string parameters are enumerated exhaustively up to length 2 (3 thorough).")
