"""Checks of the stateful parts: histories of a state machine are generated by
TLC, executed by the driver and judged by TLC against the same machine."""
from . import core
from .core import Raw


def with_known(run, vecs, mode):
    """Add the recorded findings of the property; they are reported as known."""
    vecs = list(vecs)
    for f in core.known_vectors(run.prop):
        if "vector" in f and f.get("mode", mode) == mode:
            vecs.append(dict(f["vector"], id=len(vecs), known=f["what"]))
    return vecs


def histories(run, gen, trace, mode, exh=None, sim=None, n_exh=None, n_sim=0, depth=60, invs=(), sinvs=(), props=(), race=False, tconsts=None,
              sim_spec="Spec"):
    vecs = []
    if exh:
        for e in (exh if isinstance(exh, list) else [exh]):
            _, v = run.tlc(gen, e, invs=invs, props=props, args=["-seed", str(run.seed)])
            run.cov["histories_enumerated"] = run.cov.get("histories_enumerated", 0) + len(v)
            vecs += core.sample(v, n_exh, run.seed) if n_exh else v
    if sim:
        for s in (sim if isinstance(sim, list) else [sim]):
            n_sim = s.pop("_n", n_sim)
            _, v = run.tlc(gen, s, spec=sim_spec, invs=sinvs, props=(), args=["-simulate", f"num={max(1, n_sim // core.CPUS)}", "-depth", str(depth),
                                                    "-seed", str(run.seed)])
            vecs += v
    vecs = core.number(vecs)
    vecs = with_known(run, vecs, mode)
    obs = run.drive(mode, vecs, race=race)
    c = dict((exh[0] if isinstance(exh, list) else exh) or (sim[0] if isinstance(sim, list) else sim), Emit=False)
    c.update(tconsts or {})
    run.validate(trace, c, obs, vecs, spec="TSpec", post=None)
    for o in core.sample(obs, 3, run.seed):
        run.samples.append({k: v for k, v in o.items() if k != "id"})
    return obs


STACK_VALS = {f"{k}{n}" for k in "ismbptf" for n in (1, 2, 3)} | {"z0", "z1", "z2", "z3", "z4", "nil"}


def c21(run):
    q = not run.thorough
    histories(run, "Stack", "StackTrace", "stack",
              exh=dict(MaxOps=6 if q else 7, Vals={"nil", "i1", "s2"}, Bulk=set(), Emit=True),
              sim=[dict(MaxOps=40, Vals=STACK_VALS, Bulk=set(), Emit=True),
                   dict(MaxOps=12, Vals={"i9", "p1"}, Bulk={7, 100, 700}, Emit=True)],
              n_sim=1600 if q else 16000, invs=["LastInFirstOut"])


AGGR_GEN = dict(Fns={"SUM", "AVG", "MIN", "MAX", "COUNT"}, Forms={"row", "arr", "map", "gomap"}, Emit=True)


def c10(run):
    q = not run.thorough
    histories(run, "Aggr", "AggrTrace", "aggr",
              exh=dict(AGGR_GEN, MaxOps=2 if q else 3, Args=Raw('{<<"x">>, <<"*">>}'), Groups=Raw('{<<>>, <<"g">>}'), KeyMax=1, Nums={0, 3},
                       Forms={"row", "map"}),
              sim=[dict(AGGR_GEN, MaxOps=24, Args=Raw('{<<"x">>, <<"*">>, <<"x", "y">>}'), Groups=Raw('{<<>>, <<"g">>, <<"g", "h">>}'), KeyMax=3,
                        Nums=Raw("-9..9")),
                   dict(AGGR_GEN, MaxOps=120, Args=Raw('{<<"x">>, <<"*">>}'), Groups=Raw('{<<>>, <<"g">>, <<"g", "h">>}'), KeyMax=9,
                        Nums=Raw("-99..99"), _n=400 if q else 4000)],
              n_exh=6000 if q else 60000,
              n_sim=3000 if q else 30000, depth=200, sim_spec="RandomSpec", invs=["HistoryDecides", "SortIsSorted"], )


def c11(run):
    q = not run.thorough
    base = dict(AGGR_GEN, MaxOps=3 if q else 4, Args=Raw('{<<"x">>}'), Groups=Raw('{<<>>, <<"g">>}'), KeyMax=2, Nums={1, 3}, MaxAggs=2, MaxSels=3)
    rnd = dict(base, MaxOps=16, MaxAggs=4, MaxSels=6, KeyMax=4, Groups=Raw('{<<>>, <<"g">>, <<"g", "h">>}'), Nums=Raw("-9..9"))
    long = dict(rnd, MaxOps=60, KeyMax=9)
    vecs = run.tlc("AggrSet", base, spec="ESpec", invs=["SameGroups"])[1]
    run.cov["histories_enumerated"] = len(vecs)
    vecs = core.sample(vecs, 4000 if q else 60000, run.seed)
    for c, n in (rnd, 300 if q else 3000), (long, 60 if q else 600):
        vecs += run.tlc("AggrSet", c, spec="SSpec", invs=["SameGroups"],
                        args=["-simulate", f"num={n}", "-depth", "100", "-seed", str(run.seed)])[1]
    core.number(vecs)
    vecs = with_known(run, vecs, "aggrset")
    obs = run.drive("aggrset", vecs)
    run.validate("AggrSetTrace", dict(base, Emit=False), obs, vecs, spec="TSpec", post=None)
    for o in core.sample(obs, 5, run.seed):
        run.samples.append({k: v for k, v in o.items() if k != "id"})


def judge(run, mode, trace, consts, vecs, race=False, samples=4):
    """Replay vectors, let TLC judge what was recorded."""
    core.number(vecs)
    vecs = with_known(run, vecs, mode)
    obs = run.drive(mode, vecs, race=race)
    run.validate(trace, dict(consts, Emit=False), obs, vecs, spec="TSpec", post=None)
    for o in core.sample(obs, samples, run.seed):
        run.samples.append({k: v for k, v in o.items() if k != "id"})
    return obs


def simulate(run, module, consts, n, depth, spec="Spec", invs=()):
    """n random behaviours."""
    return run.tlc(module, consts, spec=spec, invs=invs,
                   args=["-simulate", f"num={max(1, n // core.CPUS)}", "-depth", str(depth), "-seed", str(run.seed)])[1]


def c13(run):
    q = not run.thorough
    exh = dict(MaxOps=1, MaxRows=3 if q else 6, MaxCols=2, Forms={"obj", "vals"}, Offs=Raw("{-1, -3}"), Emit=True)
    rnd = dict(MaxOps=24, MaxRows=7, MaxCols=5, Forms={"obj", "vals", "pos"}, Offs=Raw("(-5)..(-1)"), Emit=True)
    vecs = run.tlc("ResultSet", exh, spec="ESpec", invs=["WindowExact"], props=["Forward"])[1]
    run.cov["histories_enumerated"] = len(vecs)
    vecs += simulate(run, "ResultSet", rnd, 4000 if q else 40000, 40, invs=["WindowExact"])
    judge(run, "resultset", "ResultSetTrace", exh, vecs)


def c14(run):
    q = not run.thorough
    types = {"INT", "TEXT", "VARCHAR(7)", "DOUBLE", "BOOLEAN"}
    exh = dict(MaxOps=3, MaxSchemas=1, Names={"a"} if q else {"a", "b"}, Types={"INT"}, Hows={"direct"}, Emit=True)
    exh2 = dict(exh, MaxOps=2 if q else 3, MaxSchemas=2, Names={"a"}, Hows={"direct", "parsed"})
    rnd = dict(MaxOps=30, MaxSchemas=3, Names=set("abcdef"), Types=types, Hows={"direct", "alter", "parsed"}, Emit=True)
    few = dict(rnd, MaxOps=20, Names={"a", "b"}, Hows={"direct", "alter"})
    vecs = []
    for e in exh, exh2:
        v = run.tlc("Schema", e, invs=["Held"], props=["OneChange"])[1]
        run.cov["histories_enumerated"] = run.cov.get("histories_enumerated", 0) + len(v)
        vecs += core.sample(v, 3000 if q else 30000, run.seed)
    vecs += simulate(run, "Schema", rnd, 800 if q else 16000, 60, spec="RandomSpec")
    vecs += simulate(run, "Schema", few, 2400 if q else 24000, 60, spec="RandomSpec")
    judge(run, "schema", "SchemaTrace", exh, vecs)


def c15(run):
    q = not run.thorough
    c = dict(MaxOps=8, MaxLists=4, MaxCols=3, Emit=True,
             Types={"TINYINT", "SMALLINT", "INT", "INTEGER", "BIGINT", "FLOAT", "DOUBLE", "BOOLEAN", "TEXT", "VARCHAR(20)", "DATETIME", "BLOB", "LONGTEXT", "CHAR(3)"})
    vecs = simulate(run, "Typed", c, 6000 if q else 40000, 30, invs=["KeepsValue"])
    judge(run, "typed", "TypedTrace", c, vecs)


def c16(run):
    q = not run.thorough
    exh = dict(MaxOps=3 if q else 4, Conns=3 if q else 3, Ids={1, 2}, Uuids={1, 2}, Kinds={"fake"}, Fails={0} if q else {0, 1}, Threads=0, PerThread=0, Emit=True)
    vecs = run.tlc("Registry", exh, spec="ESpec", view="StateView", invs=["Unique", "Found"], props=["FailureChangesNothing", "OnlyCloseCloses"])[1]
    run.cov["transitions_replayed"] = len(vecs)
    vecs = core.sample(vecs, 12000 if q else 100000, run.seed)
    rnd = dict(exh, MaxOps=40, Conns=7, Ids=Raw("0..5"), Uuids=Raw("0..5"), Kinds={"real", "fake", "self"}, Fails={0, 1, 2})
    vecs += simulate(run, "Registry", rnd, 1600 if q else 16000, 60, invs=["Unique", "Found"])
    judge(run, "registry", "RegistryTrace", exh, vecs)
    con = dict(rnd, Conns=4, Ids=Raw("0..2"), Uuids=Raw("0..3"), Kinds={"real", "fake"}, Fails={0}, Threads=3, PerThread=3)
    con2 = dict(con, Conns=2, Ids={1}, Threads=4, PerThread=2)
    for c in con, con2:
        judge(run, "registry", "RegistryTrace", exh, simulate(run, "Registry", c, 2000 if q else 16000, 10, spec="CSpec"), race=True, samples=1)
        judge(run, "registry", "RegistryTrace", exh, simulate(run, "Registry", c, 2000 if q else 16000, 10, spec="CSpec"), samples=1)


def c17(run):
    q = not run.thorough
    exh = dict(MaxOps=4 if q else 5, MaxConns=1, Vals={0, 1, 2}, Spans={0, 1}, Threads=0, PerThread=0, Emit=True)
    vecs = run.tlc("Session", exh, spec="ESpec", view="StateView", invs=["OnceEach", "ClosesOnce"], props=["KeepsOrder"])[1]
    run.cov["transitions_replayed"] = len(vecs)
    vecs = core.sample(vecs, 8000 if q else 100000, run.seed)
    rnd = dict(exh, MaxOps=40, MaxConns=3, Vals=Raw("0..7"), Spans=Raw("0..3"))
    vecs += simulate(run, "Session", rnd, 1600 if q else 16000, 60, invs=["OnceEach", "ClosesOnce"])
    t = dict(exh, Spans=Raw("0..3"))
    judge(run, "session", "SessionTrace", t, vecs)
    con = dict(rnd, Vals=Raw("0..3"), Threads=3, PerThread=4)
    con2 = dict(con, Vals=Raw("0..2"), Threads=5, PerThread=2)
    for c in con, con2:
        vecs = simulate(run, "Session", c, 1600 if q else 16000, 10, spec="CSpec")
        judge(run, "session", "SessionTrace", t, vecs, race=True, samples=1)
        judge(run, "session", "SessionTrace", t, vecs, samples=1)


def c20(run):
    q = not run.thorough
    c = dict(MaxEdits=1, Chars=set("0129APXaz ") if q else set("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabchvpxz -_"), Emit=True,
             Subjects={"plain", "word", "percent", "quote", "unicode", "space", "long", "number", "upper", "empty"})
    vecs = run.tlc("Errs", c, view="View", invs=["Out"])[1]
    run.cov["codes_looked_up"] = len(vecs)
    more = run.tlc("Errs", c, spec="CSpec", invs=["COut"])[1]
    run.cov["errors_made"] = len(more)
    data = open(core.VERIF + "/spec/SqlStateData.tla").read()
    import re
    for k, part in ("code", data[data.index("Codes =="):data.index("Classes ==")]), ("class", data[data.index("Classes =="):]):
        vecs += [dict(kind="const", name=n, subject=k) for n in re.findall(r'n \|-> "(\w+)"', part)]
    for _ in range(3):  # the driver varies numbers and wrapping by vector
        vecs += [dict(m) for m in more]
    judge(run, "errs", "ErrsTrace", c, vecs)


def c19(run):
    q = not run.thorough
    c = dict(MaxEdits=1 if q else 2, Chars=set("AIZaz 1(_") if q else set("AEINTXYZez 1"), Emit=True)
    vecs = run.tlc("DataTypes", c, view="View", invs=["Out"], workers=1 if q else core.CPUS)[1]
    run.cov["names_looked_up"] = len(vecs)
    vecs = core.sample(vecs, 40000 if q else 400000, run.seed)
    vecs += run.tlc("DataTypes", c, spec="VSpec", invs=["VOut"])[1]
    judge(run, "datatypes", "DataTypesTrace", c, vecs)


def c18(run):
    q = not run.thorough
    exh = dict(MaxOps=2, Dbs={"s1", "s2"}, Tabs={"s1", "s3"}, Cols={"a"}, Types={"INT"}, MaxSchemas=1, MaxCols=1, Emit=True)
    vecs = run.tlc("InfoSchema", exh, spec="ESpec", invs=["ReadsBack"])[1]
    run.cov["histories_enumerated"] = len(vecs)
    vecs = core.sample(vecs, 6000 if q else 60000, run.seed)
    rnd = dict(exh, MaxOps=24, Dbs={f"s{i}" for i in range(1, 7)}, Tabs={f"s{i}" for i in range(4, 12)}, Cols=set("abcdef"), MaxSchemas=4, MaxCols=6,
               Types={"INT", "TEXT", "VARCHAR", "DOUBLE", "BOOLEAN", "BIGINT", "DOUBLE PRECISION", "TIMESTAMP", "LONGBLOB", "SMALLSERIAL", "CHAR", "CHARACTER", "NAME", "YEAR", "FLOAT", "REAL"})
    vecs += simulate(run, "InfoSchema", rnd, 3000 if q else 40000, 40, invs=["ReadsBack"])
    judge(run, "infoschema", "InfoSchemaTrace", exh, vecs)


SCALAR = ["ABS", "FLOOR", "CEIL", "ROUND", "SQRT", "LOG", "LOG10", "EXP", "POWER", "MOD", "SIN", "COS", "TAN", "RAND", "PI",
          "UPPER", "LOWER", "TRIM", "NOW", "CURRENT_TIMESTAMP", "+", "-", "*", "/", "%"]
MUTS = {"same", "args", "open", "close", "suffix", "digit", "prefix", "twice", "cut", "tail"}
IDENTS = {"exp+", "logexp", "explog", "sin+", "cos+", "tan", "pyth", "log10", "ten", "sqrt", "power", "sinpi", "cospi", "tanpi", "exp1", "pi", "div"}
HOWS = {"row", "arr", "one", "nil", "map", "func"}


def rationals(run, n, big, dens, tenth=False):
    """Numbers p/q: corner cases and random ones; but for 1/10 they are binary fractions."""
    import random
    r = random.Random(run.seed)
    s = {(0, 1), (1, 1), (-1, 1), (1, 2), (-1, 2), (3, 2), (-3, 2), (5, 2), (-5, 2), (4, 1), (9, 4), (10, 1), (100, 1), (1000, 1), (1, 10), (-7, 4), (2, 1), (3, 1)}
    while len(s) < n:
        s.add((r.randint(-big, big), r.choice(dens)))
    s = {(p, q) for p, q in s if abs(p) <= big * q and (q != 10 or tenth)}
    return Raw("{" + ", ".join(f"<<{p}, {q}>>" for p, q in sorted(s)) + "}")


def c12(run):
    q = not run.thorough
    base = dict(MaxOps=1, Names=set(SCALAR + ["SUM", "AVG", "MIN", "MAX", "COUNT"]), Mutations={"same"}, Cases={0, 1, 2}, Arities={0, 1, 2, 3},
                Nums=Raw("{<<0, 1>>, <<1, 1>>, <<-3, 2>>, <<9, 4>>, <<10, 1>>}"), Chars={"a", "Z", " ", "1"}, StrLen=3, Hows=HOWS,
                Idents=IDENTS, Emit=True)
    names = dict(base, MaxOps=0, Mutations=MUTS, Arities={1})
    calls = dict(base, Cases={0}, Arities={0, 1, 2}, Hows={"arr", "map"})
    ident = dict(base, Names={"ABS"}, Cases={0}, Arities={1}, Nums=rationals(run, 18 if q else 60, 48, [1, 2, 4], tenth=True))
    rnd = dict(base, MaxOps=8, Nums=rationals(run, 60, 400, [1, 2, 4, 8]), StrLen=8,
               Chars={"a", "A", "z", "Z", "é", "É", "я", "m", "1", "_", " ", "TAB", "NL", "'", "日"})
    vecs = run.tlc("Scalar", names, invs=["Laws"])[1]
    vecs += core.sample(run.tlc("Scalar", calls, invs=["Laws"])[1], 8000 if q else 50000, run.seed)
    vecs += core.sample(run.tlc("Scalar", ident, spec="IdentSpec")[1], 4000 if q else 50000, run.seed)
    vecs += run.tlc("Scalar", rnd, spec="RandomSpec", args=["-simulate", f"num={500 if q else 6000}", "-depth", "14", "-seed", str(run.seed)],
                    invs=["Laws"])[1]
    core.number(vecs)
    vecs = with_known(run, vecs, "scalar")
    obs = run.drive("scalar", vecs)
    run.validate("ScalarTrace", dict(base, Emit=False), obs, vecs, spec="TSpec", post=None)
    for o in core.sample(obs, 5, run.seed):
        run.samples.append({k: v for k, v in o.items() if k != "id"})


CHECKS = {
    "C11": dict(run=c11, mode="aggrset",
                technique="TLA+ product of the aggregator machines (AggrSet over Aggr) with the aggregated SELECT; TLC-generated histories and queries replayed, results judged by TLC (AggrSetTrace)",
                note="TLC checks that the groups of all aggregators of a set stay aligned. Rows which some but not the first aggregator rejects are recorded as a known finding."),
    "C13": dict(run=c13, mode="resultset",
                technique="TLA+ machine of the result set cursor, window, projection and row access (ResultSet); every window of small sets and TLC-generated access histories replayed, judged by TLC (ResultSetTrace)",
                note="A limit of 0 means no limit, as documented by the API. TLC checks the window against its arithmetic definition."),
    "C14": dict(run=c14, mode="schema",
                technique="TLA+ machine of table schemas under column and index changes (Schema); TLC-enumerated and random histories replayed directly and through parsed statements, lists re-read at the end, judged by TLC (SchemaTrace)",
                note="Histories of one to three schemas made from each other's lists; renames are not implemented by the code and not part of the property."),
    "C15": dict(run=c15, mode="typed",
                technique="TLA+ machine of column lists with exact decimal numbers (Typed); TLC-generated histories of schema applications, value changes and copies replayed on parsed columns, judged by TLC (TypedTrace)",
                note="Numbers are digit sequences, so that the bounds of all integer types are exact. Out of scope: truth values of numbers and numbers of truth values, hexadecimal numbers, NULL."),
    "C16": dict(run=c16, mode="registry",
                technique="TLA+ machine of the connection registry (Registry): TLC checks uniqueness and no-change-on-failure, every operation in every reachable small state and long random histories are replayed; concurrent runs (also with the race detector) are judged by a TLA+ linearizability check (RegistryTrace)",
                note="Sequential histories compare the whole visible registry after every operation. Concurrent runs: 2-4 threads, connections of other implementations that yield inside the registry; closing the registry is modelled as one removal per connection."),
    "C17": dict(run=c17, mode="session",
                technique="TLA+ machine of connections (Session): TLC checks once-each and close-once; every operation in every reachable small state and long random histories are replayed with all connections read back after every operation; concurrent runs (also with the race detector) are judged by a TLA+ linearizability check (SessionTrace)",
                note="Up to three connections that start with one and the same schema list; concurrent runs of 3-5 threads on one connection whose underlying connection closes slowly or refuses."),
    "C19": dict(run=c19, mode="datatypes",
                technique="TLA+ table and lookup of data type names (DataTypes), explored by TLC over all letter cases and character edits of every name; all names, all 256 type values, Go values and functions executed and judged by TLC (DataTypesTrace)",
                note="Names are explored up to one (quick) or two (thorough) character edits of a supported name."),
    "C20": dict(run=c20, mode="errs",
                technique="TLA+ table of SQLSTATE codes and of the sentinels of constructors and failing operations (Errs); TLC checks the table and explores all character edits of codes; texts and errors.Is sets of the real code judged by TLC (ErrsTrace)",
                note="The table is PostgreSQL's appendix A. 20 constructors and 29 failing operations with adversarial subjects."),
    "C18": dict(run=c18, mode="infoschema",
                technique="TLA+ machine of information-schema statements and column result sets (InfoSchema); every building, reading back, re-parsing and hand-written equivalent of small names and random histories with adversarial names replayed, judged by TLC (InfoSchemaTrace)",
                note="Statements with one database and/or one table; statements without condition or with several tables are recorded findings."),
    "C12": dict(run=c12, mode="scalar",
                technique="TLA+ definition of name resolution and of every scalar function over rationals and character sequences (Scalar); TLC-generated calls and identities executed with the real functions and judged by TLC (ScalarTrace)",
                note="Values that are not rational (LOG, EXP, SIN, ...) are decided by identities and anchor values up to 1e-9; the driver compares the two sides. "
                     "NULL arguments of string functions and arguments of NOW are out of scope."),
    "C10": dict(run=c10, mode="aggr",
                technique="TLA+ state machine of the aggregators (Aggr), TLC-generated histories of rows, resets and finalizations replayed, results judged by TLC (AggrTrace)",
                note="TLC checks the machine against a declarative definition over the history; numbers are small integers times a power of two, "
                     "so floating-point sums are exact."),
    "C21": dict(run=c21, mode="stack",
                technique="TLA+ state machine of the stack (Stack), TLC-enumerated histories replayed on the real stack, results judged by TLC (StackTrace)",
                note="All histories of the small bounds, random longer ones; TLC checks the machine against a declarative definition of last-in first-out."),
}
