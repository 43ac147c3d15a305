#!/usr/bin/env python3
"""Transcribe the dialect's grammar (SQLiteParser.g4) to TLA+ data, once: spec/SqlGrammarData.tla is committed
and pinned, so that a later change of the grammar or of the generated parser is judged against it.
The left-recursive rule expr is turned into prefix* primary suffix*, which has the same language."""
import re, sys

src = open(sys.argv[1] if len(sys.argv) > 1 else "/repo/sql/parser/sqlite/antlr/SQLiteParser.g4").read()
lex = open(sys.argv[2] if len(sys.argv) > 2 else "/repo/sql/parser/sqlite/antlr/SQLiteLexer.g4").read()
src = re.sub(r"/\*.*?\*/", "", src, flags=re.S)
src = re.sub(r"//.*", "", src)
terms = {}
for m in re.finditer(r"^([A-Z0-9_]+):\s*'((?:[^'\\]|\\.)+)';", lex, re.M):
    terms[m.group(1)] = m.group(2)
CLASS = {"IDENTIFIER": "IDENT", "NUMERIC_LITERAL": "NUM", "STRING_LITERAL": "STR", "BLOB_LITERAL": "BLOB", "BIND_PARAMETER": "BIND",
         "SYSTEM_VARIABLE": "SYSVAR", "USER_VARIABLE": "USERVAR", "EOF": "EOF", "UNEXPECTED_CHAR": "BAD"}


def term(n):
    return CLASS.get(n) or terms[n]


rules = {}
body = src[src.index("parse:"):] if "parse:" in src else src[re.search(r"\bparse\b", src).start():]
for m in re.finditer(r"([a-z_A-Z]+)\s*:((?:[^;'\"]|'[^']*')*);", body):
    rules[m.group(1)] = m.group(2)

tok_re = re.compile(r"\s+|([A-Za-z_0-9]+\s*\+?=(?!=))|([A-Za-z_0-9]+)|([()|?*+])")


def parse(text):
    toks = []
    i = 0
    while i < len(text):
        m = tok_re.match(text, i)
        assert m, text[i:i + 40]
        i = m.end()
        if m.group(2) or m.group(3):
            toks.append(m.group(2) or m.group(3))
    pos = 0

    def alt():
        nonlocal pos
        l = [seq()]
        while pos < len(toks) and toks[pos] == "|":
            pos += 1
            l.append(seq())
        return l[0] if len(l) == 1 else ("a", l)

    def seq():
        nonlocal pos
        l = []
        while pos < len(toks) and toks[pos] not in "|)":
            if toks[pos] == "(":
                pos += 1
                n = alt()
                assert toks[pos] == ")"
                pos += 1
            else:
                t = toks[pos]
                pos += 1
                n = ("t", term(t)) if t.isupper() or t[0].isupper() else ("n", t)
            while pos < len(toks) and toks[pos] in "?*+":
                q = toks[pos]
                pos += 1
                if q == "?" and n[0] in "*+" and len(n) == 2 and n[0] != "n":
                    continue  # non-greedy
                n = ({"?": "o", "*": "*", "+": "+"}[q], n)
            l.append(n)
        return l[0] if len(l) == 1 else ("s", l)
    r = alt()
    assert pos == len(toks), (toks, pos)
    return r


# The supported dialect: the statements and constructs which can be represented, with separators between statements.
rules.update({
    "script": "script_list? EOF",
    "script_list": "SCOL* stmt (SCOL+ stmt)* SCOL*",
    "stmt": """alter_database_stmt | alter_table_stmt | begin_stmt | commit_stmt | create_database_stmt | s_create_index | s_create_table
               | s_delete | drop_database_stmt | drop_index_stmt | drop_table_stmt | s_insert | s_rollback | s_select | s_update
               | use_stmt | vacuum_stmt | s_copy | truncate_stmt""",
    "s_rollback": "ROLLBACK_ TRANSACTION_?",
    "s_create_index": """CREATE_ UNIQUE_? INDEX_ (if_not_exists)? (schema_name DOT)? index_name ON_ table_name OPEN_PAR s_indexed (COMMA s_indexed)*
                         CLOSE_PAR (WHERE_ expr)?""",
    "s_indexed": "column_name (COLLATE_ collation_name)? asc_desc?",
    "s_create_table": """CREATE_ (TEMP_ | TEMPORARY_)? TABLE_ (if_not_exists)? (schema_name DOT)? table_name
                         OPEN_PAR column_def (COMMA column_def)* (COMMA s_table_constraint)* CLOSE_PAR (table_options | mysql_table_options)?""",
    "s_table_constraint": """(CONSTRAINT_ name)? (PRIMARY_ KEY_ OPEN_PAR s_indexed (COMMA s_indexed)* CLOSE_PAR conflict_clause?
        | unique_key_def | CHECK_ OPEN_PAR expr CLOSE_PAR
        | FOREIGN_ KEY_ OPEN_PAR column_name (COMMA column_name)* CLOSE_PAR foreign_key_clause)""",
    "condition": "comparison_expr | and_expr | or_expr",
    "s_table": "(schema_name DOT)? table_name",
    "s_delete": "DELETE_ FROM_ s_table (WHERE_ condition)?",
    "s_insert": """(INSERT_ | REPLACE_ | INSERT_ OR_ (REPLACE_ | ROLLBACK_ | ABORT_ | FAIL_ | IGNORE_)) INTO_ s_table
                   (OPEN_PAR column_name (COMMA column_name)* CLOSE_PAR VALUES_ s_row (COMMA s_row)* | VALUES_ s_named_row (COMMA s_named_row)*)""",
    "s_row": "OPEN_PAR literal_value (COMMA literal_value)* CLOSE_PAR",
    "s_named_row": "OPEN_PAR s_named (COMMA s_named)* CLOSE_PAR",
    "s_named": "column_name ASSIGN literal_value",
    "s_update": """UPDATE_ (OR_ (ROLLBACK_ | ABORT_ | REPLACE_ | FAIL_ | IGNORE_))? s_table SET_ s_set (COMMA s_set)* (WHERE_ condition)?""",
    "s_set": "column_name ASSIGN (literal_value | column_name (PLUS | MINUS | STAR | DIV | MOD) expr)",
    "s_select": """SELECT_ (DISTINCT_ | ALL_)? s_result (COMMA s_result)* (FROM_ (from_table (COMMA from_table)*)?)? (WHERE_ expr)?
                   (GROUP_ BY_ expr)? order_by_stmt? s_limit?""",
    "s_result": "result_column",
    "s_limit": "LIMIT_ s_count ((OFFSET_ | COMMA) s_count)?",
    "s_count": "signed_number | bind_param",
    "s_copy": "COPY_ s_table copy_column_list? FROM_ source_name WITH_? copy_format?",
})
ast = {k: parse(v) for k, v in rules.items()}
# unreachable rules are dropped below
# --- expr
pre, prim, suf = [], [], []


def operand(n):
    """right operands of an operator are prefix* primary: what follows belongs to the outer suffix*"""
    return ("n", "operand") if n == ("n", "expr") else n


for a in ast["expr"][1]:
    items = a[1] if a[0] == "s" else [a]
    if items[0] == ("n", "expr"):
        rest = items[1:]
        rest = rest[:-1] + [operand(rest[-1])]
        if rest[-1][0] == "o" and rest[-1][1] == ("s", [("t", "ESCAPE"), ("n", "expr")]):
            rest[-1] = ("o", ("s", [("t", "ESCAPE"), ("n", "operand")]))
            # the operand before ESCAPE may be any expression
        suf.append(("s", rest) if len(rest) > 1 else rest[0])
    elif items == [("n", "arithmetic_expr")]:
        ar = ast["arithmetic_expr"][1]
        assert ar[-1] == ("n", "expr")
        pre.append(("s", ar[:-1]))
    elif items[0] == ("n", "unary_operator"):
        pre.append(("n", "unary_operator"))
    else:
        prim.append(a)
ast["primary"] = ("a", prim)
ast["operand"] = ("s", [("*", ("a", pre)), ("n", "primary")])
ast["suffix"] = ("a", suf)
ast["expr"] = ("s", [("n", "operand"), ("*", ("n", "suffix"))])
# names: a keyword usable as a name
kw = [x[1] for x in ast["keyword"][1]]
del ast["keyword"]
names = [k for k, v in ast.items() if v == ("n", "any_name")]


def simp(n):
    k = n[0]
    if k == "t":
        return n
    if k == "n":
        return ("n", "any_name") if n[1] in names else ("t", "KEYWORD") if n[1] == "keyword" else n
    if k in "sa":
        l = [simp(x) for x in n[1]]
        if k == "a":
            u = []
            for x in l:
                if x not in u:
                    u.append(x)
            l = u
        return l[0] if len(l) == 1 else (k, l)
    return (k, simp(n[1]))


ast = {k: simp(v) for k, v in ast.items()}
reach, todo = set(), ["parse", "script"]


def refs(n):
    if n[0] == "n":
        yield n[1]
    elif n[0] in "sa":
        for x in n[1]:
            yield from refs(x)
    elif n[0] != "t":
        yield from refs(n[1])


while todo:
    r = todo.pop()
    if r not in reach:
        reach.add(r)
        todo += refs(ast[r])


INF = 1000


def size(n, h):
    k = n[0]
    if k == "t":
        return 0 if n[1] == "EOF" else 1
    if k == "n":
        return h[n[1]]
    if k == "s":
        return min(INF, sum(size(x, h) for x in n[1]))
    if k == "a":
        return min(size(x, h) for x in n[1])
    return size(n[1], h) if k == "+" else 0


height = {r: INF for r in reach}
for _ in range(40):
    height = {r: size(ast[r], height) for r in reach}
assert max(height.values()) < INF


def tla(n):
    k = n[0]
    if k == "t":
        return f'gT("{n[1]}")'
    if k == "n":
        return f'gN("{n[1]}")'
    if k == "s":
        return "gS(<<" + ", ".join(map(tla, n[1])) + ">>)"
    if k == "a":
        return "gA(<<" + ", ".join(map(tla, n[1])) + ">>)"
    return {"o": "gO", "*": "gZ", "+": "gP"}[k] + "(" + tla(n[1]) + ")"


kws = [v for k, v in terms.items() if re.fullmatch(r"[A-Z_]+", v)]


def setof(l):
    lines, cur = [], "  "
    for x in sorted(set(l)):
        if len(cur) > 110:
            lines.append(cur)
            cur = "  "
        cur += f'"{x}", '
    lines.append(cur.rstrip(", "))
    return "{\n" + "\n".join(lines) + "}"


out = ["--------------------------- MODULE SqlGrammarData ---------------------------",
       "(***************************************************************************)",
       "(* The grammar of the dialect as data, transcribed from SQLiteParser.g4 and *)",
       "(* SQLiteLexer.g4 by tools/gen_grammar.py (pinned; see SqlGrammar.tla).     *)",
       "(***************************************************************************)",
       "gT(v) == [k |-> \"t\", v |-> v]   \\* a token class", "gN(v) == [k |-> \"n\", v |-> v]   \\* a rule",
       "gS(c) == [k |-> \"s\", c |-> c]   \\* all in order", "gA(c) == [k |-> \"a\", c |-> c]   \\* one of",
       "gO(c) == [k |-> \"o\", e |-> c]   \\* optional", "gZ(c) == [k |-> \"z\", e |-> c]   \\* any number of times", "gP(c) == [k |-> \"p\", e |-> c]   \\* at least once",
       "Keywords == " + setof(kws), "NameKeywords == " + setof(kw), "Puncts == " + setof([v for v in terms.values() if not re.fullmatch(r"[A-Z_]+", v)]), "Rules == ["]
rl = sorted(reach)
out.append(",\n".join(f"  {r} |-> {tla(ast[r])}" for r in rl) + "]")
out.append("\\* the smallest number of tokens derived from a rule\nSmallest == [" + ", ".join(f"{r} |-> {height[r]}" for r in rl) + "]")
out.append("=============================================================================")
open(sys.argv[3] if len(sys.argv) > 3 else "/verif/spec/SqlGrammarData.tla", "w").write("\n".join(out) + "\n")
print(len(rl), "rules", len(kws), "keywords")
