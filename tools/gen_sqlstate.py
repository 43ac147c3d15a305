#!/usr/bin/env python3
"""One-off: the table of SQLSTATE codes (PostgreSQL appendix A) as a TLA+ module
and the Go constants by name.  The table was compared with the appendix; the
checks use the committed module, never the source of /repo."""
import re
src = open("/repo/sql/errors/code.go").read()
val = dict(re.findall(r"^\t(\w+)\s+Code = \"(\w+)\"", src, re.M))
txt = dict(re.findall(r"case (\w+):\n\t\treturn \"([^\"]*)\"", src))
src2 = open("/repo/sql/errors/class.go").read()
cval = dict(re.findall(r"^\t(\w+)\s+Class = \"(\w+)\"", src2, re.M))
ctxt = dict(re.findall(r"case (\w+):\n\t\treturn \"([^\"]*)\"", src2))
with open("/verif/spec/SqlStateData.tla", "w") as f:
    f.write("---------------------------- MODULE SqlStateData ----------------------------\n"
            "(* SQLSTATE codes and classes, PostgreSQL appendix A: constant, value and text. *)\n")
    for name, v, t in ("Codes", val, txt), ("Classes", cval, ctxt):
        f.write(f"{name} == <<\n" + ",\n".join(f'  [n |-> "{n}", c |-> "{c}", t |-> "{t[n]}"]' for n, c in v.items()) + "\n>>\n")
    f.write("=" * 77 + "\n")
with open("/verif/harness/sqlstate_gen.go", "w") as f:
    f.write("package main\n\nimport sqlerrors \"github.com/cybergarage/go-sqlparser/sql/errors\"\n\n")
    f.write("var stateCodes = map[string]sqlerrors.Code{\n" + "".join(f'\t"{n}": sqlerrors.{n},\n' for n in val) + "}\n\n")
    f.write("var stateClasses = map[string]sqlerrors.Class{\n" + "".join(f'\t"{n}": sqlerrors.{n},\n' for n in cval) + "}\n")
