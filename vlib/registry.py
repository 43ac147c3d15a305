"""All checks, by property."""
from . import sqlprops

SQLT = "TLA+ specification of the dialect (SqlSyntax/SqlGen), TLC-generated derivations replayed through the real parser, observations judged by TLC (SqlTrace)"
SQLN = ("TLC proves on every enumerated derivation that text and meaning of the specification agree, and judges every replayed parse "
        "against the meaning. Exhaustive only within the bounds of the derivation machine; leaves (names, literals, layout) are sampled. "
        "Trusts the driver's injective symbol mapping and TLC.")

CHECKS = {}
for _p, _f in sqlprops.CHECKS.items():
    CHECKS[_p] = {"run": _f, "mode": "sql", "technique": SQLT, "note": SQLN}

from . import stateprops  # noqa: E402
CHECKS.update(stateprops.CHECKS)
CHECKS.update(sqlprops.MORE)
