"""Which analysis decides which property."""
from . import check

EXPLAIN = {}
ASSUME = {}
ASSUME_DEFAULT = [
    "numpy, scipy and the standard library behave as in their documentation (library models in pda/npmodel.py, pda/npfuncs.py)",
    "real arithmetic: rounding is not modelled",
    "the analyser itself (pda/) is correct; obligations it cannot decide are counted as undecided and never reported as violations",
]
VALUE = "C04 C05 C06".split()
RULES = {}


def _rule(mod, fn):
    def go(project, tier):
        import importlib
        return getattr(importlib.import_module("pda.rules." + mod), fn)(project, tier)
    return go


RULES["C01"] = _rule("state", "c01")
RULES["C02"] = _rule("state", "c02")
RULES["C03"] = _rule("state", "c03")
RULES["C22"] = _rule("resolve", "c22")
RULES["C21"] = _rule("pools", "c21")
RULES["C20"] = _rule("loops", "c20")
RULES["C16"] = _rule("wrappers", "c16")


def run(prop, project, tier):
    if prop in RULES:
        return RULES[prop](project, tier)
    return check.run_cases(project, prop, tier)
