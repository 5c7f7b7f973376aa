"""Thorough tier: every entailment that z3 shows is put to cvc5 as well. A disagreement (cvc5: satisfiable) makes the
obligation undecided; an answer that cvc5 does not find in time is counted."""

from . import poly


class Disagreement(Exception):
    pass


def cvc5_answer(text, ms=1500):
    import cvc5

    solver = cvc5.Solver(cvc5.TermManager())
    solver.setLogic("QF_NIA")
    solver.setOption("tlimit-per", str(ms))
    parser = cvc5.InputParser(solver)
    parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "query")
    symbols = parser.getSymbolManager()
    out = ""
    while True:
        c = parser.nextCommand()
        if c.isNull():
            return out
        o = c.invoke(solver, symbols).strip()
        if o in ("sat", "unsat", "unknown"):
            out = o


def cross(solver):
    poly.STATS["cvc5_calls"] += 1
    try:
        r = cvc5_answer(solver.to_smt2())
    except RuntimeError:
        r = "unknown"
    if r == "sat":
        poly.STATS["cvc5_disagree"] += 1
        raise Disagreement("cvc5 finds a model of what z3 finds contradictory")
    if r != "unsat":
        poly.STATS["cvc5_unknown"] += 1


def install():
    poly.CROSS = cross
