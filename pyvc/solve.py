"""Discharging obligations."""
import time
import z3
from .model import *
from .theory import heap_defs


def split(goal):
    if z3.is_and(goal):
        out = []
        for g in goal.children():
            out += split(g)
        return out
    return [goal]


# (solver, random seed, extensional arrays): the first that proves the goal
CONFIGS = [(z3.SimpleSolver, 7, False), (z3.Solver, 7, True), (z3.SimpleSolver, 3, True),
           (z3.SimpleSolver, 11, False), (z3.SimpleSolver, 29, False), (z3.Solver, 5, False)]


def try_prove(axioms, hyps, goal, timeout, all_=True):
    for k in CONFIGS if all_ else CONFIGS[:1]:
        r, s = try_prove1(axioms, hyps, goal, timeout, k)
        if r != z3.unknown:
            break
    return r, s


def try_prove1(axioms, hyps, goal, timeout, config):
    s = config[0]()
    s.set("auto_config", False)
    s.set("smt.mbqi", False)
    s.set("smt.random_seed", config[1])
    s.set("smt.array.extensional", config[2])
    limit(s, timeout)
    goal, more = prep_goal(goal, hyps)
    hyps = list(hyps) + more
    ng = z3.Not(goal)
    for a in axioms:
        s.add(a)
    for h in hyps:
        s.add(h)
    for d in heap_defs(list(hyps) + [goal]):
        s.add(d)
    s.add(ng)
    return s.check(), s


class Lemma(object):
    """a named fact: axioms + hyps |= goal"""

    def __init__(self, name, cases, axioms=None):
        self.name, self.cases, self.axioms = name, cases, axioms


def prove_lemma(world, l, timeout):
    from .engine import Obl
    out = []
    base = l.axioms if l.axioms is not None else world.lemma_axioms
    for lab, hyps, goal in l.cases:
        o = Obl("lemma %s: %s" % (l.name, lab), hyps, goal)
        prove_obl(base, o, timeout)
        out.append(o)
    # the hypotheses must not be contradictory
    for lab, hyps, goal in l.cases:
        r, _ = try_prove(base, hyps, z3.BoolVal(False), 2000, False)
        if r == z3.unsat:
            o = Obl("lemma %s: %s: hypotheses are consistent" % (l.name, lab), [], None)
            o.status, o.backend, o.reason, o.goal = "FAILED", "z3", "vacuous", "False"
            out.append(o)
    return out


def prove_obl(axioms, o, timeout):
    t0 = time.time()
    ok = True
    o.failed_part, o.reason = None, None
    for g in split(o.goal):
        gs = z3.simplify(g) if not z3.is_quantifier(g) else g
        if z3.is_true(gs):
            continue
        r, s = try_prove(axioms, o.hyps, g, timeout)
        if r != z3.unsat:
            ok = False
            o.failed_part = g
            o.reason = "unknown: " + str(s.reason_unknown()) if r == z3.unknown else "sat"
            break
    o.time = time.time() - t0
    o.status = "proved" if ok else "FAILED"
    o.backend = "z3"
    return ok


def discharge(world, res, timeout=8000, which=None):
    for o in res.obls:
        prove_obl(res.eng.axioms, o, timeout)
    return res.obls
