"""Seam below static verification: the SMT solver.

The real solver answers each query with a time limit, so whether a hard query
is answered depends on how fast the machine is, and which model it picks is up
to it.  Here the wall-clock limit becomes a limit on the solver's own,
deterministic resource count, and the plan decides which queries time out and
which (well-sorted) values come back."""

import random
from fractions import Fraction

RESOURCES = 2000


def install(plan):
    """plan: {"unknown": [query numbers] or "all", "p": probability, "values":
    "real"|"random"|"none"|"partial", "seed": n}.  Returns the query log."""
    from pyvcg import smt
    from pyvcg.driver import cvc5_api
    cls = cvc5_api.CVC5_Solver
    log = []
    rng = random.Random(plan.get("seed", 0))
    real_solve, real_option = cls.solve, cls.set_solver_option

    def value(sort, depth=0):
        if isinstance(sort, smt.Enumeration):
            return rng.choice(list(sort.literals))
        if isinstance(sort, smt.Record):
            return {n: value(s, depth + 1) for n, s in sort.components.items()}
        if sort.name == "Bool":
            return rng.random() < 0.6
        if sort.name == "Int":
            return rng.choice([0, 1, -1, 7, -5, 10 ** 30, rng.randrange(1000)])
        if sort.name == "Real":
            return rng.choice([None, Fraction(0), Fraction(1, 3), Fraction(-7, 20), Fraction(5, 1), Fraction(1, 1024),
                               Fraction(-1, 3)])
        if sort.name == "String":
            return rng.choice(["", "potato", "a\nb", "\\u{9}", "x" * 50])
        if sort.name == "Seq":
            return [value(sort.element_sort(), depth + 1) for _ in range(rng.choice([0, 1, 3]))]
        raise AssertionError(sort)

    def set_solver_option(self, name, val):
        if name in ("tlimit-per", "tlimit"):
            real_option(self, "rlimit-per", RESOURCES)
        else:
            real_option(self, name, val)

    def solve(self):
        number = len(log)
        real_solve(self)
        status = self.result
        want = plan.get("unknown")
        force = want == "all" or (isinstance(want, list) and number in want) or rng.random() < plan.get("p", 0.0)
        if force:
            self.result = "unknown"
        if self.result != "unsat":
            kind = plan.get("values", "real")
            if kind == "mixed":
                kind = rng.choice(["real", "random", "none", "partial"])
            if self.result == "sat" and kind in ("none", "partial"):
                kind = "random"
            if kind == "real" and not self.values:
                kind = "random"
            if kind == "none":
                self.values = {}
            elif kind in ("random", "partial"):
                self.values = {c.name: value(c.sort) for c in self.relevant_values
                               if kind == "random" or rng.random() < 0.5}
        else:
            self.values = {}
        log.append([status, self.result])
    cls.set_solver_option, cls.solve = set_solver_option, solve
    return log
