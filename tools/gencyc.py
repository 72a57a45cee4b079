"""Problems on which simplex procedures with other pivoting rules than the smallest index cycle.

tools/cycles.json holds degenerate problems found by random search (each of
them makes at least one of these rules visit a basis twice: largest index or
position instead of smallest index for the variable that enters or leaves).
They are embedded into scenarios for harness/host.cc; scaling, reflection and
shifting of variables and rows do not change the sequence of pivots.
"""
import json
import os
import random
from fractions import Fraction as Fr

import gen

_DATA = []


def data():
    if not _DATA:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "cycles.json")) as f:
            _DATA.extend(json.load(f))
    return _DATA


def gen_cyc(seed, number, over=None):
    rng = random.Random(seed)
    inst = data()[number % len(data())]
    rows = inst["rows"]
    n = len(rows[0])
    plain = number < len(data())
    cols = rng.sample(gen.SYMS, n)
    # x_j = sign * scale * y_j + shift for the variable y_j of the instance
    scale = [Fr(1) if plain or rng.random() < 0.6 else rng.choice([Fr(2), Fr(3), Fr(1, 2), Fr(5)]) for _ in range(n)]
    sign = [1 if plain or rng.random() < 0.7 else -1 for _ in range(n)]
    shift = [Fr(0)] * n
    opt = "bnds" not in inst
    bnds = [[0, 99]] * n + [[0, 99]] * (len(rows) - 1) if opt else inst["bnds"]
    atoms, cons = [], []
    lits = rng.choice([[1], [2], [2, 3], [1, 2]]) if not plain else [1]

    def one(els, rel, rhs, lit):
        atoms.append({"name": ["s", "sum"], "lit": lit,
                      "elems": [{"t": [gen.lin_term(rng, c, gen.sym_term(cols[j]))]} for j, c in els],
                      "guard": [rel, gen.num_term(rng, rhs)]})

    def bound(co, const, lo, hi, lit):
        """lo <= co * x + const <= hi, where co and const are over the columns"""
        f = Fr(1) if plain or rng.random() < 0.6 else rng.choice([Fr(2), Fr(-1), Fr(-1, 2), Fr(3)])
        els = [(j, c * f) for j, c in enumerate(co) if c != 0]
        if not els:
            return
        g = (lambda r: r) if f > 0 else (lambda r: gen.FLIP[r])
        if lo == hi:
            one(els, "=", (lo - const) * f, lit)
            return
        if lo > -99:
            one(els, g(">="), (lo - const) * f, lit)
        if hi < 99:
            one(els, g("<="), (hi - const) * f, lit)

    for j in range(n):
        lo, hi = bnds[j]
        if not plain and rng.random() < 0.3 and (lo > -99 or hi < 99):
            # the start value 0 has to be outside, at the side of the bound
            shift[j] = rng.randint(0, 3) * (1 if lo > -99 else -1) * sign[j]

    def inv(j):
        # y_j = co * x_j + const
        co = 1 / (sign[j] * scale[j])
        return co, -shift[j] * co
    for j in range(n):
        lo, hi = bnds[j]
        c, k = inv(j)
        if lo <= -99 and hi >= 99:
            lo = -1000  # fixes the order of variables
            one([(j, Fr(1))], ">=", Fr(lo), 1)
        else:
            bound([c if i == j else Fr(0) for i in range(n)], k, lo, hi, rng.choice(lits))
    body = rows[:-1] if opt else rows
    for i, r in enumerate(body):
        co = [Fr(r[j]) * inv(j)[0] for j in range(n)]
        k = sum((Fr(r[j]) * inv(j)[1] for j in range(n)), Fr(0))
        bound(co, k, bnds[n + i][0], bnds[n + i][1], rng.choice(lits))
    if opt:
        mini = rng.random() < 0.5
        z = [(j, Fr(rows[-1][j]) * inv(j)[0] * (-1 if mini else 1)) for j in range(n) if rows[-1][j] != 0]
        atoms.append({"name": ["s", "minimize" if mini else "maximize"], "lit": 0,
                      "elems": [{"t": [gen.lin_term(rng, c, gen.sym_term(cols[j]))]} for j, c in z]})
    nv = max(1, len(set(lits) - {1}))
    conf = {"propagate-conflicts": rng.choice(["yes", "no"]), "propagate-bounds": rng.choice(["none", "changed"]),
            "select": "none", "store": rng.choice(["no", "partial", "total"])}
    sc = {"seed": rng.randint(1, 10 ** 9), "strict": 0, "opts": [[k, v] for k, v in conf.items()], "threads": 1,
          "maxev": 60, "hint": 0, "restart": 0, "forget": 0, "single": 0, "chrono": 0, "cpu": 2,
          "steps": [{"nvars": nv, "clauses": [], "atoms": atoms}]}
    me = dict(n=n, cols=[gen.sym_text(c) for c in cols], strict=False, steps=[], glob=False, gstep=(Fr(0), Fr(0)), threads=1,
              select="none", bounds=conf["propagate-bounds"] != "none")
    return sc, me
