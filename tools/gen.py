"""Random problems: theory atoms in the harness' format together with their meaning."""
import random
from fractions import Fraction as Fr

SYMS = ["x", "y", "z", ("f", "p", [1]), ("f", "p", [2]), ("t", [1, ("s", "a")]), ("s", '"w w"'), "u"]


# for large problems
MORE = [("f", "v", [i]) for i in range(40)]


def pick_syms(rng, n):
    return rng.sample(SYMS if n <= len(SYMS) else SYMS + MORE, n)


def sym_term(s):
    if isinstance(s, str):
        return ["s", s]
    return _j(s)


def _j(t):
    if isinstance(t, int):
        return t
    if t[0] == "s":
        return ["s", t[1]]
    if t[0] == "t":
        return ["t", [_j(a) for a in t[1]]]
    return ["f", t[1], [_j(a) for a in t[2]]]


def sym_text(s):
    if isinstance(s, str):
        return s
    return _t(s)


def _t(t):
    if isinstance(t, int):
        return str(t)
    if t[0] == "s":
        return t[1]
    if t[0] == "t":
        return "(" + ",".join(_t(a) for a in t[1]) + ("," if len(t[1]) == 1 else "") + ")"
    return t[1] + "(" + ",".join(_t(a) for a in t[2]) + ")"


def num_term(rng, w):
    """A theory term for the rational w."""
    w = Fr(w)
    if w.denominator != 1:
        # decimal string if exact
        d = w.denominator
        k = 0
        while d % 10 == 0:
            d //= 10
            k += 1
        if 10 ** 6 % w.denominator == 0 and rng.random() < 0.5:
            neg = w < 0
            a = abs(w)
            digits = str(int(a * 10 ** 6)).rjust(7, "0")
            t = ["s", '"%s.%s"' % (digits[:-6], digits[-6:].rstrip("0") or "0")]
            return ["f", "-", [t]] if neg else t
        return ["f", "/", [num_term(rng, w.numerator), num_term(rng, w.denominator)]]
    n = w.numerator
    if abs(n) > 2 ** 31 - 1:
        t = ["s", '"%d"' % abs(n)]
        return ["f", "-", [t]] if n < 0 else t
    if n < 0 and rng.random() < 0.5:
        return ["f", "-", [-n]]
    return n


def lin_term(rng, w, var):
    """A theory term for w*var (w if var is None)."""
    w = Fr(w)
    if var is None:
        return num_term(rng, w)
    if w == 1:
        return var
    if w == -1 and rng.random() < 0.7:
        return ["f", "-", [var]]
    if w.numerator == 1 and w.denominator > 1 and rng.random() < 0.5:
        return ["f", "/", [var, num_term(rng, w.denominator)]]
    return ["f", "*", [num_term(rng, w), var] if rng.random() < 0.7 else [var, num_term(rng, w)]]


def sum_term(rng, parts):
    """A theory term for a sum of terms."""
    if not parts:
        return 0
    t = parts[0]
    for p in parts[1:]:
        t = ["f", "+", [t, p]]
    return t


def rat(w):
    w = Fr(w)
    def i(n):
        return n if abs(n) < 2 ** 31 - 1 else str(n)
    return [i(w.numerator), i(w.denominator)]


class Problem:
    """Accumulates atoms and their meaning for one step."""

    def __init__(self):
        self.atoms = []
        self.cons = []
        self.obj = []
        self.vars = set()
        self.maybe = set()


DEFAULT = dict(n=(1, 4), ncons=(1, 6), nv=(2, 5), nclauses=(0, 2), cond=0.25, guardvar=0.15, dom=0.15, diff=0.15,
               fact=0.15, rational=0.15, big=0.0, strict=0.25, obj=0.35, glob=0.4, steps=(1, 1), threads=(1, 1),
               eqrel=0.25, neglit=0.2, sharelit=0.2, degenerate=0.2, maxev=350,
               assume=0.2)


def pick_coef(rng, w):
    r = rng.random()
    if r < w["big"]:
        v = Fr(rng.choice([2 ** 31 - 1, 2 ** 31, 2 ** 62, 2 ** 62 - 1, 2 ** 63, 2 ** 64, 10 ** 20, 10 ** 9 + 7, 3 ** 60,
                           2 ** 61 + 1]) + rng.randint(-1, 1))
        if rng.random() < 0.3:
            v = v / rng.choice([3, 7, 10 ** 15 + 37, 2 ** 62 + 1, 2 ** 63 - 25])
        if rng.random() < 0.1:
            v = 1 / v
    elif rng.random() < w["rational"]:
        v = Fr(rng.randint(1, 5), rng.choice([2, 3, 4, 5, 8]))
    else:
        v = Fr(rng.choice([1, 1, 1, 1, 2, 2, 3, 5]))
    return -v if rng.random() < 0.4 else v


def pick_rhs(rng, w):
    r = rng.random()
    if r < w["big"]:
        return pick_coef(rng, w) * rng.choice([1, 2])
    if rng.random() < w["degenerate"]:
        return Fr(0)
    if rng.random() < w["rational"]:
        return Fr(rng.randint(-9, 9), rng.choice([2, 3, 4]))
    return Fr(rng.randint(-6, 6))


FLIP = {"<=": ">=", ">=": "<=", "<": ">", ">": "<", "=": "="}


def combine(els):
    d = {}
    for c, j, w in els:
        d[(c, j)] = d.get((c, j), Fr(0)) + w
    return d


def add_constraint(rng, w, pb, cols, lit, nv, strict, base_cols, conds=None):
    """One random constraint with literal lit over the columns in base_cols."""
    kind = rng.random()
    if kind < w["dom"]:
        j = rng.choice(base_cols)
        lo = pick_rhs(rng, w)
        hi = lo + rng.choice([0, 1, 2, 5, -1]) if rng.random() < 0.9 else pick_rhs(rng, w)
        pb.atoms.append({"name": ["s", "dom"], "lit": lit,
                         "elems": [{"t": [["f", "..", [num_term(rng, lo), num_term(rng, hi)]]]}],
                         "guard": ["=", sym_term(cols[j])]})
        pb.cons.append(dict(l=lit, e=[(1, j + 1, Fr(1))], r="<=", b=hi))
        pb.cons.append(dict(l=lit, e=[(1, j + 1, Fr(1))], r=">=", b=lo))
        pb.vars.add(j + 1)
        return
    rels = ["<=", ">="] + (["<", ">"] if strict else [])
    rel = "=" if rng.random() < w["eqrel"] else rng.choice(rels)
    if kind < w["dom"] + w["diff"] and len(base_cols) > 1:
        a, b = rng.sample(base_cols, 2)
        k = pick_rhs(rng, w)
        pb.atoms.append({"name": ["s", "diff"], "lit": lit,
                         "elems": [{"t": [["f", "-", [sym_term(cols[a]), sym_term(cols[b])]]]}],
                         "guard": [rel, num_term(rng, k)]})
        pb.cons.append(dict(l=lit, e=[(1, a + 1, Fr(1)), (1, b + 1, Fr(-1))], r=rel, b=k))
        pb.vars |= {a + 1, b + 1}
        return
    m = rng.randint(1, min(len(base_cols) + 1, 4))
    els = []
    elems = []
    used = set()
    for _ in range(m):
        c = 1
        if rng.random() < w["cond"]:
            c = rng.choice(conds) if conds else rng.choice([1, -1]) * rng.randint(2, nv + 1)
        j = rng.choice(base_cols) if rng.random() < 0.93 else None
        co = pick_coef(rng, w)
        els.append((c, 0 if j is None else j + 1, co))
        e = {"t": [lin_term(rng, co, None if j is None else sym_term(cols[j]))]}
        if c != 1:
            e["c"] = c
        elems.append(e)
    k = pick_rhs(rng, w)
    gparts = []
    if rng.random() < w["guardvar"]:
        j = rng.choice(base_cols)
        co = pick_coef(rng, w)
        gparts.append(lin_term(rng, co, sym_term(cols[j])))
        els.append((1, j + 1, -co))
    if k != 0 or not gparts:
        gparts.append(num_term(rng, k))
    rng.shuffle(gparts)
    pb.atoms.append({"name": ["s", "sum"], "lit": lit, "elems": elems, "guard": [rel, sum_term(rng, gparts)]})
    pb.cons.append(dict(l=lit, e=els, r=rel, b=k))
    note_vars(pb, els)


def note_vars(pb, els):
    """Columns with a value: those whose coefficient survives; cancelled ones may have one."""
    for (c, j), v in combine(els).items():
        if j > 0:
            if v != 0:
                pb.vars.add(j)
            else:
                pb.maybe.add(j)
    for c, j, v in els:
        if j > 0 and c != 1:
            # a conditional element introduces its variable even if it cancels
            pb.vars.discard(j) if False else pb.maybe.add(j)


def gen_host(seed, over=None, opts=None):
    """A scenario for harness/host.cc and its meaning."""
    rng = random.Random(seed)
    w = dict(DEFAULT)
    w.update(over or {})
    n = rng.randint(*w["n"])
    cols = pick_syms(rng, n)
    strict = rng.random() < w["strict"]
    has_obj = rng.random() < w["obj"]
    glob = has_obj and rng.random() < w["glob"]
    o = opts or {}
    conf = {
        "propagate-conflicts": o.get("conflicts", rng.choice(["yes", "no"])),
        "propagate-bounds": o.get("bounds", rng.choice(["none", "changed", "full"])),
        "select": o.get("select", rng.choice(["none", "match", "conflict"])),
        "store": o.get("store", rng.choice(["no", "partial", "total"])),
    }
    gstep = (Fr(0), Fr(0))
    if glob:
        st = rng.choice(["", "", ",1", ",1/2", ",3"] + ([",e", ",e"] if strict else []))
        conf["objective"] = "global" + st
        gstep = {"": (0, 0), ",1": (1, 0), ",1/2": (Fr(1, 2), 0), ",3": (3, 0), ",e": (0, 1)}[st]
    elif rng.random() < 0.5:
        conf["objective"] = "local"
    steps = []
    mean = []
    nsteps = rng.randint(*w["steps"])
    nv = 0
    avail = []
    for k in range(nsteps):
        pb = Problem()
        nv += rng.randint(*w["nv"]) if k == 0 else rng.randint(0, 2)
        if k == 0:
            avail = list(range(max(1, n - rng.randint(0, nsteps - 1))))
        else:
            avail = list(range(min(n, len(avail) + rng.randint(0, 1))))
        if k == nsteps - 1:
            avail = list(range(n))
        m = rng.randint(*w["ncons"])
        lits = []
        for _ in range(m):
            r = rng.random()
            if r < w["fact"]:
                lit = 1
            elif lits and r < w["fact"] + w["sharelit"]:
                lit = rng.choice(lits)
            else:
                lit = rng.randint(2, nv + 1)
                if rng.random() < w["neglit"]:
                    lit = -lit
            if w.get("cover") and len(lits) < nv:
                lit = 2 + len(lits)  # every literal asserts something
            lits.append(lit)
            add_constraint(rng, w, pb, cols, lit, nv, strict, avail)
        clauses = []
        for _ in range(rng.randint(*w["nclauses"])):
            clauses.append([rng.choice([1, -1]) * v for v in rng.sample(range(2, nv + 2), min(nv, rng.randint(1, 3)))])
        if has_obj and (k == 0 or rng.random() < 0.4):
            els = []
            elems = []
            mini = rng.random() < 0.5
            for j in rng.sample(avail, rng.randint(1, min(3, len(avail)))):
                co = pick_coef(rng, w)
                c = 1
                if rng.random() < w["cond"]:
                    c = rng.choice([1, -1]) * rng.randint(2, nv + 1)
                elems.append(dict({"t": [lin_term(rng, co, sym_term(cols[j]))]}, **({"c": c} if c != 1 else {})))
                els.append((c, j + 1, -co if mini else co))
            pb.atoms.insert(rng.randint(0, len(pb.atoms)),
                            {"name": ["s", "minimize" if mini else "maximize"], "lit": 0, "elems": elems})
            pb.obj = els
            note_vars(pb, els)
        steps.append({"nvars": nv, "clauses": clauses, "atoms": pb.atoms})
        if rng.random() < w["assume"]:
            steps[-1]["assume"] = [rng.choice([1, -1]) * v for v in rng.sample(range(2, nv + 2), min(nv, rng.randint(1, 2)))]
        mean.append(dict(cons=pb.cons, obj=pb.obj, vars=pb.vars, maybe=pb.maybe, clauses=clauses, nv=nv + 1))
    # objective parts of different steps may cancel; keep such cases out
    sc = {"seed": rng.randint(1, 10 ** 9), "strict": 1 if strict else 0, "opts": [[k, v] for k, v in conf.items()],
          "threads": rng.randint(*w["threads"]), "maxev": w["maxev"], "hint": 0,
          "restart": rng.choice([0, 5, 20]), "forget": rng.choice([0, 50]), "single": rng.choice([0, 0, 40]),
          "chrono": rng.choice([0, 0, 30]), "steps": steps}
    if rng.random() < 0.2:
        sc["maxmodels"] = rng.randint(1, 3)
    if sc["threads"] > 1 and w.get("split"):
        sc["split"] = rng.choice(w["split"])     # time between the last check and the report of a model
    if w.get("conc"):
        sc["conc"] = 1                           # threads run at the same time
        sc.pop("maxmodels", None)
    rng.shuffle(sc["opts"])
    meaning = dict(n=n, cols=[sym_text(c) for c in cols], strict=strict, steps=mean, glob=glob, gstep=gstep,
                   threads=sc["threads"], select=conf["select"], bounds=conf["propagate-bounds"] != "none")
    return sc, meaning


def obj_ok(meaning):
    """The accumulated objective of every step is a proper expression (or absent)."""
    els = []
    for st in meaning["steps"]:
        els = els + st["obj"]
        if els and all(v == 0 for v in combine(els).values()):
            return False
    return True
