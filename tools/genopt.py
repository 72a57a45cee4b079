"""Random configurations, refusals included, followed by something that shows their effect."""
import random
from fractions import Fraction as Fr

import gen

BOOLS = ["yes", "no", "on", "off", "1", "0"]
GOOD = {
    "strict": BOOLS,
    "propagate-conflicts": BOOLS,
    "propagate-bounds": ["none", "changed", "full"],
    "select": ["none", "match", "conflict"],
    "store": ["no", "partial", "total"],
}
STEPS = ["0", "1", "2", "1/2", "3/4", "6/4", "10", "e", "00", "007", "0/5", "100000000000000000000", "1/100000000000000000007"]
NEG = ["-1", "-1/2", "-0", "-3"]
BADSTEPS = ["x", "", "1/0", "0/0", "1/", "/2", "/", "1.5", "--1", "e2", "1e", "1,2", "abc", "1/2/3", "0x10", "ee", "-", "-e",
            "1/x", "local", "global", "1-", "2/00"]
BAD = ["", "x", "2", "true", "false", "yesno", "ye", "onn", "o", "01", "-1", "nono", "ful", "fulll", "change", "match ", " match",
       "conflicts", "partials", "totally", "none,", "global", "local", "part", "10", "yes,no"]
BADOBJ = ["", "glob", "globals", "global1", "global;1", "global e", "locals", "local,1", "global,", "loca", "lo", "1", "e", ",1",
          "local,", "gglobal", "none", "yes", "globale"]
BADKEYS = ["", "Strict", "STRICT", "stric", "stricts", "obj", "objectives", "propagate", "propagate_bounds", "propagate-bound",
           "selects", "storage", "global", "Select", "store ", "-strict", "conflicts", "propagate-conflict", "Objective"]


def mix(rng, v):
    r = rng.random()
    if r < 0.6:
        return v
    if r < 0.75:
        return v.upper()
    return "".join(c.upper() if rng.random() < 0.5 else c for c in v)


def step_of(v):
    """Step of a valid objective value, in lower case."""
    if not v.startswith("global"):
        return False, (Fr(0), Fr(0))
    s = v[7:]
    if s == "e":
        return True, (Fr(0), Fr(1))
    return True, (Fr(s) if s else Fr(0), Fr(0))


def one(rng, bad):
    """A key, a value and whether they are fine."""
    key = rng.choice(list(GOOD) + ["objective", "objective", "objective"])
    if rng.random() < bad:
        r = rng.random()
        if r < 0.15:
            return rng.choice(BADKEYS), rng.choice(["yes", "no", "none", "local", "x", ""]), False
        if key == "objective":
            return key, rng.choice(BADOBJ) if rng.random() < 0.5 else mix(rng, "global,") + rng.choice(BADSTEPS), False
        v = rng.choice(BAD)
        if rng.random() < 0.5:
            # a value of another key
            v = rng.choice(GOOD[rng.choice(list(GOOD))] + ["local", "global"])
        if v.lower() in GOOD[key]:
            v = v + "x"
        return key, mix(rng, v), False
    if key == "objective":
        r = rng.random()
        v = "local" if r < 0.3 else "global" if r < 0.45 else "global," + rng.choice(STEPS if r < 0.9 else NEG)
        return key, mix(rng, v), True
    return key, mix(rng, rng.choice(GOOD[key])), True


def effective(calls):
    """Configuration after the calls (the specification decides; this only steers the generator)."""
    o = {"strict": False, "glob": False, "gstep": (Fr(0), Fr(0)), "select": "none"}
    for k, v, ok in calls:
        if not ok:
            continue
        v = v.lower()
        if k == "strict":
            o["strict"] = v in ("yes", "on", "1")
        elif k == "objective":
            o["glob"], o["gstep"] = step_of(v)
        elif k == "select":
            o["select"] = v
    return o


CLI_FLAGS = {"strict": ("--strict", "--no-strict"), "propagate-conflicts": ("--propagate-conflicts", "--no-propagate-conflicts")}


def cli_args(rng, bad, once=True):
    keys = [k for k in list(GOOD) + ["objective"] if rng.random() < 0.45]
    rng.shuffle(keys)
    args, calls = [], []
    for k in keys:
        if k in CLI_FLAGS:
            on = rng.random() < 0.7
            args.append(CLI_FLAGS[k][0 if on else 1])
            calls.append((k, "yes" if on else "no", True))
            continue
        while True:
            kk, v, ok = one(rng, bad / 2)
            if kk == k and v != "" and " " not in v:
                break
        args.append("--%s=%s" % (k, v))
        calls.append((k, v, ok))
    if once and calls and rng.random() < 0.06:
        # an option given twice is refused, even with the same value
        i = rng.randrange(len(calls))
        k, v, ok = calls[i]
        again = args[i]
        if rng.random() < 0.5:
            again = "--%s=%s" % (k, rng.choice(GOOD.get(k, ["local", "global"]))) if k not in CLI_FLAGS else rng.choice(CLI_FLAGS[k])
        v = again.split("=", 1)[1] if k not in CLI_FLAGS else "no" if again.startswith("--no-") else "yes"
        j = rng.randint(0, len(args))
        args.insert(j, again)
        calls.insert(j, (k, v, ok))
    if rng.random() < 0.05:
        args.append("--" + rng.choice(["stricts", "selection=none", "storage=no", "bounds=full"]))
        calls.append((args[-1][2:].split("=")[0], "no", False))
    return args, calls


def simple(rng, lit, cols, j, rel=None, lo=1, hi=6, sign=None):
    """w*x rel b for a single variable, with x away from zero on the side of sign; also the bound on x."""
    w = Fr(rng.choice([1, 1, 2, 3, Fr(1, 2)])) * rng.choice([1, -1])
    sign = sign or rng.choice([1, -1])
    b = Fr(rng.randint(lo, hi)) * sign                       # x >= b (sign > 0) or x <= b
    r = ">=" if sign > 0 else "<="
    if w < 0:
        r = gen.FLIP[r]
    if rel == "=":
        r = "="
    return ({"name": ["s", "sum"], "lit": lit, "elems": [{"t": [gen.lin_term(rng, w, gen.sym_term(cols[j]))]}],
             "guard": [r, gen.num_term(rng, w * b)]}, b, sign)


def row(rng, lit, cols, co, rel, rhs):
    els = [{"t": [gen.lin_term(rng, c, gen.sym_term(cols[j]))]} for j, c in co]
    rng.shuffle(els)
    return {"name": ["s", "sum"], "lit": lit, "elems": els, "guard": [rel, gen.num_term(rng, rhs)]}


def probe(rng, kind):
    cols = rng.sample(gen.SYMS, 2)
    if kind == "conf":
        m = rng.randint(2, 4)
        atoms = []
        for i in range(m):
            a, _, _ = simple(rng, (i + 2) * rng.choice([1, 1, -1]), cols, rng.choice([0, 0, 1]), rng.choice(["=", None, None, None]))
            atoms.append(a)
        rng.shuffle(atoms)
        return cols, {"nvars": m, "clauses": [], "atoms": atoms}
    if kind == "bounds":
        # x and y bounded away from or at zero, and a row they contradict
        lo = 1 if rng.random() < 0.5 else 0
        a, bx, sx = simple(rng, 2, cols, 0, lo=lo)
        b, by, sy = simple(rng, 3, cols, 1, lo=lo)
        p, q = Fr(rng.choice([1, 1, 2])) * sx, Fr(rng.choice([1, 1, 3])) * sy
        # p*x + q*y >= p*bx + q*by
        f = rng.choice([1, -1])
        atoms = [a, b, row(rng, 4, cols, [(0, p * f), (1, q * f)], "<=" if f > 0 else ">=", (p * bx + q * by - rng.randint(1, 4)) * f)]
        rng.shuffle(atoms)
        return cols, {"nvars": 3, "clauses": [], "atoms": atoms, "tape": [2, 3] if rng.random() < 0.5 else [3, 2]}
    if kind == "store":
        a, _, _ = simple(rng, 2, cols, 0)
        tape = [2] + ([["check"]] if rng.random() < 0.5 else []) + [["pop", 0]]
        return cols[:1], {"nvars": 1, "clauses": [], "atoms": [a], "tape": tape}
    if kind == "select":
        m = rng.randint(2, 4)
        atoms = [simple(rng, (i + 2) * rng.choice([1, -1]), cols, rng.choice([0, 1]), lo=0)[0] for i in range(m)]
        tape = []
        for l in rng.sample(range(2, m + 2), m):
            tape.append(["dec", l * rng.choice([1, -1])])
        tape.append(rng.choice([1, -1]) * rng.randint(2, m + 1))
        for l in rng.sample(range(2, m + 2), m):
            tape.append(["dec", l * rng.choice([1, -1])])
        return cols, {"nvars": m, "clauses": [], "atoms": atoms, "tape": tape}
    return cols, {"nvars": 1, "clauses": [], "atoms": [], "tape": []}


def gen_opt(seed, over=None):
    rng = random.Random(seed)
    w = dict(bad=0.3, cli=0.35, walk=0.4)
    w.update(over or {})
    cli = rng.random() < w["cli"]
    bad = w["bad"]
    if cli:
        args, calls = cli_args(rng, bad)
    else:
        calls = [one(rng, bad) for _ in range(rng.randint(0, 8))]
        if rng.random() < 0.15:
            # nothing may be left over from what is replaced
            calls += [("objective", "global," + rng.choice(STEPS), True), ("objective", rng.choice(["local", "global"]), True)]
    o = effective(calls)
    if o["glob"] and o["gstep"][1] != 0 and not o["strict"] and not cli and rng.random() < 0.6:
        calls.append(("strict", "yes", True))
        o = effective(calls)
    meaning = dict(threads=1, strict=False, bounds=False, select="none", glob=False, gstep=(Fr(0), Fr(0)))
    if rng.random() < w["walk"] and o["gstep"][0] >= 0:
        # (strict relations are not part of the theory otherwise)
        strict = o["strict"]
        while True:
            sc, me = gen.gen_host(rng.random(), dict(strict=1.0 if strict else 0.0, obj=0.8 if o["glob"] else 0.4, n=(1, 3), nv=(2, 4)))
            if gen.obj_ok(me):
                break
        meaning["cols"] = me["cols"]
    else:
        kind = rng.choice(["conf", "bounds", "bounds", "store", "select"])
        cols, st = probe(rng, kind)
        sc = {"seed": rng.randint(1, 10 ** 9), "threads": 1, "maxev": 60, "hint": 0, "restart": 0, "forget": 0, "single": 0,
              "chrono": 0, "steps": [st]}
        meaning["cols"] = [gen.sym_text(c) for c in cols]
        meaning["probe"] = kind
    sc["strict"] = 0
    sc.pop("opts", None)
    if cli:
        sc["cli"] = args
        meaning["args"] = [[k, v] for k, v, _ in calls]
    else:
        sc["optlog"] = 1
        sc["opts"] = [[k, v] for k, v, _ in calls]
    return {"sc": sc, "me": dict(meaning, gstep=[[0, 1], [0, 1]])}
