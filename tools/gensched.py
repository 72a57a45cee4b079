"""Schedules enumerated by TLC from spec/Sched.tla, combined with random problems."""
import hashlib
import json
import os
import random
import re

import build
import gen
import lpxlib as L

_OP = re.compile(r'^<<"SCHED", (".*")>>$', re.M)


def schedules(module, env):
    """All schedules of a specification; kept next to the other build products."""
    with open(os.path.join(L.SPEC, module + ".tla"), "rb") as f:
        key = hashlib.sha256(f.read() + str(sorted(env.items())).encode()).hexdigest()[:24]
    d = os.path.join(build.VERIF, "build")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "sched.%s.json" % key)
    if not os.path.exists(path):
        rc, out, _, _ = L.tlc(module, None, env=env, workers="1")
        if rc != 0:
            raise L.MachineryError(module + ": " + out[-2000:])
        r = [json.loads(json.loads(x)) for x in _OP.findall(out)]
        if not r:
            raise L.MachineryError(module + ": no schedules")
        tmp = "%s.%d" % (path, os.getpid())
        with open(tmp, "w") as f:
            json.dump(r, f)
        os.replace(tmp, path)
    with open(path) as f:
        return json.load(f)


def gen_sched(seed, ops, lits, over=None, opts=None):
    """A problem over the literals of a schedule."""
    w = dict(n=(1, 3), nv=(lits, lits), nclauses=(0, 0), neglit=0.05, fact=0.03, cond=0.1, glob=0.0, sharelit=0.1,
             ncons=(lits, lits + 2), cover=1)
    w.update(over or {})
    rng = random.Random(seed + "/s")
    k = 0
    while True:
        sc, me = gen.gen_host("%s/%d" % (seed, k), w, opts)
        k += 1
        if gen.obj_ok(me):
            break
    # literals of the schedule: any of the program's, most of them asserted
    perm = list(range(2, lits + 2))
    rng.shuffle(perm)
    sign = [-1 if rng.random() < 0.08 else 1 for _ in perm]
    lit = {i + 1: sign[i] * perm[i] for i in range(lits)}
    sc["steps"][0]["tape"] = [o if o[0] in ("pop", "check") else [o[0]] + [lit[i] for i in o[1:]] for o in ops]
    sc["single"] = 0
    sc.pop("maxmodels", None)
    return sc, me


def remembers(ops):
    """Does a history assign literals on level zero before the last step?"""
    below = True
    for o in ops[:max(i for i, o in enumerate(ops) if o[0] == "step")]:
        if below and o[0] == "same":
            return True
        below = o[0] == "step" or (below and o[0] != "root")
    return False


def gen_steps(seed, ops, lits, over=None, opts=None):
    """A problem in several steps over the literals of a history (spec/Steps.tla)."""
    n = 1 + sum(o[0] == "step" for o in ops)
    w = dict(n=(1, 3), nv=(lits, lits), nclauses=(0, 0), neglit=0.05, fact=0.03, cond=0.1, glob=0.0, obj=0.4, sharelit=0.3,
             ncons=(lits, lits + 2), cover=1, steps=(n, n), assume=0.0)
    w.update(over or {})
    rng = random.Random(seed + "/s")
    k = 0
    while True:
        sc, me = gen.gen_host("%s/%d" % (seed, k), w, opts)
        k += 1
        if gen.obj_ok(me):
            break
    perm = list(range(2, lits + 2))
    rng.shuffle(perm)
    sign = [-1 if rng.random() < 0.08 else 1 for _ in perm]
    lit = {i + 1: sign[i] * perm[i] for i in range(lits)}
    tapes = [[]]
    for o in ops:
        if o[0] == "step":
            tapes.append([])
        else:
            tapes[-1].append([o[0]] + ([lit[i] for i in o[1:]] if o[0] in ("new", "same") else o[1:]))
    if tapes[-1][-1][0] != "check":
        tapes[-1].append(["check"])
    for st, tape in zip(sc["steps"], tapes):
        st["tape"] = tape
    sc["single"] = 0
    sc.pop("maxmodels", None)
    return sc, me


def gen_race(seed, order, threads, over=None):
    """Assignments that are ranked by a global objective, enumerated by several threads.

    Each of the program literals 2..n+1 stands for one assignment; each sets its bounds on the objective."""
    w = dict(n=(3, 4), step=["", "", ",1", ",1/2", ",2"], strict=0.2, unb=0.15, extra=0.4)
    w.update(over or {})
    rng = random.Random(seed)
    n = rng.randint(*w["n"])
    strict = rng.random() < w["strict"]
    cols = rng.sample(gen.SYMS, rng.randint(1, 3))
    pb = gen.Problem()
    mini = rng.random() < 0.5
    els = []
    for j in range(len(cols)):
        els.append((1, j + 1, gen.Fr(rng.choice([1, 1, 2, 3, -1]), rng.choice([1, 1, 2]))))
    pb.atoms.append({"name": ["s", "minimize" if mini else "maximize"], "lit": 0,
                     "elems": [{"t": [gen.lin_term(rng, -co if mini else co, gen.sym_term(cols[j - 1]))]} for _, j, co in els]})
    pb.obj = els
    gen.note_vars(pb, els)

    def bound(lit, es, rel, k):
        pb.atoms.append({"name": ["s", "sum"], "lit": lit,
                         "elems": [{"t": [gen.lin_term(rng, co, gen.sym_term(cols[j - 1]))]} for _, j, co in es],
                         "guard": [rel, gen.num_term(rng, k)]})
        pb.cons.append(dict(l=lit, e=list(es), r=rel, b=k))
        gen.note_vars(pb, es)

    nv = n
    for i in range(n):
        lit = 2 + i
        r = rng.random()
        if r < w["unb"]:
            continue
        # the objective itself is bounded, or each of its variables
        if rng.random() < 0.5:
            bound(lit, els, rng.choice(["<=", "<=", "="] + (["<"] if strict else [])), gen.Fr(rng.randint(-1, 3)))
        else:
            for c, j, co in els:
                rel = "<" if strict and rng.random() < 0.4 else "<="
                bound(lit, [(c, j, gen.Fr(1))], rel if co > 0 else gen.FLIP[rel], gen.Fr(rng.randint(-1, 2)))
    for _ in range(2):
        if rng.random() < w["extra"]:
            gen.add_constraint(rng, dict(gen.DEFAULT, cond=0.1), pb, cols, rng.choice([1] + [2 + i for i in range(n)]), nv, strict, list(range(len(cols))))
    clauses = [list(range(2, nv + 2))] + [[-i, -j] for i in range(2, nv + 2) for j in range(2, i)]
    st = rng.choice(w["step"])
    if strict and rng.random() < 0.3:
        st = ",e"
    gstep = {"": (0, 0), ",1": (1, 0), ",1/2": (gen.Fr(1, 2), 0), ",2": (2, 0), ",e": (0, 1)}[st]
    conf = {"propagate-conflicts": rng.choice(["yes", "no"]), "propagate-bounds": rng.choice(["none", "changed", "full"]),
            "select": "none", "store": rng.choice(["no", "partial", "total"]), "objective": "global" + st}
    prefs = []
    for _ in range(threads):
        p = list(range(2, nv + 2))
        rng.shuffle(p)
        prefs.append(p)
    sc = {"seed": rng.randint(1, 10 ** 9), "strict": 1 if strict else 0, "opts": [[k, v] for k, v in conf.items()],
          "threads": threads, "maxev": 400, "hint": 0, "restart": 0, "forget": 0, "single": rng.choice([0, 0, 40]), "chrono": 0,
          "split": 100, "order": [t - 1 for t in order], "prefs": prefs,
          "steps": [{"nvars": nv, "clauses": clauses, "atoms": pb.atoms}]}
    step = dict(cons=pb.cons, obj=pb.obj, vars=pb.vars, maybe=pb.maybe, clauses=clauses, nv=nv + 1)
    me = dict(n=len(cols), cols=[gen.sym_text(c) for c in cols], strict=strict, steps=[step], glob=True, gstep=gstep,
              threads=threads, select="none", bounds=conf["propagate-bounds"] != "none")
    return sc, me
