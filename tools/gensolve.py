"""Random programs for the real clingo, as text and as data for spec/SolveTrace.tla."""
import random
from fractions import Fraction as Fr

import gen

PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "..": 0}


def text(rng, t, need=0):
    """Theory term as text with just enough parentheses (and sometimes more)."""
    if isinstance(t, int):
        s, lvl = (str(t), 4) if t >= 0 else ("- %d" % -t, 3)
    elif t[0] == "s":
        s, lvl = t[1], 4
    elif t[0] == "t":
        s = "(" + ",".join(text(rng, a, 1) for a in t[1]) + ("," if len(t[1]) == 1 else "") + ")"
        lvl = 4
    elif t[0] == "l":
        s, lvl = "[" + ",".join(text(rng, a, 1) for a in t[1]) + "]", 4
    elif t[1] in PREC and len(t[2]) == 2:
        p = PREC[t[1]]
        s = "%s %s %s" % (text(rng, t[2][0], p), t[1], text(rng, t[2][1], p + 1))
        lvl = p
    elif t[1] == "-" and len(t[2]) == 1:
        s, lvl = "- " + text(rng, t[2][0], 3), 3
    elif not t[2]:
        s, lvl = t[1], 4
    else:
        s, lvl = t[1] + "(" + ",".join(text(rng, a, 1) for a in t[2]) + ")", 4
    if lvl < need or (lvl > 0 and need > 0 and rng.random() < 0.08):
        s = "(" + s + ")"
    return s


def norm(t):
    """Trees up to the spelling of negative numbers."""
    if isinstance(t, int):
        return ["f", "-", [-t]] if t < 0 else t
    if t[0] == "s":
        return t
    if t[0] in "tl":
        return [t[0], [norm(a) for a in t[1]]]
    return ["f", t[1], [norm(a) for a in t[2]]]


def may_coincide(a, b):
    """Theory atoms gringo may identify once it has simplified the conditions."""
    if a["name"] != b["name"] or ("guard" in a) != ("guard" in b):
        return False
    if "guard" in a and [a["guard"][0], norm(a["guard"][1])] != [b["guard"][0], norm(b["guard"][1])]:
        return False

    def keys(x, always):
        return {repr([norm(t) for t in e["t"]]) for e in x["elems"] if not always or e.get("c", 1) == 1}
    return keys(a, True) <= keys(b, False) and keys(b, True) <= keys(a, False)


NAMES = ["a", "b", "c", "d", "p(1)", "p(2)", "q(a)", "r", "s(1,b)", "g", "h", "k"]

DEFAULT = dict(gen.DEFAULT)
DEFAULT.update(steps=(1, 1), natoms=(2, 5), nrules=(0, 4), ncons=(1, 5), conj=0.3, ext=0.3, assume=0.3, limit=0.08, **{"yield": 0.15},
               threads=(1, 1), clasp=0.7, resolve=0.1, glob=0.4, cond=0.3, loop=0.3, maxguess=8, mode=0.25)


def clasp_args(rng, w, threads, nsteps):
    args = ["0"]
    if threads > 1:
        args += ["-t", "%d%s" % (threads, rng.choice(["", ",compete", ",split"]))]
    if rng.random() < w["clasp"]:
        if rng.random() < 0.4 and threads == 1:
            args.append("--configuration=" + rng.choice(["frumpy", "jumpy", "tweety", "handy", "crafty", "trendy"]))
        if rng.random() < 0.4:
            args.append("--heuristic=" + rng.choice(["Berkmin", "Vsids", "Unit", "None", "Domain"] +
                                                      # does not terminate in later steps
                                                      (["Vmtf"] if nsteps == 1 else [])))
        if rng.random() < 0.4:
            args.append("--seed=%d" % rng.randint(1, 10 ** 6))
        if rng.random() < 0.4:
            args.append("--rand-freq=%s" % rng.choice(["0.2", "0.5", "1.0"]))
        if rng.random() < 0.4:
            args.append("--sign-def=" + rng.choice(["asp", "pos", "neg", "rnd"]))
        if rng.random() < 0.3 and threads == 1:
            args.append("--enum-mode=" + rng.choice(["record", "bt", "auto"]))
        if rng.random() < 0.2:
            args.append("--restarts=" + rng.choice(["no", "F,1", "x,2,1.5", "L,1"]))
        if rng.random() < 0.2:
            args.append("--eq=%d" % rng.choice([0, 3]))
        if rng.random() < 0.15:
            args.append("--trans-ext=" + rng.choice(["all", "no", "dynamic"]))
        if rng.random() < 0.15:
            args.append("--restart-on-model")
        if rng.random() < 0.15:
            args.append("--save-progress=%d" % rng.choice([0, 10]))
    return args


def solve_mode(rng, w, glob, names, atoms, steps, data, args):
    """How the host is asked to solve, see Mode in spec/SolveTrace.tla."""
    if glob or w["threads"][1] > 1 or rng.random() >= w["mode"]:
        return "enum", args
    mode = rng.choice(["brave", "cautious", "project", "project", "opt", "opt", "opt"])
    known = []
    cost = 0
    for k, (st, da) in enumerate(zip(steps, data)):
        known += atoms[k]
        da["proj"], da["weak"] = [], []
        if mode == "project" and known:
            for a in rng.sample(known, rng.randint(1 if k == 0 else 0, min(3, len(known)))):
                da["proj"].append(a)
                st["program"] += "\n#project %s." % names[a]
        if mode == "opt" and known:
            for _ in range(rng.randint(1 if k == 0 else 0, 4)):
                a = rng.choice(known) * rng.choice([1, 1, -1])
                w_, p = rng.choice([-3, -2, -1, 1, 1, 2, 3]), rng.choice([1, 1, 1, 2, 3])
                cost += 1
                da["weak"].append([w_, p, a])
                l = names[a] if a > 0 else "not " + names[-a]
                st["program"] += "\n" + rng.choice(["#minimize { %d@%d,%d : %s }." % (w_, p, cost, l), "#maximize { %d@%d,%d : %s }." % (-w_, p, cost, l),
                                                   ":~ %s. [%d@%d,%d]" % (l, w_, p, cost)])
    if not known:
        for da in data:
            del da["proj"], da["weak"]
        return "enum", args
    args = [a for a in args if not a.startswith("--enum-mode")]
    if mode == "opt":
        args += ["--opt-mode=optN"]
        if rng.random() < 0.6:
            # not core-guided: it does not terminate if a propagator adds certain clauses (DESIGN.md)
            args.append("--opt-strategy=" + rng.choice(["bb,lin", "bb,hier", "bb,inc", "bb,dec"]))
    elif mode == "project":
        args += ["--project=project"]
    else:
        args += ["--enum-mode=" + mode]
    return mode, args


def gen_solve(seed, over=None, opts=None):
    rng = random.Random(seed)
    w = dict(DEFAULT)
    w.update(over or {})
    o = opts or {}
    n = rng.randint(*w["n"])
    cols = gen.pick_syms(rng, n)
    strict = rng.random() < w["strict"]
    has_obj = rng.random() < w["obj"]
    glob = has_obj and rng.random() < w["glob"]
    threads = rng.randint(*w["threads"])
    conf = {
        "propagate-conflicts": o.get("conflicts", rng.choice(["yes", "no"])),
        "propagate-bounds": o.get("bounds", rng.choice(["none", "changed", "full"])),
        "select": o.get("select", rng.choice(["none", "match", "conflict"])),
        "store": o.get("store", rng.choice(["no", "partial", "total"])),
    }
    gstep = (Fr(0), Fr(0))
    if glob:
        st = rng.choice(["", "", ",1", ",1/2", ",3"] + ([",e", ",e"] if strict else []))
        conf["objective"] = "global" + st
        gstep = {"": (0, 0), ",1": (1, 0), ",1/2": (Fr(1, 2), 0), ",3": (3, 0), ",e": (0, 1)}[st]
        gstep = (Fr(gstep[0]), Fr(gstep[1]))
    elif rng.random() < 0.5:
        conf["objective"] = "local"
    conf["strict"] = "yes" if strict else "no"
    copts = [[k, v] for k, v in conf.items() if not (k == "strict" and v == "no" and rng.random() < 0.5)]
    rng.shuffle(copts)

    nsteps = rng.randint(*w["steps"])
    names = list(NAMES)
    next_atom = [2]
    name_of = {}
    choice = []        # atoms that are freely chosen
    usable = []        # ordinary atoms of all steps so far
    guess = set()
    ext_state = {}
    steps = []         # for the harness
    data = []          # for the specification
    seen_dirs = []
    earlier = []
    conj = False
    total_obj = []
    avail = list(range(max(1, n - rng.randint(0, nsteps - 1))))

    def fresh(name=None):
        k = next_atom[0]
        next_atom[0] += 1
        if name is not None:
            name_of[k] = name
        return k

    def lit_text(l):
        return name_of[l] if l > 0 else "not " + name_of[-l]

    def neg_ok(a):
        return a in guess or len(guess) < w["maxguess"]

    def body(maxlen=2, minlen=0):
        p, m = [], []
        if usable:
            for _ in range(rng.randint(minlen, maxlen)):
                a = rng.choice(usable)
                if a in p or a in m:
                    continue
                if rng.random() < 0.35 and neg_ok(a):
                    guess.add(a)
                    m.append(a)
                else:
                    p.append(a)
        return p, m

    def body_text(p, m):
        return ", ".join([name_of[a] for a in p] + ["not " + name_of[a] for a in m])

    for k in range(nsteps):
        pb = gen.Problem()
        prog = []
        rules = []
        all_atoms = []
        ext_ops = []
        if k == nsteps - 1:
            avail = list(range(n))
        elif k > 0:
            avail = list(range(min(n, len(avail) + rng.randint(0, 1))))
        new = []
        for _ in range(rng.randint(*w["natoms"]) if k == 0 else rng.randint(0, 2)):
            if names:
                new.append(fresh(names.pop(rng.randrange(len(names)))))
        ords = list(new)
        derived = []
        for a in new:
            r = rng.random()
            if r < 0.6 and len(guess) < w["maxguess"]:
                p, m = body(1) if rng.random() < 0.25 else ([], [])
                rules.append(dict(k="c", h=[a], p=p, m=m))
                guess.add(a)
                b = body_text(p, m)
                prog.append("{ %s }%s." % (name_of[a], " :- " + b if b else ""))
                if not b:
                    choice.append(a)
                usable.append(a)
            elif r < 0.6 + 0.12 * w["ext"] * 3 and len(guess) < w["maxguess"] and rng.random() < w["ext"]:
                prog.append("#external %s." % name_of[a])
                ext_state[a] = "false"
                guess.add(a)
                usable.append(a)
            else:
                derived.append(a)
        # recursion among the derived atoms of a step is possible
        usable += derived if rng.random() < w["loop"] else []
        for a in derived:
            for _ in range(rng.randint(1, 2)):
                p, m = body(2, 0 if rng.random() < 0.2 else 1)
                if a in m:
                    continue
                rules.append(dict(k="n", h=[a], p=p, m=m))
                b = body_text(p, m)
                prog.append("%s%s." % (name_of[a], " :- " + b if b else ""))
        for a in derived:
            if a not in usable:
                usable.append(a)
        for _ in range(rng.randint(*w["nrules"])):
            if usable and rng.random() < 0.5:
                p, m = body(3, 2)
                if p or m:
                    rules.append(dict(k="i", h=[], p=p, m=m))
                    prog.append(":- %s." % body_text(p, m))
        for a in list(ext_state):
            if rng.random() < 0.5:
                v = rng.choice(["true", "false", "free"])
                if v == "free" and rng.random() < 0.3:
                    v = "true"
                ext_state[a] = v
                ext_ops.append([name_of[a], v])

        # conditions
        conds = []
        cond_txt = {}
        if usable:
            for _ in range(3):
                if rng.random() < w["conj"] and len(usable) > 1:
                    p, m = body(3, 2)
                    if len(p) + len(m) < 2:
                        continue
                    conj = True
                    c = fresh()
                    all_atoms.append(c)
                    rules.append(dict(k="n", h=[c], p=p, m=m))
                    cond_txt[c] = body_text(p, m)
                    conds.append(c)
                else:
                    a = rng.choice(usable)
                    conds.append(a if rng.random() < 0.6 else -a)
        for c in conds:
            cond_txt.setdefault(c, lit_text(c) if abs(c) in name_of else "")

        def dedupe(atom):
            els = []
            trees = {}
            for e in atom["elems"]:
                key = repr([norm(t) for t in e["t"]])
                c = e.get("c", 1)
                old = trees.setdefault(key, [])
                # clingo removes what earlier steps have decided
                pure = all(x == 1 or (abs(x) in choice and abs(x) in new) for x in old + [c]) and len(set(map(abs, old + [c]))) == len(old) + 1
                if old and not pure:
                    continue
                old.append(c)
                els.append(e)
            rng.shuffle(els)
            atom["elems"] = els

        def atom_text(atom):
            es = []
            for e in atom["elems"]:
                s = ", ".join(text(rng, t) for t in e["t"])
                if e.get("c", 1) != 1:
                    s += " : " + cond_txt[e["c"]]
                es.append(s)
            s = "&%s{ %s }" % (atom["name"][1], " ; ".join(es))
            if "guard" in atom:
                s += " %s %s" % (atom["guard"][0], text(rng, atom["guard"][1], 1))
            return s

        sub = dict(w)
        if not conds:
            sub["cond"] = 0
        heads = []
        for _ in range(rng.randint(*w["ncons"])):
            l = fresh()
            all_atoms.append(l)
            gen.add_constraint(rng, sub, pb, cols, l, 0, strict, avail, conds)
            atom = pb.atoms[-1]
            dedupe(atom)
            if any(may_coincide(atom, x) for x in earlier):
                pb.atoms.pop()
                all_atoms.pop()
                continue
            txt = atom_text(atom)
            nb = 1 if rng.random() < 0.85 else 2
            for _ in range(nb):
                p, m = ([], []) if rng.random() < w["fact"] else body(2, 1)
                rules.append(dict(k="n", h=[l], p=p, m=m))
                b = body_text(p, m)
                prog.append("%s%s." % (txt, " :- " + b if b else ""))
            heads.append(l)
        if has_obj and (k == 0 or rng.random() < 0.4):
            for mini in rng.choice([[True], [False], [True, False]] if rng.random() < 0.3 else [[True], [False]]):
                els, elems = [], []
                for j in rng.sample(avail, rng.randint(1, min(3, len(avail)))):
                    co = gen.pick_coef(rng, w)
                    c = rng.choice(conds) if conds and rng.random() < w["cond"] else 1
                    elems.append(dict({"t": [gen.lin_term(rng, co, gen.sym_term(cols[j]))]}, **({"c": c} if c != 1 else {})))
                    els.append((c, j + 1, -co if mini else co))
                atom = {"name": ["s", "minimize" if mini else "maximize"], "lit": 0, "elems": elems}
                if any(may_coincide(atom, x) for x in seen_dirs):
                    continue
                seen_dirs.append(dict(atom, elems=list(elems)))
                for i, e in enumerate(elems):
                    e["i"] = i
                dedupe(atom)
                els = [els[e.pop("i")] for e in atom["elems"]]
                pb.atoms.insert(rng.randint(0, len(pb.atoms)), atom)
                total_obj += els
                prog.append(atom_text(atom) + ".")
        earlier += pb.atoms
        if total_obj and all(v == 0 for v in gen.combine(total_obj).values()):
            return None
        rng.shuffle(prog)
        assume = []
        alits = []
        if usable and rng.random() < w["assume"]:
            for a in rng.sample(usable, min(len(usable), rng.randint(1, 2))):
                v = rng.randint(0, 1)
                assume.append([name_of[a], v])
                alits.append(a if v else -a)
        st = {"program": "\n".join(prog)}
        if ext_ops:
            st["external"] = ext_ops
        if assume:
            st["assume"] = assume
        if rng.random() < w["limit"]:
            st["limit"] = rng.randint(1, 3)
        if rng.random() < w["resolve"]:
            st["solves"] = 2
        if rng.random() < w["yield"]:
            st["yield"] = 1
        steps.append(st)
        data.append(dict(rules=rules, atoms=pb.atoms, ord=[[name_of[a], a] for a in ords], all=ords + all_atoms,
                         ext=[[a, v] for a, v in ext_state.items()], assume=alits))
    args = clasp_args(rng, w, threads, nsteps)
    if conj:
        # clingo hands out wrong literals for conditions simplified by the equivalence preprocessing
        args = [a for a in args if not a.startswith("--eq")] + ["--eq=0"]
    if has_obj:
        # after eliminating variables clingo passes total assignments off as partial ones
        args.append("--sat-prepro=no")
    mode, args = solve_mode(random.Random("%s/mode" % (seed,)), w, glob, name_of, [[a for _, a in d["ord"]] for d in data], steps, data, args)
    sc = {"args": args, "opts": copts, "steps": steps}
    if threads > 1 and glob:
        # clingo may report another assignment than the one checked last
        sc["record"] = 1
    return {"sc": sc, "me": {"cols": [gen.sym_text(c) for c in cols], "strict": strict, "mode": mode, "glob": glob, "threads": threads,
                             "select": conf["select"], "bounds": conf["propagate-bounds"] != "none",
                             "gstep": [gen.rat(x) for x in gstep], "steps": data}}
