"""Conformance suites: scenarios for the real code and the trace specification that judges them.

A suite produces items (JSON-able dictionaries), runs them through a harness
program built from /repo's working tree, and has TLC check the recorded traces.
Every rejected trace is run again; only what repeats is reported.
"""
import json
import os
import random
import subprocess

import build
import frontend
import gen
import gencyc
import genlang
import gennum
import genopt
import gensched
import gensolve
import gentab
import lpxlib as L


class Suite:
    name = ""
    program = ""
    module = ""
    deterministic = True
    optional = False

    def items(self, seed, count, par):
        raise NotImplementedError

    def lines(self, items):
        return [json.dumps(i["sc"]) for i in items]

    def record(self, ident, item, trace):
        raise NotImplementedError

    def execute(self, items):
        """Run the real code; returns the recorded traces."""
        out = L.run_lines(build.program(self.program), self.lines(items))
        return [json.loads(o) for o in out]

    def judge(self, items, traces, shards=L.NPROC):
        recs = [self.record(i, it, tr) for i, (it, tr) in enumerate(zip(items, traces))]
        rej, states, trans = L.validate(self.module, recs, shards=shards)
        return recs, rej, states, trans

    def run(self, items, tier):
        traces = self.execute(items)
        recs, rej, states, trans = self.judge(items, traces)
        kinds = {}
        for r in recs:
            for e in r["ev"]:
                kinds[e["e"]] = kinds.get(e["e"], 0) + 1
        return {"states": states, "transitions": trans, "traces": len(recs), "events": sum(len(r["ev"]) for r in recs),
                "kinds": kinds, "rejects": rej, "sample": items[0]}

    def repeats(self, item, labs):
        """Does a rejection happen again?"""
        for _ in range(1 if self.deterministic else 12):
            if set(self.again(item)) & set(labs):
                return True
        return False

    def again(self, item):
        """Labels of a fresh run of an item."""
        recs, rej, _, _ = self.judge([item], self.execute([item]), shards=1)
        return labels(rej.get(0, []))


def labels(rej):
    return sorted({x for _, ls in rej for x in ls})


def elsewhere(items, seed, p):
    """Some scenarios run after, or in the middle of, another one in the same process."""
    rng = random.Random(seed + "/e")
    plain = [dict(it["sc"]) for it in items]
    for it in items:
        if rng.random() < p:
            # recording works for one theory only
            it["sc"]["before" if it["sc"].get("record") else rng.choice(["before", "between"])] = rng.choice(plain)
    return items


class Host(Suite):
    """The theory behind its callbacks, driven by harness/host.cc."""
    name = "host"
    program = "lpx_host"
    module = "HostTrace"

    def items(self, seed, count, par):
        r = []
        k = 0
        while len(r) < count:
            sc, me = gen.gen_host("%s/%d" % (seed, k), par.get("over"), par.get("opts"))
            k += 1
            if gen.obj_ok(me):
                r.append(self.item(sc, me))
        return elsewhere(r, seed, (par.get("over") or {}).get("elsewhere", 0.05))

    @staticmethod
    def item(sc, me):
        return {"sc": sc, "me": {"cols": me["cols"], "threads": me["threads"], "strict": me["strict"], "select": me["select"],
                                 "bounds": me["bounds"], "glob": me["glob"],
                                 "gstep": [[x.numerator, x.denominator] for x in map(gen.Fr, me["gstep"])]}}

    def record(self, ident, item, trace):
        me = dict(item["me"])
        me["gstep"] = tuple(gen.Fr(*x) for x in me["gstep"])
        return L.host_record(ident, item["sc"], me, trace)


class Sched(Host):
    """Schedules enumerated by TLC (spec/Sched.tla), replayed by harness/host.cc."""
    name = "sched"
    batch = 6000

    def items(self, seed, count, par):
        lits, length = par["over"].get("lits", 3), par["over"].get("len", 6)
        ops = gensched.schedules("Sched", {"SCHED_LITS": str(lits), "SCHED_LEN": str(length)})
        # consecutive batches go through the schedules round and round
        first = int(seed.rsplit("/", 1)[1])
        over = {k: v for k, v in par["over"].items() if k not in ("lits", "len")}
        order = list(range(len(ops)))
        random.Random(seed.rsplit("/", 1)[0]).shuffle(order)
        r = []
        for k in range(first, first + count):
            sc, me = gensched.gen_sched("%s/%d" % (seed, k), ops[order[k % len(ops)]], lits, over, par.get("opts"))
            r.append(self.item(sc, me))
        return r


class Steps(Host):
    """Histories of several steps enumerated by TLC (spec/Steps.tla), replayed by harness/host.cc."""
    name = "steps"
    batch = 6000

    def items(self, seed, count, par):
        first = int(seed.rsplit("/", 1)[1])
        base = seed.rsplit("/", 1)[0]
        over = dict(par.get("over") or {})
        shapes = over.pop("shapes", [(2, 9, 2), (3, 8, 2), (2, 9, 3)])
        ops = []
        k_other = True
        for lits, length, num in shapes:
            x = gensched.schedules("Steps", {"STEPS_LITS": str(lits), "STEPS_LEN": str(length), "STEPS_NUM": str(num), "STEPS_EMIT": "1"})
            random.Random(base).shuffle(x)
            # most of them with literals that hold from one step to the next
            ops.append((lits, [o for o in x if gensched.remembers(o)]))
            if k_other:
                ops.append((lits, [o for o in x if not gensched.remembers(o)]))
                k_other = False
        r = []
        for k in range(first, first + count):
            lits, x = ops[k % len(ops)]
            r.append(self.item(*gensched.gen_steps("%s/%d" % (seed, k), x[k // len(ops) % len(x)], lits, over, par.get("opts"))))
        return r


class Race(Host):
    """Interleavings of threads enumerated by TLC (spec/Incumbent.tla), replayed by harness/host.cc."""
    name = "race"
    batch = 6000

    def items(self, seed, count, par):
        first = int(seed.rsplit("/", 1)[1])
        base = seed.rsplit("/", 1)[0]
        over = dict(par.get("over") or {})
        ops = {}
        for t, m, n in over.pop("shapes", [(2, 4, 9), (3, 3, 7)]):
            ops[t] = gensched.schedules("Incumbent", {"INC_THREADS": str(t), "INC_MODELS": str(m), "INC_EMIT": str(n)})
            random.Random(base).shuffle(ops[t])
        r = []
        for k in range(first, first + count):
            t = sorted(ops)[k % len(ops)]
            r.append(self.item(*gensched.gen_race("%s/%d" % (seed, k), ops[t][k // len(ops) % len(ops[t])], t, over)))
        return r


class Conc(Host):
    """Threads that really run at the same time (harness/host.cc under the thread sanitizer)."""
    name = "conc"
    program = "lpx_conc"
    deterministic = False

    def items(self, seed, count, par):
        return super().items(seed, count, dict(par, over=dict(par.get("over") or {}, conc=1)))

    def execute(self, items):
        env = dict(os.environ, TSAN_OPTIONS="exitcode=66 halt_on_error=1 report_signal_unsafe=0 die_after_fork=0")
        exe = build.program(self.program)
        if subprocess.run([exe], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env).returncode:
            exe = build.program("lpx_host")     # the sanitizer does not run here
        return [json.loads(o) for o in L.run_lines(exe, self.lines(items), env=env)]

    def repeats(self, item, labs):
        # a data race that was seen is one, whether it shows again or not
        return "end_race" in labs or super().repeats(item, labs)


class Cyc(Host):
    """Degenerate problems on which other pivoting rules cycle."""
    name = "cyc"

    def items(self, seed, count, par):
        first = int(seed.rsplit("/", 1)[1])
        return [self.item(*gencyc.gen_cyc("%s/%d" % (seed, k), k, par.get("over"))) for k in range(first, first + count)]


class Solve(Suite):
    """Whole solve calls of the real clingo with the theory (harness/solve.cc)."""
    name = "solve"
    program = "lpx_solve"
    module = "SolveTrace"
    deterministic = False
    batch = 1500

    def items(self, seed, count, par):
        r = []
        k = 0
        while len(r) < count:
            it = gensolve.gen_solve("%s/%d" % (seed, k), par.get("over"), par.get("opts"))
            k += 1
            if it is not None:
                r.append(it)
        return elsewhere(r, seed, (par.get("over") or {}).get("elsewhere", 0.05))

    def record(self, ident, item, trace):
        return L.solve_record(ident, item["me"], trace)


class RHost(Solve):
    """What the theory and the real clingo exchange (harness/interpose.cc)."""
    name = "rhost"
    module = "HostTrace"

    def items(self, seed, count, par):
        r = super().items(seed, count, dict(par, over=dict(par.get("over") or {}, mode=0)))
        for it in r:
            sc = it["sc"]
            sc["record"] = 1
            sc.pop("between", None)
            sc["args"] = [a for a in sc["args"] if not a.startswith("--sat-prepro")] + ["--sat-prepro=no"]
        return r

    def record(self, ident, item, trace):
        return L.recorded_record(ident, item["me"], trace)


class Opts(Host):
    """Configurations, valid and invalid, and their effects."""
    name = "opts"

    def items(self, seed, count, par):
        return [genopt.gen_opt("%s/%d" % (seed, k), par.get("over")) for k in range(count)]


class LangText(Solve):
    """Random terms in programs for the real clingo."""
    name = "langtext"
    deterministic = True
    generate = staticmethod(genlang.gen_lang)

    def items(self, seed, count, par):
        r = [self.generate("%s/%d" % (seed, k), par.get("over"), par.get("opts")) for k in range(count)]
        return elsewhere(r, seed, (par.get("over") or {}).get("elsewhere", 0.05))


class OptText(LangText):
    """Programs for the real clingo after several changes of the configuration."""
    name = "opttext"

    def items(self, seed, count, par):
        r = super().items(seed, count, par)
        for k, it in enumerate(r):
            rng = random.Random("%s/o%d" % (seed, k))
            final = [[key, genopt.mix(rng, v)] for key, v in it["sc"]["opts"]]
            for x in final:
                if x[0] in genopt.CLI_FLAGS:
                    x[1] = genopt.mix(rng, rng.choice(["yes", "on", "1"] if x[1].lower() == "yes" else ["no", "off", "0"]))
            rng.shuffle(final)
            earlier = [[key, v] for key, v, _ in (genopt.one(rng, 0) for _ in range(rng.randint(0, 5))) if key != "objective"]
            if rng.random() < 0.5:
                earlier += [["objective", "global"], ["objective", "local"]]
            it["sc"]["opts"] = earlier + final
        return r


class Front(Solve):
    """The applications and the Python package."""
    name = "front"
    program = None

    def items(self, seed, count, par):
        return [frontend.gen_front("%s/%d" % (seed, k), par.get("over")) for k in range(count)]

    def execute(self, items):
        return frontend.run(items)

    def record(self, ident, item, trace):
        sc = item["sc"]
        return L.solve_record(ident, dict(item["me"], args=sc["calls"], noobj=sc["front"] == "py"), trace)


class LangHost(Host):
    """Random terms handed to the theory directly."""
    name = "langhost"

    def items(self, seed, count, par):
        r = [genlang.gen_lang_host("%s/%d" % (seed, k), par.get("over"), par.get("opts")) for k in range(count)]
        return elsewhere(r, seed, (par.get("over") or {}).get("elsewhere", 0.05))


class Num(Suite):
    """The number types (harness/num.cc); skipped if their interface has changed."""
    name = "num"
    program = "lpx_num"
    module = "NumTrace"
    optional = True

    def items(self, seed, count, par):
        return [{"sc": gennum.gen_num("%s/%d" % (seed, k), par.get("over"))} for k in range(count)]

    def record(self, ident, item, trace):
        evs = []
        for e, op in zip(trace["ev"], item["sc"]["ops"] + [None]):
            evs.append(dict(e, op=op) if e["e"] == "op" else e)
        return {"id": ident, "ev": evs}


class Tab(Suite):
    """The tableau (harness/tab.cc); skipped if its interface has changed."""
    name = "tab"
    program = "lpx_tab"
    module = "TabTrace"
    optional = True

    def items(self, seed, count, par):
        return [{"sc": gentab.gen_tab("%s/%d" % (seed, k), par.get("over"))} for k in range(count)]

    def record(self, ident, item, trace):
        sc = item["sc"]
        evs = []
        for e, op in zip(trace["ev"], sc["ops"] + [None]):
            if e["e"] == "tab":
                op = op[:3] + [gen.rat(gen.Fr(x)) for x in op[3:]]
                e = dict(e, op=op, val=[[gen.rat(gen.Fr(x)) for x in row] for row in e["all"]])
            evs.append(e)
        return {"id": ident, "m": sc["m"], "n": sc["n"], "ev": evs}


class Model(Suite):
    """Exhaustive exploration of a specification; an error is one of the specification."""
    name = "model"

    def items(self, seed, count, par):
        o = par["over"]
        return [{"module": o["module"], "slice": sum(map(ord, seed)), "every": o.get("every", (1, 1)), "env": o.get("env", ({}, {}))}]

    def run(self, items, tier):
        it = items[0]
        deep = 1 if tier == "thorough" else 0
        every = it["every"][deep]
        rc, out, states, distinct = L.tlc(it["module"], None,
                                          env=dict(it["env"][deep], MC_EVERY=str(every), MC_SLICE=str(it["slice"])),
                                          workers="4", mem="6g")
        if rc != 0:
            raise L.MachineryError("%s: %s" % (it["module"], out[-4000:]))
        return {"states": distinct, "transitions": states, "traces": 0, "events": 0,
                "kinds": {"%s%s: states" % (it["module"], " (1/%d of the problems)" % every if every > 1 else ""): distinct}, "rejects": {}, "sample": it}


SUITES = {s.name: s for s in [Host(), Sched(), Steps(), Race(), Conc(), Cyc(), Solve(), RHost(), LangText(), LangHost(), Opts(), OptText(), Front(), Num(), Tab(), Model()]}
