"""Shared machinery: run harness programs, translate traces, run TLC."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from fractions import Fraction as Fr

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from gen import rat

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
NPROC = 8


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ values

_NUM = r"-?\d+(?:/\d+)?"
_VAL = re.compile(r"^(?:(%s)|(?:(?:(%s)\+)?(?:(%s)\*)?(e)))$" % (_NUM, _NUM, _NUM))


def parse_value(text):
    """Value text -> (c, k) or None."""
    m = _VAL.match(text)
    if not m:
        return None
    try:
        if m.group(1) is not None:
            return (Fr(m.group(1)), Fr(0))
        return (Fr(m.group(2) or 0), Fr(m.group(3) or 1))
    except ZeroDivisionError:
        return None


def q_json(v):
    if v is None:
        v = (Fr(0), Fr(0))
    return [rat(v[0]), rat(v[1])]


# ------------------------------------------------------------------ running

def run_lines(exe, lines, env=None, timeout=850, args=()):
    """Feed JSON lines to a harness program in parallel, keeping the order."""
    n = min(NPROC, max(1, len(lines)))
    chunks = [lines[i::n] for i in range(n)]

    def one(chunk):
        p = subprocess.run([exe] + list(args), input="\n".join(chunk) + "\n", stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=timeout, env=env)
        out = p.stdout.splitlines()
        if len(out) != len(chunk):
            raise MachineryError("%s: %d answers for %d scenarios (exit %d)" % (exe, len(out), len(chunk), p.returncode))
        return out

    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, chunks))
    out = [None] * len(lines)
    for i, r in enumerate(res):
        out[i::n] = r
    return out


_REJ = re.compile(r'<<"REJECT", (".*?"|\d+), (\d+), \{(.*)\}>>')
_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg=None, env=None, workers="1", extra=(), timeout=850, mem="2g", spec_dir=SPEC, seed=5):
    """Run TLC; returns (exit code, output, states, distinct)."""
    cp = build.overrides()
    meta = tempfile.mkdtemp(prefix="lpxtlc.")
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + mem, "-Xss64m",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:lpx.Overrides", "-cp", cp, "tlc2.TLC",
               "-workers", str(workers), "-seed", str(seed), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
        p = subprocess.run(cmd, cwd=spec_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    ms = _STATES.findall(p.stdout)
    gen, dis = (int(ms[-1][0]), int(ms[-1][1])) if ms else (0, 0)
    return p.returncode, p.stdout, gen, dis


def validate(module, records, cfg=None, timeout=850, shards=NPROC):
    """Check trace records (dicts with an integer "id") against a trace spec.

    Returns (rejects {id: [(event, [labels])]}, states, transitions)."""
    if not records:
        return {}, 0, 0
    build.overrides()
    tmp = tempfile.mkdtemp(prefix="lpxtr.")
    # balance by size
    order = sorted(records, key=lambda r: -len(r.get("ev", ())))
    n = min(shards, max(1, len(records)))
    parts = [order[i::n] for i in range(n)]
    try:
        files = []
        for i, part in enumerate(parts):
            f = os.path.join(tmp, "t%d.ndjson" % i)
            with open(f, "w") as h:
                for r in part:
                    h.write(json.dumps(r, separators=(",", ":")) + "\n")
            files.append((f, part))

        def one(fp):
            f, part = fp
            rc, out, gen, dis = tlc(module, cfg, env={"LPX_TRACES": f}, timeout=timeout)
            done = len(set(re.findall(r'<<"DONE", (\d+)>>', out)))
            if rc != 0 or done != len(part):
                raise MachineryError("TLC on %s: exit %d, %d of %d traces done\n%s" %
                                     (module, rc, done, len(part), out[:1500] + "..." + out[out.find("Error:"):][:1500]))
            rej = {}
            for i, ev, labels in _REJ.findall(re.sub(r"\n\s+", " ", out)):
                rej.setdefault(int(i), []).append((int(ev), sorted(x.strip().strip('"') for x in labels.split(","))))
            return rej, dis

        rejects = {}
        states = 0
        with cf.ThreadPoolExecutor(n) as ex:
            for rej, dis in ex.map(one, files):
                rejects.update(rej)
                states += dis
        return rejects, states, states - len(records)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ host traces

def lang_term(t):
    """Theory terms of scenarios in the notation of spec/Lang.tla."""
    if isinstance(t, int):
        return ["n", rat(t)]
    if t[0] == "s":
        return ["s", t[1]]
    if t[0] == "f":
        return ["f", t[1], [lang_term(a) for a in t[2]]]
    return [t[0], [lang_term(a) for a in t[1]]]


def lang_atom(a):
    return dict(n=lang_term(a["name"]), l=a["lit"],
                e=[dict(c=e.get("c", 1), t=[lang_term(t) for t in e["t"]]) for e in a["elems"]],
                g=[a["guard"][0], lang_term(a["guard"][1])] if "guard" in a else [])


def names(cols, trace):
    """All variable names, those a trace mentions included."""
    r = list(cols)
    seen = set(r)
    for e in trace["ev"]:
        for x in e.get("syms", []) + [y[0] for y in e.get("ext", [])]:
            if x not in seen:
                seen.add(x)
                r.append(x)
    return r


def config(me):
    """The configuration of module Options a trace starts with."""
    c = dict(strict=me["strict"], gstep=q_json(me["gstep"]), conflicts=False,
             bounds="changed" if me["bounds"] else "none", select=me["select"], store="no")
    c["global"] = me["glob"]
    return c


def host_record(ident, scenario, meaning, trace):
    """Translate a trace of harness/host.cc for spec/HostTrace.tla."""
    meaning = dict(meaning, cols=names(meaning["cols"], trace))
    n = len(meaning["cols"])
    col = {name: i + 1 for i, name in enumerate(meaning["cols"])}
    zero = [q_json(None)] * n
    rec = dict(id=ident, cols=meaning["cols"], threads=meaning["threads"], recorded=False,
               replayed=any("tape" in st for st in scenario["steps"]),
               opts=config(meaning),
               steps=[dict(atoms=[lang_atom(a) for a in st["atoms"]], clauses=st["clauses"], nv=st["nvars"] + 1,
                          assume=st.get("assume", []))
                      for st in scenario["steps"]])
    if "probe" in meaning:
        rec["probe"] = meaning["probe"]
    evs = []
    order = []
    for e in trace["ev"]:
        e = dict(e)
        if e["e"] == "opt":
            k, v = scenario["opts"][e["i"]]
            e["key"], e["val"] = list(k), list(v)
        if e["e"] == "cli":
            e["args"] = [[list(k), list(v)] for k, v in meaning["args"]]
        if "v" in e:
            pt = list(zero)
            for j, text in zip(order if e["e"] != "init" else [col.get(x, 0) for x in e["syms"]], e["v"]):
                if 0 < j <= n:
                    pt[j - 1] = q_json(parse_value(text))
            e["v"] = pt
        elif e["e"] in ("prop", "check", "undo"):
            e["v"] = zero
        if e["e"] == "init":
            order = [col.get(x, 0) for x in e.get("syms", [])]
            # unknown names get columns of their own
            e["cols"] = [j if j else 1000 + i for i, j in enumerate(order)]
            e.pop("syms", None)
            e["ok"] = "syms" in trace["ev"][len(evs)]
        if e["e"] in ("prop", "check"):
            e.setdefault("z", [])
        if e["e"] == "model":
            model_event(e, col, n)
        evs.append(e)
    rec["ev"] = evs
    return rec


def model_event(e, col, n):
    """Translate what both harness programs report about a model."""
    e["extcols"] = [col.get(x[0], 1000 + i) for i, x in enumerate(e["ext"])]
    pt = [q_json(None)] * n
    texts = []
    for name, text in e["ext"]:
        v = parse_value(text)
        texts.append([text, q_json(v)])
        if name in col:
            pt[col[name] - 1] = q_json(v)
    e["pt"] = pt
    e["texts"] = texts
    e["apisame"] = sorted(map(tuple, [x[:2] for x in e["api"]])) == sorted(map(tuple, e["ext"])) and \
        all(x[2] for x in e["api"])
    e["idx"] = [[x[0], x[3]] for x in e["api"]]
    e["objtext"] = e["obj"][0][0] if e["obj"] else ""
    e["obj"] = [[q_json(parse_value(t)), f == "1"] for t, f in e["obj"]]
    e.pop("ext")
    e.pop("api")


def recorded_record(ident, me, trace):
    """Translate a trace of harness/interpose.cc for spec/HostTrace.tla."""
    cols = names([], trace)
    n = len(cols)
    col = {name: i + 1 for i, name in enumerate(cols)}
    zero = [q_json(None)] * n
    inits = [e for e in trace["ev"] if e["e"] == "init"]
    rec = dict(id=ident, cols=cols, threads=max([e["threads"] for e in inits] + [1]), recorded=True, replayed=False,
               opts=config(dict(me, gstep=tuple(Fr(str(x[0])) / Fr(str(x[1])) for x in me["gstep"]))),
               steps=[dict(atoms=e["atoms"], clauses=[], nv=e["nv"], assume=[]) for e in inits])
    evs = []
    order = []
    for e in trace["ev"]:
        e = dict(e)
        if e["e"] in ("start", "done"):
            continue
        if e["e"] == "error":
            if not inits:
                # refused before the theory was initialised
                continue
            e = {"e": "end", "how": "error", "msg": e["msg"]}
        if e["e"] == "init":
            order = [col[x] for x in e.get("syms", [])]
            e["cols"] = order
            e["ok"] = "syms" in e
            e.pop("syms", None)
            e.pop("atoms", None)
        if e["e"] in ("prop", "check", "undo"):
            pt = list(zero)
            for j, text in zip(order, e.get("v", [])):
                pt[j - 1] = q_json(parse_value(text))
            e["v"] = pt
            if e["e"] != "undo":
                e.setdefault("z", [])
        if e["e"] == "model":
            if "ext" not in e:
                continue
            model_event(e, col, n)
        evs.append(e)
        if e["e"] == "end":
            break
    rec["ev"] = evs
    return rec


# ------------------------------------------------------------------ solve traces

def solve_record(ident, me, trace):
    """Translate a trace of harness/solve.cc for spec/SolveTrace.tla."""
    me = dict(me, cols=names(me["cols"], trace))
    n = len(me["cols"])
    col = {name: i + 1 for i, name in enumerate(me["cols"])}
    zero = [q_json(None)] * n
    rec = dict(id=ident, cols=me["cols"], strict=me["strict"], threads=me["threads"], bounds=me["bounds"],
               gstep=me["gstep"],
               steps=[dict(rules=st["rules"], atoms=[lang_atom(a) for a in st["atoms"]], ord=st["ord"], all=st["all"],
                           ext=st["ext"], assume=st["assume"],
                           proj=st.get("proj", []), weak=st.get("weak", [])) for st in me["steps"]])
    rec["mode"] = me.get("mode", "enum")
    rec["global"] = me["glob"]
    if "args" in me:
        rec["args"] = [[list(k), list(v)] for k, v in me["args"]]
        rec["noobj"] = me["noobj"]
    evs = []
    for e in trace["ev"]:
        if e["e"] in ("init", "prop", "check", "undo", "dec"):
            continue
        e = dict(e)
        if e["e"] == "model":
            if "ext" not in e:
                continue
            if "tatoms" in e:
                # the assignment the theory has checked last; see DESIGN.md, host assumptions
                e["atoms"] = e.pop("tatoms")
            model_event(e, col, n)
        evs.append(e)
    rec["ev"] = evs
    return rec
