"""The command line application, the Python application and the Python package."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import tempfile

import build
import genlang
import genopt
import gensolve

FRONTS = ["cli", "py", "api"]


def unconditional(steps):
    return all("c" not in e for st in steps for a in st["atoms"] if a["name"][1] in ("minimize", "maximize") for e in a["elems"])


def gen_front(seed, over=None):
    rng = random.Random(seed)
    w = dict(front=None, bad=0.12, lang=0.35, badlang=0.25)
    w.update(over or {})
    front = w["front"] or rng.choice(FRONTS)
    while True:
        args, calls = genopt.cli_args(rng, w["bad"], front != "api")
        e = genopt.effective(calls)
        if e["gstep"][0] < 0 or any(not v or " " in v for _, v, _ in calls):
            continue
        so = {"strict": 1.0 if e["strict"] else 0.0, "steps": (1, 1)}
        if rng.random() < w["lang"] and not e["glob"]:
            it = genlang.gen_lang(rng.random(), dict(so, bad=w["badlang"], obj=0.4))
        else:
            it = gensolve.gen_solve(rng.random(), dict(so, obj=0.8 if e["glob"] else 0.4, assume=0, ext=0, resolve=0, limit=0, mode=0,
                                                       threads=(1, 1)))
        if it is None or (front == "py" and e["glob"] and not unconditional(it["me"]["steps"])):
            continue
        break
    prog = it["sc"]["steps"][0]["program"]
    names = [x[0] for x in it["me"]["steps"][0]["ord"]]
    show = rng.random() < 0.4
    lines = prog.split("\n")
    if show:
        lines += ["#show."] + ["#show s__(%s) : %s." % (n, n) for n in names]
    limit = 0
    cargs = list(it["sc"]["args"])
    if rng.random() < 0.1:
        limit = rng.randint(1, 3)
        cargs[0] = str(limit)
    if rng.random() < 0.5:
        cargs.append("--stats" if front != "py" or rng.random() < 0.5 else "--stats=2")
    sc = {"front": front, "args": cargs, "opts": args, "calls": [[k, v] for k, v, _ in calls], "program": "\n".join(lines),
          "input": rng.choice(["file", "stdin", "dash", "two"]), "cut": rng.randint(0, len(lines)), "limit": limit,
          "stats": any(a.startswith("--stats") for a in cargs)}
    if rng.random() < 0.1:
        # a constant given on the command line
        sc["args"] = sc["args"] + ["-c", "k__=%d" % rng.randint(2, 99)]
        sc["program"] += "\n:- k__ != %s." % sc["args"][-1].split("=")[1]
    if front == "py" and rng.random() < 0.12:
        # a script that is run only if asked for
        sc["program"] += "\n#script (python)\ndef two__():\n    from clingo import Number\n    return Number(2)\n#end.\n:- @two__() != 2."
        sc["input"] = rng.choice(["file", "stdin", "dash"])
        sc["script"] = rng.choice([["--enable-python"], ["--enable-python"], ["--no-enable-python"], []])
    if front != "api" and rng.random() < 0.03:
        sc["special"] = rng.choice(["help", "help", "version"])
    me = dict(it["me"], glob=False, strict=False, bounds=False, gstep=[[0, 1], [0, 1]])
    return {"sc": sc, "me": me}


def tokens(line):
    """Symbols separated by blanks (not those within strings or parentheses)."""
    r, cur, depth, quote, i = [], "", 0, False, 0
    while i < len(line):
        c = line[i]
        if quote:
            cur += c
            if c == "\\" and i + 1 < len(line):
                i += 1
                cur += line[i]
            elif c == '"':
                quote = False
        elif c == " " and depth == 0:
            r.append(cur)
            cur = ""
        else:
            quote = c == '"'
            depth += (c == "(") - (c == ")")
            cur += c
        i += 1
    return r + [cur] if cur or r else r


def shown(tok):
    m = re.match(r"^s__\((.*)\)$", tok)
    return m.group(1) if m else "raw:" + tok


def parse(sc, rc, out, err):
    """Translate what an application printed into events."""
    ev = []
    lines = out.split("\n")
    started = any(x.startswith("Reading from") for x in lines)
    ev.append({"e": "cli", "ok": started})
    if not started:
        # (the Python application reports inconsistent options with a traceback)
        if not re.search(r"^\*\*\* ERROR|^RuntimeError: .", err, re.M):
            ev.append({"e": "error", "step": 1, "stage": "", "msg": ""})
        ev.append({"e": "end", "how": "ok", "msg": ""})
        return ev
    if any(x.startswith("Solving") for x in lines):
        ev.append({"e": "start", "step": 1})
    show = "#show." in sc["program"].split("\n")
    i = 0
    verdict = None
    while i < len(lines):
        x = lines[i]
        if re.match(r"^Answer: \d+", x):
            atoms = tokens(lines[i + 1])
            if show:
                atoms = [shown(t) for t in atoms]
            bogus, ext, obj = [], [], []
            if lines[i + 2] != "Assignment:":
                bogus.append("format")
            for t in tokens(lines[i + 3]):
                k = t.rfind("=")
                if k <= 0:
                    bogus.append("format")
                else:
                    ext.append([t[:k], t[k + 1:]])
            i += 4
            m = re.match(r"^Optimization: (\S+) \[(bounded|unbounded)\]$", lines[i])
            if m:
                obj.append([m.group(1), "1" if m.group(2) == "bounded" else "0"])
                i += 1
            ev.append({"e": "model", "t": 0, "atoms": atoms, "ext": ext, "obj": obj, "bogus": bogus,
                       "api": [[a, b, True, k] for k, (a, b) in enumerate(sorted(ext))]})
            continue
        if x in ("SATISFIABLE", "UNSATISFIABLE", "UNKNOWN", "OPTIMUM FOUND"):
            verdict = x
        i += 1
    errors = [x for x in err.split("\n") if x.startswith("*** ERROR")]
    if rc < 0:
        how = "timeout" if rc == -24 else "crash"
        return ev + [{"e": "end", "how": how, "msg": "signal %d" % -rc}]
    if errors or rc not in (10, 20, 30):
        ev.append({"e": "error", "step": 1, "stage": "", "msg": errors[0] if errors else ""})
        if rc in (0, 10, 20, 30):
            # an error has to be visible in the exit status
            ev.append({"e": "end", "how": "status", "msg": str(rc)})
            return ev
    else:
        st = [x for x in range(len(lines)) if lines[x] == "Simplex"]
        val = {}
        for k in st:
            for x in lines[k + 1:k + 3]:
                m = re.match(r"^\s+(Pivots|Bounds propagated)\s*: (\d+)", x)
                if m:
                    val[m.group(1)] = int(m.group(2))
        if sc["stats"]:
            p, b = val.get("Pivots", -1), val.get("Bounds propagated", -1)
            ev.append({"e": "stats", "sp": p, "sb": b, "ap": p, "ab": b, "ok": True, "pv": 0})
        sat = {10: 1, 20: 0, 30: 1}[rc]
        if verdict != ("SATISFIABLE" if sat else "UNSATISFIABLE"):
            sat = 2
        ev.append({"e": "done", "step": 1, "sat": sat, "all": rc in (20, 30), "lim": sc["limit"]})
    ev.append({"e": "end", "how": "ok", "msg": ""})
    return ev


def header_version():
    with open(os.path.join(build.REPO, "libclingo-lpx", "clingo-lpx.h")) as f:
        return re.findall(r'CLINGOLPX_VERSION "([^"]*)"', f.read())


def special(sc, rc, out):
    """What is printed about options and version instead of solving."""
    lines = out.split("\n")
    if sc["special"] == "version":
        ev = {"e": "version", "text": re.findall(r"^clingo-lpx version (\S+)$", out, re.M), "header": header_version()}
    else:
        opts = []
        k = next((i for i, x in enumerate(lines) if x.startswith("Clingo.LPX")), len(lines) - 1) + 1
        for x in lines[k:]:
            m = re.match(r"^\s+--(\[no-\])?([a-z-]+)(?:=(\S*?))?\s*: \S", x)
            if m:
                opts.append([m.group(2), m.group(1) is not None, re.findall(r"[a-z]+", m.group(3) or "")])
            elif x.strip():
                break
        ev = {"e": "help", "opts": opts}
    return [dict(ev, ok=rc == 0), {"e": "end", "how": "ok" if rc >= 0 else "crash", "msg": ""}]


def execute(sc, cli, py, tmp):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    if sc["front"] != "cli":
        env["PYTHONPATH"] = py
    if sc["front"] == "api":
        cmd = ["prlimit", "--cpu=20", build.PYTHON, os.path.join(build.VERIF, "harness", "pyapi.py")]
        p = subprocess.run(cmd, input=json.dumps({"args": sc["args"], "opts": sc["calls"], "program": sc["program"]}), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", cwd=tmp)
        if p.returncode != 0:
            return [{"e": "end", "how": "timeout" if p.returncode == -24 else "crash", "msg": str(p.returncode)}]
        ev = json.loads(p.stdout)["ev"]
        for e in ev:
            if e["e"] == "version":
                e["header"] = header_version()
        show = "#show." in sc["program"].split("\n")
        for e in ev:
            if e["e"] == "model" and show:
                e["atoms"] = [shown(t) for t in e["atoms"]]
            if e["e"] == "done":
                e["lim"] = sc["limit"]
        return ev
    d = tempfile.mkdtemp(dir=tmp)
    lines = sc["program"].split("\n")
    files, data = [], None
    if sc["input"] in ("file", "two"):
        parts = [lines] if sc["input"] == "file" else [lines[:sc["cut"]], lines[sc["cut"]:]]
        for k, part in enumerate(parts):
            f = os.path.join(d, "f%d.lp" % k)
            with open(f, "w") as h:
                h.write("\n".join(part) + "\n")
            files.append(f)
    else:
        data = sc["program"] + "\n"
        files = ["-"] if sc["input"] == "dash" else []
    cmd = ["prlimit", "--cpu=20"] + ([cli] if sc["front"] == "cli" else [build.PYTHON, "-m", "clingolpx"])
    if "special" in sc:
        p = subprocess.run(cmd + ["--" + sc["special"]], env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, errors="replace")
        return special(sc, p.returncode, p.stdout)
    p = subprocess.run(cmd + sc["opts"] + sc.get("script", []) + sc["args"] + files, input=data if data is not None else "", env=env, cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    ev = parse(sc, p.returncode, p.stdout, p.stderr)
    if "script" in sc and "--enable-python" not in sc["script"] and ev[0]["ok"]:
        return [ev[0], {"e": "script", "ok": not any(e["e"] in ("start", "model", "done") for e in ev) and "python" in p.stderr},
                {"e": "end", "how": "ok", "msg": ""}]
    return ev


def run(items):
    cli = build.app() if any(i["sc"]["front"] == "cli" for i in items) else None
    py = build.pypackage() if any(i["sc"]["front"] != "cli" for i in items) else None
    tmp = tempfile.mkdtemp(prefix="lpxfe.")
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            return [{"ev": e} for e in ex.map(lambda i: execute(i["sc"], cli, py, tmp), items)]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
