"""Solve a program with the Python package: scenario (JSON) on stdin, trace (JSON) on stdout."""
import json
import sys

from clingo import Control
from clingo.ast import ProgramBuilder, parse_string
from clingolpx import ClingoLPXTheory


def main():
    sc = json.load(sys.stdin)
    ev = []
    try:
        th = ClingoLPXTheory()
        ver = {"e": "version", "ok": True, "text": [".".join(str(x) for x in th.version())]}
        try:
            for k, v in sc["opts"]:
                th.configure(k, v)
            th.validate_options()
        except RuntimeError as e:
            ev.append({"e": "cli", "ok": False})
            if str(e) == "":
                raise
            print(json.dumps({"ev": ev + [{"e": "end", "how": "ok", "msg": ""}]}))
            return
        ev.append({"e": "cli", "ok": True})
        ev.append(ver)
        ctl = Control(sc["args"], logger=lambda *a: None)
        th.register(ctl)
        with ProgramBuilder(ctl) as bld:
            parse_string(sc["program"], lambda stm: th.rewrite_ast(stm, bld.add))
        ctl.ground([("base", [])])
        th.prepare(ctl)
        ev.append({"e": "start", "step": 1})

        def on_model(m):
            th.on_model(m)
            t = m.thread_id
            ext, obj = [], []
            for s in m.symbols(theory=True):
                if s.match("__lpx", 2):
                    ext.append([str(s.arguments[0]), s.arguments[1].string])
                elif s.match("__lpx_objective", 2):
                    obj.append([s.arguments[0].string, str(s.arguments[1])])
            api = []
            for sym, val in th.assignment(t):
                ix = th.lookup_symbol(sym)
                ok = ix is not None and th.has_value(t, ix) and th.get_symbol(ix) == sym
                api.append([str(sym), val.string if hasattr(val, "string") else repr(val), ok and th.get_value(t, ix) == val, ix])
            ev.append({"e": "model", "t": t, "atoms": [str(s) for s in m.symbols(shown=True)], "ext": ext, "obj": obj,
                       "api": api, "bogus": []})

        def on_stats(step, accu):
            th.on_statistics(step, accu)
            g = lambda s, k: int(s["Simplex"][k])
            ev.append({"e": "stats", "sp": g(step, "Pivots"), "sb": g(step, "Bounds propagated"), "ap": g(accu, "Pivots"), "pv": 0,
                       "ab": g(accu, "Bounds propagated"), "ok": True})

        r = ctl.solve(on_model=on_model, on_statistics=on_stats)
        ev.append({"e": "done", "step": 1, "sat": 1 if r.satisfiable else 0 if r.unsatisfiable else 2, "all": bool(r.exhausted)})
    except RuntimeError as e:
        ev.append({"e": "error", "step": 1, "stage": "", "msg": str(e)})
    ev.append({"e": "end", "how": "ok", "msg": ""})
    print(json.dumps({"ev": ev}))


main()
