"""Which suites decide which property, and which rejections break it.

PLAN[property] = list of (suite, parameters, quick count, thorough count)
LABELS[property] = labels (see the trace specifications) that break the property;
a label ending in * is a prefix.
"""

PLAN = {}
LABELS = {}
NOTE = {}


def prop(pid, labels, plan, note=None):
    LABELS[pid] = labels.split()
    PLAN[pid] = plan
    NOTE[pid] = note or ", ".join(sorted({KIND[p[0]] for p in plan}))


KIND = {"host": "theory driven by a simulated solver", "sched": "schedules enumerated by TLC",
        "steps": "multi-shot histories enumerated by TLC",
        "race": "interleavings of threads enumerated by TLC", "conc": "threads at the same time under the thread sanitizer",
        "cyc": "problems on which other pivoting rules cycle", "solve": "solve calls of the real clingo",
        "rhost": "recorded exchange with the real clingo",
        "langtext": "random terms in programs for the real clingo", "langhost": "random terms handed to the theory",
        "opts": "configurations and probes of their effects", "opttext": "programs for the real clingo after reconfiguration",
        "front": "runs of the command line application, the Python application and the Python package",
        "num": "register machine of the number types", "tab": "exchange of variables in the tableau",
        "model": "exhaustive exploration of the specification itself"}


def plan(suite):
    def f(q, t, **over):
        opts = over.pop("opts", None)
        return (suite, {"over": over, "opts": opts}, q, t)
    return f


H = plan("host")
Q = plan("sched")
ST = plan("steps")
CY = plan("cyc")
RA = plan("race")
CC = plan("conc")
S = plan("solve")
R = plan("rhost")
LT = plan("langtext")
LH = plan("langhost")
NUM = plan("num")
TAB = plan("tab")
O = plan("opts")
OT = plan("opttext")
F = plan("front")
M = plan("model")

prop("C01", "m_sat m_vars m_api m_text values accept undo invented end_*",
     [H(500, 12000), S(500, 12000), H(200, 4000, steps=(2, 3)), H(150, 3000, cond=0.6, guardvar=0.4),
      S(300, 6000, steps=(2, 3), obj=0.5), S(200, 4000, cond=0.7, conj=0.5, nv=(3, 6))])
prop("C02", "h_* incomplete invented accept clause init_clause m_dup m_sat verdict refused accepted end_*",
     [S(900, 20000, obj=0.1), H(700, 12000, obj=0.1), H(200, 4000, obj=0.0, cond=0.5, nv=(3, 6)),
      S(300, 8000, obj=0.1, natoms=(4, 8), ncons=(4, 8)), Q(800, 30000, obj=0.0, ncons=(3, 6)),
      S(60, 1500, n=(6, 10), ncons=(8, 16), natoms=(6, 8), obj=0.1, eqrel=0.1)])
prop("C03", "clause init_clause contract incomplete h_* g_* end_*",
     [H(700, 15000, obj=0.15), H(300, 6000, obj=1.0, glob=1.0), R(400, 8000, natoms=(4, 8), ncons=(4, 8), obj=0.2),
      R(300, 6000, obj=1.0, glob=1.0, steps=(1, 2))])
prop("C04", "accept values undo clause init_clause incomplete h_* invented m_sat end_*",
     [H(600, 15000, obj=0.1), H(300, 6000, obj=0.0, nv=(4, 7), ncons=(4, 10), n=(2, 5)),
      R(500, 10000, natoms=(4, 8), ncons=(4, 8)), R(200, 5000, steps=(2, 3)),
      Q(2500, 100000, obj=0.2), ST(200, 10000, shapes=[(2, 9, 2)], obj=0.2), Q(500, 60000, obj=0.0, lits=4, len=6, n=(2, 4)),
      H(40, 1200, n=(8, 14), ncons=(16, 32), nv=(5, 7), obj=0.1), M(1, 1, module="MCSimplexA", every=(120, 4))])
prop("C05", "m_opt m_attain m_objset m_sat end_*",
     [H(500, 10000, obj=1.0, glob=0.1), S(700, 12000, obj=1.0, glob=0.1), H(300, 6000, obj=1.0, glob=0.0, strict=0.6, cond=0.4),
      S(300, 6000, obj=1.0, glob=0.0, strict=0.7, steps=(1, 3)), Q(1200, 40000, obj=1.0, eqrel=0.1),
      H(30, 1000, n=(6, 10), ncons=(10, 20), nv=(4, 6), obj=1.0, eqrel=0.05), M(1, 1, module="MCSimplexB", every=(700, 40))])
prop("C06", "m_improve m_opt m_attain g_* clause init_clause accept invented verdict end_*",
     [H(600, 12000, obj=1.0, glob=1.0), S(700, 12000, obj=1.0, glob=1.0), H(150, 4000, obj=1.0, glob=1.0, steps=(2, 3)),
      R(300, 5000, obj=1.0, glob=1.0), S(250, 5000, obj=1.0, glob=1.0, steps=(2, 3), natoms=(3, 7)), RA(300, 10000)])
prop("C07", "*",
     [H(250, 6000, threads=(2, 4), split=[0, 30, 60]), H(150, 4000, threads=(2, 3), steps=(2, 3), split=[0, 50]),
      CC(250, 5000, threads=(2, 4), split=[0, 30, 60]), CC(100, 2000, threads=(2, 3), obj=1.0, glob=1.0, steps=(1, 2)), RA(600, 20000),
      M(1, 1, module="Incumbent", env=({"INC_THREADS": "2", "INC_MODELS": "3"}, {"INC_THREADS": "2", "INC_MODELS": "4"})), S(600, 12000, threads=(2, 4), obj=0.5, glob=0.6),
      S(300, 6000, threads=(2, 4), steps=(2, 3)), R(300, 6000, threads=(2, 4), obj=0.6, glob=0.7, steps=(1, 2))])
prop("C08", "*",
     [H(500, 9000, steps=(2, 4), elsewhere=0.3), S(700, 14000, steps=(2, 4), assume=0.5, ext=0.5, elsewhere=0.2), R(300, 6000, steps=(2, 4), resolve=0.3),
      ST(900, 60000), M(1, 1, module="Steps", env=({"STEPS_LITS": "2", "STEPS_LEN": "0", "STEPS_NUM": "3"},
                                                   {"STEPS_LITS": "3", "STEPS_LEN": "0", "STEPS_NUM": "4"}))])
prop("C09", "m_sat m_vars vars refused invented incomplete h_* verdict m_opt m_attain m_objset clause init_clause accept values end_*",
     [LT(500, 14000), LT(250, 8000, obj=1.0, depth=2), LT(120, 4000, steps=(2, 3)), LT(40, 600, long=0.3, big=0.3, nvars=(1, 2), nread=(1, 2), depth=1),
      LH(700, 14000), LH(300, 8000, lists=0.6, depth=4), LT(150, 5000, strict=0.6, obj=0.4)])
prop("C10", "accepted m_malformed nomsg end_*",
     [LT(700, 10000, bad=1.0), LH(900, 14000, bad=1.0), LT(300, 5000, bad=0.6, steps=(2, 3)), LH(300, 5000, bad=0.6, lists=0.6, elsewhere=0.5),
      LT(200, 4000, bad=0.6, obj=1.0)])
prop("C11", "num_* m_sat m_text m_opt m_attain m_api values accept clause init_clause incomplete h_* invented verdict g_* end_*",
     [NUM(1500, 40000), NUM(400, 10000, big=0.1), H(400, 9000, big=1.0), S(300, 7000, big=1.0), H(150, 4000, big=1.0, strict=1.0, obj=1.0),
      S(150, 4000, big=1.0, strict=1.0, obj=1.0), LT(150, 4000, big=0.9), LH(300, 6000, big=0.9)])
prop("C12", "m_api m_text m_vars m_index vars num_show end_*",
     [H(400, 9000), S(400, 10000), H(150, 4000, steps=(2, 4)), S(200, 6000, steps=(2, 4)), H(150, 4000, strict=1.0, obj=0.6),
      S(150, 5000, strict=0.8, obj=0.6), S(120, 4000, threads=(2, 4)), LT(200, 6000), LT(100, 3000, big=0.8), R(100, 3000, threads=(1, 3)),
      NUM(400, 10000, show=1.0)])
prop("C13", "o_* accepted refused decide decide_off nobounds st_off m_malformed m_improve m_opt m_sat g_* incomplete h_* invented verdict end_*",
     [O(1500, 40000), O(500, 12000, walk=0.0, bad=0.1), O(400, 12000, walk=1.0, bad=0.1), O(400, 10000, cli=1.0),
      OT(200, 5000, strict=0.5, bad=0.2), OT(100, 3000, strict=0.5, obj=0.6)])
prop("C14", "end_*",
     [CY(450, 12000), H(500, 9000, degenerate=0.7, obj=0.6), H(400, 6000, degenerate=0.9, n=(3, 6), ncons=(6, 12), obj=0.8, maxev=150),
      S(500, 8000, degenerate=0.8, obj=0.7, n=(2, 5), ncons=(4, 9)), Q(800, 30000, degenerate=0.9, n=(3, 5), obj=0.5),
      M(1, 1, module="MCSimplexC", every=(1201, 50))])
prop("C15", "decide decide_off contract end_*",
     [H(700, 15000, opts={"select": "match"}), H(500, 9000, opts={"select": "conflict"}), H(100, 1000, opts={"select": "none"}),
      R(200, 4000, opts={"select": "match"}), R(200, 4000, opts={"select": "conflict"})])
prop("C16", "tab_* values accept clause init_clause incomplete h_* invented m_sat m_opt m_attain end_*",
     [TAB(1500, 40000), TAB(150, 4000, m=(5, 10), n=(5, 10), ops=(5, 12)), TAB(300, 8000, m=(2, 4), n=(2, 4), ops=(15, 40)),
      H(400, 9000, n=(4, 7), ncons=(6, 12), degenerate=0.4, obj=0.3), S(200, 5000, n=(3, 6), ncons=(5, 9), degenerate=0.3),
      Q(500, 20000, n=(3, 5), obj=0.3), M(1, 1, module="MCSimplexA", every=(150, 8))])
prop("C17", "st_* nobounds end_*",
     [H(400, 6000), H(300, 4000, steps=(2, 4)), H(200, 4000, threads=(2, 3), steps=(1, 3)),
      R(400, 6000, steps=(1, 3)), R(300, 6000, threads=(2, 4), steps=(1, 3)), S(200, 4000, steps=(2, 4), threads=(1, 3))])
prop("C18", "*",
     [F(350, 9000, front="cli"), F(350, 6000, front="py"), F(350, 6000, front="api"), F(100, 3000, bad=0.6),
      F(150, 4000, lang=1.0, badlang=0.5)])
prop("C19", "*",
     [H(600, 15000, strict=1.0), S(700, 15000, strict=1.0), R(200, 5000, strict=1.0, steps=(1, 2)), S(200, 4000, strict=1.0, obj=1.0),
      H(500, 10000, strict=0.5, obj=1.0, degenerate=0.9, n=(3, 6), ncons=(6, 12)), Q(800, 30000, strict=1.0, eqrel=0.1)])
MISSING = {}
