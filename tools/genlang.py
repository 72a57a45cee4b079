"""Random programs about the constraint language: what terms mean and what is refused.

Terms are drawn from the whole grammar; what they denote is left to
spec/Lang.tla.  Most atoms read back the value of a term whose variables are
pinned.  Some programs contain one malformed atom.
"""
import random
import sys
from fractions import Fraction as Fr

import gen
import gensolve

sys.set_int_max_str_digits(0)

DEFAULT = dict(nvars=(2, 5), nread=(2, 5), depth=3, bad=0.0, strict=0.3, obj=0.25, choices=(0, 3), steps=(1, 1),
               big=0.1, lists=False, long=0.0)


class G:
    def __init__(self, rng, w):
        self.rng = rng
        self.w = w
        self.vars = []
        self.fresh_no = 0

    # ------------------------------------------------ numbers
    def atomic_num(self):
        """(tree, value) of a number or a decimal string."""
        rng = self.rng
        r = rng.random()
        if r < 0.5:
            v = rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 10, 12])
            return v, Fr(v)
        if r < 0.5 + 0.1 * (self.w["big"] > 0):
            v = rng.choice([2 ** 31 - 1, 10 ** 9, 65536])
            return v, Fr(v)
        # decimal strings with leading and trailing zeros
        ip = rng.choice(["0", "00", "1", "2", "03", "10", "100", "7", "20"])
        if rng.random() < self.w["big"]:
            if rng.random() < self.w["long"]:
                ip = "0" * 60000 + str(rng.randint(0, 99))
            else:
                ip = str(rng.choice([2 ** 31, 2 ** 62, 2 ** 63 - 1, 2 ** 64, 10 ** 21 + 3]))
        s = ip
        if rng.random() < 0.75:
            fp = rng.choice(["5", "50", "25", "0", "00", "05", "10", "500", "125", "001", "3", "70", "0100", "2"])
            if rng.random() < self.w["big"]:
                if rng.random() < self.w["long"]:
                    fp = str(rng.randint(10, 99)) + "0" * 60000
                else:
                    fp = rng.choice(["000000000000000000001", "123456789012345678901", "333333333333", "1000000000000000000000"])
            s += "." + fp
        if rng.random() < 0.3:
            s = "-" + s
        return ["s", '"%s"' % s], Fr(s)

    def num(self, d):
        """(tree, value) of an evaluated numeric term."""
        rng = self.rng
        if d <= 0 or rng.random() < 0.4:
            return self.atomic_num()
        o = rng.choice("+-*/u")
        a, x = self.num(d - 1)
        if o == "u":
            return ["f", "-", [a]], -x
        b, y = self.num(d - 1)
        if o == "/" and y == 0:
            o = "+"
        v = x + y if o == "+" else x - y if o == "-" else x * y if o == "*" else x / y
        return ["f", o, [a, b]], v

    def nonzero(self, d):
        while True:
            t, v = self.num(d)
            if v != 0:
                return t, v

    def int_spelling(self, v, d=2):
        """A term that evaluates to the integer v without strings."""
        rng = self.rng
        if v == -2 ** 31:
            return ["f", "-", [["f", "-", [2 ** 31 - 1]], 1]]
        if d <= 0 or abs(v) > 10 ** 6 or rng.random() < 0.5:
            return v if v >= 0 else ["f", "-", [-v]]
        o = rng.choice("+-*/u")
        k = rng.randint(1, 4)
        if o == "+":
            return ["f", "+", [self.int_spelling(v - k, d - 1), self.int_spelling(k, d - 1)]]
        if o == "-":
            return ["f", "-", [self.int_spelling(v + k, d - 1), self.int_spelling(k, d - 1)]]
        if o == "*":
            if v % k == 0:
                return ["f", "*", [self.int_spelling(v // k, d - 1), self.int_spelling(k, d - 1)]]
            return ["f", "*", [self.int_spelling(v, d - 1), 1]]
        if o == "/":
            if rng.random() < 0.3:
                # an integer through fractions
                return ["f", "*", [["f", "/", [self.int_spelling(v, d - 1), k]], k]]
            return ["f", "/", [self.int_spelling(v * k, d - 1), k]]
        return ["f", "-", [self.int_spelling(-v, d - 1)]]

    # ------------------------------------------------ variables
    def new_arg(self, d):
        """An argument in canonical form: int, or a tree."""
        rng = self.rng
        r = rng.random()
        if r < 0.45:
            v = rng.choice([0, 1, 2, 3, -1, -2, 10])
            if rng.random() < 0.05:
                v = rng.choice([2 ** 31 - 1, -2 ** 31 + 1, -2 ** 31])
            return v
        if r < 0.65 or d <= 0:
            return ["s", rng.choice(["a", "b", "xx", "uu", '"1.5"', '"2"', '"s t"', '"-1"', r'"a\nb"', r'"\\"', r'"\"q\""', r'"\\n"'])]
        if r < 0.75:
            return ["f", "-", [["s", rng.choice(["a", "b"])]]]
        if r < 0.8:
            return ["f", "-", [["f", "f", [self.new_arg(d - 1)]]]]
        if r < 0.9:
            return ["t", [self.new_arg(d - 1) for _ in range(rng.choice([0, 1, 2, 3]))]]
        return ["f", rng.choice("fgh"), [self.new_arg(d - 1) for _ in range(rng.randint(1, 2))]]

    def new_var(self):
        rng = self.rng
        self.fresh_no += 1
        r = rng.random()
        n = "v%d" % self.fresh_no
        if r < 0.3:
            return ["s", n]
        if r < 0.38:
            # strings that are almost numbers
            k = self.fresh_no
            return ["s", '"%s"' % rng.choice(["--%d" % k, "---%d" % k, "--%d.5" % k, "%d." % k, ".%d" % k, "-.%d" % k, "%d.%d.%d" % (k, k, k),
                                              "+%d" % k, "-+%d" % k, "%d-" % k, "%d " % k, " %d" % k, "- %d" % k, "%d/%d" % (k, k + 1),
                                              "%de%d" % (k, k), "0x%d" % k, "%d,5" % k, "%d..%d" % (k, k + 1), "%d-1" % k])]
        if r < 0.5:
            return ["s", '"%s"' % rng.choice([n, n + " 1", "1." + n, "1.5.%d" % self.fresh_no, "-" + n, "+%d" % self.fresh_no,
                                              "." + str(self.fresh_no), "%d." % self.fresh_no, " %d" % self.fresh_no,
                                              "%de3" % self.fresh_no, "1/%d" % self.fresh_no, "--%d" % self.fresh_no,
                                              n + r"\n", r"\\" + n, r"\"" + n, n + r"\\n", r"\\\"" + n])]
        if r < 0.8:
            return ["f", rng.choice(["f", "p"]), [self.new_arg(2) for _ in range(rng.randint(0, 1))] + [self.fresh_no]]
        return ["t", [self.fresh_no] + [self.new_arg(2) for _ in range(rng.choice([0, 1, 2]))]]

    def spell(self, t, top=True):
        """Another spelling of a variable."""
        if isinstance(t, int):
            return self.int_spelling(t)
        if t[0] == "s":
            if not top and t[1][0] != '"' and self.rng.random() < 0.05:
                return ["f", "-", [["f", "-", [t]]]]
            return t
        if t[0] == "t":
            return ["t", [self.spell(a, False) for a in t[1]]]
        return ["f", t[1], [self.spell(a, False) for a in t[2]]]

    def var(self):
        return self.spell(self.rng.choice(self.vars))

    # ------------------------------------------------ linear terms
    def lin(self, d):
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < 0.25:
            return self.var() if rng.random() < 0.7 else self.num(1)[0]
        o = rng.choice("++--**/u")
        if o in "+-":
            return ["f", o, [self.lin(d - 1), self.lin(d - 1)]]
        if o == "*":
            # a constant factor, possibly a sum of constants
            p = [self.num(d - 1)[0], self.lin(d - 1)]
            if rng.random() < 0.4:
                p.reverse()
            return ["f", "*", p]
        if o == "/":
            return ["f", "/", [self.lin(d - 1), self.nonzero(1)[0]]]
        return ["f", "-", [self.lin(d - 1)]]

    # ------------------------------------------------ faults
    def bad_num(self):
        """Not a number, to be used where a number is needed."""
        rng = self.rng
        v = self.var()
        return rng.choice([v, ["f", "/", [1, 0]], ["f", "/", [self.num(1)[0], ["f", "-", [1, 1]]]], ["f", "+", [v, 1]],
                           ["f", "*", [2, v]], ["f", "-", [["t", [1, 2]]]], ["t", [1, 2]], ["s", '"1.x"'], ["s", '"1."'],
                           ["s", '""'], ["s", '"-"'], ["f", "f", [1]], ["f", "/", [1, ["s", '"0.00"']]],
                           ["f", "-", [["s", '"abc"']]]] + ([["l", [1]]] if self.w["lists"] else []))

    def bad_arg(self):
        rng = self.rng
        a = ["s", "a"]
        return rng.choice([["f", "/", [1, 2]], ["f", "+", [["s", '"1"'], 1]], ["f", "+", [a, 1]], ["f", "*", [2, a]],
                           ["f", "/", [1, 0]], ["f", "/", [a, 0]], ["f", "-", [["s", '"abc"']]], ["f", "-", [["t", [1, 2]]]],
                           ["f", "+", [2 ** 31 - 1, 1]], ["f", "-", [["f", "-", [2 ** 31 - 1]], 2]],
                           ["f", "*", [65536, 65536]], ["f", "f", [["f", "/", [3, 2]]]], ["t", [["f", "/", [3, 2]], 1]],
                           ["f", "-", [["t", []]]], ["f", "/", [2, 4]], ["f", "-", [["f", "g", [["f", "/", [1, 3]]]]]],
                           ["f", "*", [["f", "*", [2 ** 31 - 1, 2 ** 31 - 1]], 8]]] +
                          ([["l", [1, 2]], ["f", "g", [["l", []]]]] if self.w["lists"] else []))

    def bad_lin(self, d=2):
        """A term that is not linear; the fault may be anywhere in it."""
        rng = self.rng
        v, u = self.var(), self.var()
        if d > 0 and rng.random() < 0.5:
            b = self.bad_lin(d - 1)
            g = self.lin(1)
            n = self.nonzero(1)[0]
            return rng.choice([["f", "+", [g, b]], ["f", "+", [b, g]], ["f", "-", [g, b]], ["f", "-", [b]],
                               ["f", "*", [n, b]], ["f", "*", [b, n]], ["f", "/", [b, n]]])
        n = self.nonzero(1)[0]
        return rng.choice([
            ["f", "*", [v, u]], ["f", "*", [v, ["f", "+", [u, n]]]], ["f", "*", [["f", "+", [n, v]], u]],
            ["f", "*", [["f", "*", [n, v]], ["f", "/", [u, n]]]], ["f", "*", [["f", "-", [v]], u]],
            ["f", "/", [n, v]], ["f", "/", [u, v]], ["f", "/", [v, 0]], ["f", "/", [v, ["f", "-", [n, n]]]],
            ["f", "/", [n, 0]], ["f", "/", [v, ["s", '"0.0"']]], ["f", "/", [0, 0]], ["f", "/", [v, ["f", "*", [0, n]]]],
            ["f", "/", [v, ["f", "/", [n, 0]]]], ["f", "/", [v, self.bad_num()]], ["f", "/", [v, ["f", "+", [u, n]]]],
            ["f", "f", [self.bad_arg()]], ["f", "f", [1, self.bad_arg()]], ["t", [self.bad_arg(), 1]],
            ["t", [1, self.bad_arg()]], ["f", "h", [["f", "f", [self.bad_arg()]]]],
            ["f", "..", [1, 2]], ["f", "f", [["f", "..", [1, 2]]]], ["t", [v, ["f", "..", [1, 2]]]],
        ] + ([["l", [v]], ["l", []]] if self.w["lists"] else []))


def gen_lang(seed, over=None, opts=None):
    rng = random.Random(seed)
    w = dict(DEFAULT)
    w.update(over or {})
    g = G(rng, w)
    strict = rng.random() < w["strict"]
    rels = ["<=", ">=", "="] + (["<", ">"] if strict else [])
    nsteps = rng.randint(*w["steps"])
    has_bad = rng.random() < w["bad"]
    bad_step = rng.randrange(nsteps) if has_bad else -1
    names = ["c%d" % i for i in range(9)]
    next_atom = 2
    name_of = {}
    choices = []
    data = []
    steps = []
    has_obj = rng.random() < w["obj"]
    seen = []
    res = 0
    for k in range(nsteps):
        prog, rules, atoms, ords, alls = [], [], [], [], []
        for _ in range(rng.randint(*w["choices"]) if k == 0 else rng.randint(0, 1)):
            if len(choices) >= 4:
                break
            a = next_atom
            next_atom += 1
            name_of[a] = names.pop(0)
            choices.append(a)
            ords.append(a)
            rules.append(dict(k="c", h=[a], p=[], m=[]))
            prog.append("{ %s }." % name_of[a])

        def lit_text(l):
            return name_of[l] if l > 0 else "not " + name_of[-l]

        # gringo drops what depends on atoms earlier steps have made false; a fault has to stay
        first_choice = len(choices) - len(ords)

        def a_cond(p, faulty=False):
            cs = choices[first_choice:] if faulty else choices
            if cs and rng.random() < p:
                return rng.choice([1, 1, -1]) * rng.choice(cs)
            return 1

        def elem(t, c=1):
            return tuple_elem([t], c)

        def tuple_elem(ts, c=1):
            e = {"t": list(ts)}
            if c != 1:
                e["c"] = c
            return e

        def put(atom, fact=None, faulty=False):
            """Add an atom and a rule for it."""
            nonlocal next_atom
            es, keys = [], set()
            for e in atom["elems"]:
                key = repr([gensolve.norm(t) for t in e["t"]])
                if key not in keys:
                    keys.add(key)
                    es.append(e)
            atom["elems"] = es
            txt = "&%s{ %s }" % (atom["name"][1], " ; ".join(
                ", ".join(gensolve.text(rng, t) for t in e["t"]) +
                (" : " + lit_text(e["c"]) if e.get("c", 1) != 1 else " :" if not e["t"] else "") for e in es))
            if "guard" in atom:
                txt += " %s %s" % (atom["guard"][0], gensolve.text(rng, atom["guard"][1], 1))
            if any(gensolve.may_coincide(atom, x) for x in seen):
                return
            seen.append(dict(atom))
            if atom["lit"] is None:
                l = next_atom
                next_atom += 1
                atom["lit"] = l
                alls.append(l)
                c = 1 if fact else a_cond(0.4, faulty)
                p, m = ([c], []) if c > 1 else ([], [-c]) if c < 0 else ([], [])
                rules.append(dict(k="n", h=[l], p=p, m=m))
                txt += " :- " + lit_text(c) if c != 1 else ""
            prog.append(txt + ".")
            atoms.append(atom)

        # variables with known values
        for _ in range(rng.randint(*w["nvars"]) if k == 0 else rng.randint(0, 1)):
            v = g.new_var()
            g.vars.append(v)
            c, _ = g.num(1)
            r = rng.random()
            if r < 0.55:
                put({"name": ["s", "sum"], "lit": None, "elems": [elem(g.spell(v))], "guard": ["=", c]}, True)
            elif r < 0.75:
                put({"name": ["s", "dom"], "lit": None, "elems": [elem(["f", "..", [c, c]])], "guard": ["=", g.spell(v)]}, True)
            elif r < 0.95:
                put({"name": ["s", "diff"], "lit": None, "elems": [elem(["f", "-", [g.spell(v), c]])],
                     "guard": ["=", rng.choice([0, ["s", '"0.0"'], ["f", "-", [1, 1]]])]}, True)
        # readers
        nread = rng.randint(*w["nread"])
        bad_at = rng.randrange(nread) if k == bad_step else -1
        for i in range(nread):
            if i == bad_at:
                put_bad(rng, g, w, lambda a: put(a, None, True), elem, tuple_elem, lambda p: a_cond(p, True), rels, strict)
                continue
            res += 1
            rv = ["s", "res%d" % res]
            r = rng.random()
            if r < 0.62:
                es = [elem(g.lin(w["depth"]), a_cond(0.25)) for _ in range(rng.choice([1, 1, 1, 2, 3, 0]))]
                q = rng.random()
                if q < 0.5:
                    guard = ["=", rv]
                elif q < 0.75:
                    # the value is read from the other side
                    es.append(elem(["f", "-", [rv]]))
                    guard = ["=", g.lin(w["depth"])]
                elif q < 0.85:
                    guard = ["=", ["f", "+", [rv, g.lin(1)]]]
                else:
                    guard = [rng.choice(rels), g.lin(2)]
                put({"name": ["s", "sum"], "lit": None, "elems": es, "guard": guard})
            elif r < 0.85:
                part = lambda: g.var() if rng.random() < 0.65 else g.num(2)[0]
                q = rng.random()
                if q < 0.45:
                    t, guard = ["f", "-", [part(), part()]], ["=", ["f", "*", [g.nonzero(1)[0], rv]]]
                elif q < 0.85:
                    t, guard = ["f", "-", [rv, part()]], ["=", g.lin(2)]
                else:
                    t, guard = ["f", "-", [part(), part()]], [rng.choice(rels), g.lin(2)]
                put({"name": ["s", "diff"], "lit": None, "elems": [elem(t)], "guard": guard})
            else:
                lo, x = g.num(2)
                hi, y = g.num(2)
                if x > y:
                    lo, hi = hi, lo
                q = rng.random()
                put({"name": ["s", "dom"], "lit": None, "elems": [elem(["f", "..", [lo, lo if q < 0.6 else hi]])],
                     "guard": ["=", rv if q < 0.85 else g.var()]})
        if has_obj and k == 0:
            vs = rng.sample(g.vars, rng.randint(1, min(3, len(g.vars))))
            es = []
            for v in vs:
                t = g.spell(v)
                if rng.random() < 0.5:
                    t = ["f", "*", [g.nonzero(2)[0], t]]
                if rng.random() < 0.3:
                    t = ["f", "/", [t, g.nonzero(1)[0]]]
                if rng.random() < 0.3:
                    t = ["f", "-", [t]]
                if rng.random() < 0.3:
                    n = g.num(1)[0]
                    t = ["f", "-", [["f", "+", [t, n]], n]]
                es.append(elem(t, a_cond(0.25)) if not ("f" == t[0] and t[1] == "-" and len(t[2]) == 2) else elem(t))
            put({"name": ["s", rng.choice(["minimize", "maximize"])], "lit": 0, "elems": es})
        rng.shuffle(prog)
        steps.append({"program": "\n".join(prog)})
        data.append(dict(rules=rules, atoms=atoms, ord=[[name_of[a], a] for a in ords], all=ords + alls, ext=[], assume=[]))
    copts = [["strict", "yes" if strict else "no"], ["store", rng.choice(["no", "partial", "total"])],
             ["propagate-bounds", rng.choice(["none", "changed", "full"])],
             ["propagate-conflicts", rng.choice(["yes", "no"])], ["select", rng.choice(["none", "match", "conflict"])]]
    return {"sc": {"args": ["0", "--sat-prepro=no"], "opts": copts, "steps": steps},
            "me": {"cols": [], "strict": strict, "glob": False, "threads": 1, "select": copts[4][1],
                   "bounds": copts[2][1] != "none", "gstep": [[0, 1], [0, 1]], "steps": data}}


def put_bad(rng, g, w, put, elem, tuple_elem, a_cond, rels, strict):
    """One atom that does not denote a linear constraint."""
    S = {"name": ["s", "sum"], "lit": None}
    D = {"name": ["s", "diff"], "lit": None}
    I = {"name": ["s", "dom"], "lit": None}
    O = {"name": ["s", rng.choice(["minimize", "maximize"])], "lit": 0}
    n = lambda: g.num(1)[0]
    v, u = g.var(), g.var()
    good = [elem(g.lin(1)) for _ in range(rng.choice([0, 0, 1, 2]))]
    rel = rng.choice(rels)
    k = rng.choice("eeeegglttooDDDDIIIIII" + ("" if strict or w["lists"] else "s"))
    if k == "e":
        es = good + [elem(g.bad_lin(), a_cond(0.3))]
        rng.shuffle(es)
        put(dict(S, elems=es, guard=[rel, g.lin(1)]))
    elif k == "g":
        put(dict(rng.choice([S, S, dict(D)]), elems=[elem(["f", "-", [v, n()]])], guard=[rel, g.bad_lin()]))
    elif k == "l":
        put(dict(S, elems=good + [elem(v, a_cond(0.5))]))
    elif k == "t":
        es = good + [rng.choice([tuple_elem([g.lin(1), g.lin(1)], a_cond(0.3)), tuple_elem([], a_cond(0.9)),
                                 tuple_elem([v, 1, 2])])]
        if rng.random() < 0.25:
            put(dict(O, elems=es))
        else:
            put(dict(S, elems=es, guard=[rel, n()]))
    elif k == "o":
        if rng.random() < 0.6:
            c = g.nonzero(1)[0]
            es = rng.choice([[elem(["f", "+", [v, c]])], [elem(v), elem(c)], [elem(["f", "-", [v, c]])],
                             [elem(["f", "-", [["f", "+", [c, v]]]])], [elem(c)]])
        else:
            es = [elem(g.bad_lin(1), a_cond(0.3))]
        put(dict(O, elems=es))
    elif k == "s":
        put(dict(S, elems=good + [elem(v)], guard=[rng.choice("<>"), n()]))
    elif k == "D":
        dd = ["f", "-", [v, u]]
        c = a_cond(1)
        put(rng.choice([
            dict(D, elems=[elem(dd)]), dict(D, elems=[elem(v)], guard=[rel, n()]),
            dict(D, elems=[elem(["f", "+", [v, u]])], guard=[rel, n()]),
            dict(D, elems=[elem(["f", "-", [["f", "*", [2, v]], u]])], guard=[rel, n()]),
            dict(D, elems=[elem(["f", "-", [["f", "-", [v, u]], n()]])], guard=[rel, n()]),
            dict(D, elems=[], guard=[rel, n()]), dict(D, elems=[elem(dd), elem(["f", "-", [u, 1]])], guard=[rel, n()]),
            dict(D, elems=[tuple_elem([dd, v])], guard=[rel, n()]), dict(D, elems=[tuple_elem([])], guard=[rel, n()]),
            dict(D, elems=[elem(["f", "-", [v, ["f", "/", [u, 2]]]])], guard=[rel, n()]),
            dict(D, elems=[elem(["f", "-", [["f", "/", [1, 0]], u]])], guard=[rel, n()]),
            dict(D, elems=[elem(["f", "-", [v, ["f", "f", [g.bad_arg()]]]])], guard=[rel, n()]),
            dict(D, elems=[elem(["f", "-", [v]])], guard=[rel, n()]),
        ] + ([dict(D, elems=[elem(dd, c)], guard=[rel, n()])] if c != 1 else [])))
    else:
        a, b = g.atomic_num(), g.atomic_num()
        if a[1] > b[1]:
            a, b = b, a
        iv = ["f", "..", [a[0], b[0]]]
        c = a_cond(1)
        put(rng.choice([
            dict(I, elems=[elem(iv)]), dict(I, elems=[elem(a[0])], guard=["=", v]), dict(I, elems=[], guard=["=", v]),
            dict(I, elems=[elem(["f", "..", [g.bad_num(), b[0]]])], guard=["=", v]),
            dict(I, elems=[elem(["f", "..", [a[0], g.bad_num()]])], guard=["=", v]),
            dict(I, elems=[elem(["f", "..", [["f", "..", [a[0], b[0]]], b[0]]])], guard=["=", v]),
            dict(I, elems=[elem(iv)], guard=["=", rng.choice([3, 0, ["f", "+", [1, 1]], ["f", "-", [1]]])]),
            dict(I, elems=[elem(iv)], guard=["=", rng.choice([["f", "+", [v, u]], ["f", "*", [2, v]], ["f", "/", [v, 2]],
                                                              ["f", "f", [g.bad_arg()]], ["f", "-", [["t", [1, 2]]]]])]),
            dict(I, elems=[elem(iv)], guard=["=", ["f", "..", [1, 2]]]),
            dict(I, elems=[elem(iv)], guard=["=", ["f", "f", [["f", "..", [1, 2]]]]]),
            dict(I, elems=[elem(iv)], guard=["=", ["t", [1, ["f", "..", [1, 2]]]]]),
            dict(I, elems=[elem(iv), elem(["f", "..", [a[0], ["f", "+", [b[0], 1]]]])], guard=["=", v]),
            dict(I, elems=[tuple_elem([iv, 1])], guard=["=", v]), dict(I, elems=[tuple_elem([])], guard=["=", v]),
        ] + ([dict(I, elems=[elem(iv, c)], guard=["=", v])] if c != 1 else [])))


def gen_lang_host(seed, over=None, opts=None):
    """The same for harness/host.cc, where terms need not be expressible in text."""
    w = dict(over or {})
    w["lists"] = True
    it = gen_lang(seed, w, opts)
    rng = random.Random("%s/h" % (seed,))
    steps = []
    nv = 1
    for st in it["me"]["steps"]:
        # few literals: the specification enumerates their assignments
        nv = max([nv] + [min(6, abs(a)) for a in st["all"]])
        facts = {r["h"][0] for r in st["rules"] if r["k"] == "n" and not r["p"] and not r["m"]}
        atoms = []
        for a in st["atoms"]:
            a = dict(a)
            if a["lit"] in facts and rng.random() < 0.7:
                a["lit"] = 1
            fold = lambda l: l if abs(l) <= 6 else (2 + l % 5 if l > 0 else -2 - -l % 5)
            a["lit"] = fold(a["lit"])
            a["elems"] = [dict(e, c=fold(e["c"])) if "c" in e else e for e in a["elems"]]
            atoms.append(plus(rng, a))
        steps.append({"nvars": nv - 1, "clauses": [], "atoms": atoms})
    sc = {"seed": rng.randint(1, 10 ** 9), "strict": 1 if it["me"]["strict"] else 0,
          "opts": [o for o in it["sc"]["opts"] if o[0] != "strict"], "threads": 1, "maxev": 30, "hint": 0,
          "restart": rng.choice([0, 5, 20]), "forget": 0, "single": 0, "chrono": 0, "steps": steps}
    me = dict(it["me"])
    me.pop("steps")
    return {"sc": sc, "me": me}


def plus(rng, atom):
    """Sprinkle unary plus over sums; it is not in the grammar but understood."""
    if atom["name"][1] != "sum" or rng.random() < 0.7:
        return atom

    def f(t):
        if isinstance(t, list) and t[0] == "f" and t[1] in "+-" and len(t[2]) <= 2:
            t = ["f", t[1], [f(a) for a in t[2]]]
        return ["f", "+", [t]] if rng.random() < 0.4 else t

    a = dict(atom)
    a["elems"] = [dict(e, t=[f(t) for t in e["t"]]) for e in atom["elems"]]
    return a
