"""Random programs for the register machine of harness/num.cc."""
import random
from fractions import Fraction as Fr
from math import gcd

from gen import rat

LIM = 2 ** 63 - 1


def interesting(rng, big):
    """An integer, often near a word boundary."""
    r = rng.random()
    if r < 0.35:
        v = rng.randint(-6, 6)
    elif r < 0.35 + 0.5 * big:
        e = rng.choice([15, 30, 31, 32, 61, 62, 63, 64, 65, 126, 127, 128, 200])
        v = rng.choice([1, -1]) * (2 ** e) + rng.choice([-2, -1, 0, 0, 1, 2])
    elif r < 0.95:
        v = rng.randint(-10 ** 5, 10 ** 5)
    else:
        v = rng.choice([1, -1]) * rng.getrandbits(rng.choice([70, 140, 400]))
    return v


def gen_num(seed, over=None, n=25):
    rng = random.Random(seed)
    big = (over or {}).get("big", 1.0)
    n = (over or {}).get("ops", n)
    show = (over or {}).get("show", 0.04)
    m = {"I": [Fr(0)] * 4, "R": [Fr(0)] * 4, "Q": [(Fr(0), Fr(0))] * 4}
    ops = []
    pool = [interesting(rng, big) for _ in range(4)]

    def val():
        """Related numbers make equal and neighbouring values likely."""
        r = rng.random()
        if r < 0.5:
            return rng.choice(pool) + rng.choice([0, 0, 0, 1, -1])
        return interesting(rng, big)

    def reg():
        return rng.randint(1, 3)

    def small(v):
        return -LIM - 1 <= v <= LIM

    def size(v):
        return max(abs(v.numerator), v.denominator).bit_length()

    def fixed():
        while True:
            v = val()
            if small(v):
                return v

    def asq(t, j, v):
        if t == "F":
            return (Fr(v), Fr(0))
        return m["Q"][j] if t == "Q" else (m[t][j], Fr(0))

    def put(t, d, q):
        if t == "Q":
            m["Q"][d] = q
        else:
            m[t][d] = q[0]

    def emit(**k):
        ops.append(k)

    while len(ops) < n:
        if rng.random() < show:
            # few distinct values: signs, units and denominators matter
            c, k = (rng.choice([Fr(rng.randint(-3, 3)), Fr(rng.randint(-9, 9), rng.randint(1, 4)), Fr(val(), abs(val()) or 1)])
                    for _ in range(2))
            v = Fr(val())
            emit(o="show", s=str(v), c=str(c), k=str(k), vs=rat(v), vc=rat(c), vk=rat(k))
            continue
        o = rng.choice(["set"] * 6 + ["bin"] * 12 + ["cmp"] * 6 + ["neg", "neg", "copy", "swap", "gcd", "gcddiv", "divide", "addmul", "addmul",
                        "asint", "num", "den", "asrat", "q", "q", "ratnd", "mk"])
        t = rng.choice("IRRQQ")
        d, a, b = reg(), reg(), reg()
        if o == "set":
            k = rng.choice(["int", "inti", "rat", "rati"])
            if k == "int":
                v = Fr(val())
                emit(o=k, d=d, s=str(v), v=rat(v))
                m["I"][d] = v
            elif k == "rat":
                v = Fr(val(), abs(val()) or 1)
                emit(o=k, d=d, s=str(v), v=rat(v))
                m["R"][d] = v
            else:
                v = Fr(fixed())
                emit(o=k, d=d, s=str(v), v=rat(v))
                m["I" if k == "inti" else "R"][d] = v
        elif o in ("ratnd", "mk"):
            if m["I"][b] == 0:
                continue
            v = m["I"][a] / m["I"][b]
            emit(o=o, d=d, a=a, b=b)
            m["R"][d] = v
        elif o == "q":
            emit(o=o, d=d, a=a, b=b)
            m["Q"][d] = (m["R"][a], m["R"][b])
        elif o == "copy":
            emit(o=o, t=t, d=d, a=a)
            m[t][d] = m[t][a]
        elif o == "swap":
            emit(o=o, t=t, a=a, b=b)
            m[t][a], m[t][b] = m[t][b], m[t][a]
        elif o == "neg":
            f = rng.choice("fm") if t != "Q" else "f"
            if f == "m":
                a = d
            emit(o=o, t=t, f=f, d=d, a=a)
            q = asq(t, a, None)
            put(t, d, (-q[0], -q[1]))
        elif o in ("bin", "cmp"):
            bt = rng.choice({"I": "FI", "R": "FIR", "Q": "FIRQ"}[t])
            k = dict(o=o, t=t, bt=bt, a=a, b=b)
            v = None
            if bt == "F":
                v = fixed()
                k.update(s=str(v), v=rat(Fr(v)))
            x, y = asq(t, a, None), asq(bt, b, v)
            if o == "bin":
                p = rng.choice({"I": "+-*", "R": "+-*/", "Q": "+-" if bt == "Q" else "+-*/"}[t])
                f = rng.choice("cma")
                if f == "a":
                    d = a
                if p == "/" and y[0] == 0:
                    continue
                q = ((x[0] + y[0], x[1] + y[1]) if p == "+" else (x[0] - y[0], x[1] - y[1]) if p == "-" else
                     (x[0] * y[0], x[1] * y[0]) if p == "*" else (x[0] / y[0], x[1] / y[0]))
                if size(q[0]) > 2500 or size(q[1]) > 2500:
                    continue
                k.update(op=p, f=f, d=d)
                put(t, d, q)
            emit(**k)
        elif o == "gcd":
            emit(o=o, d=d, a=a, b=b)
            m["I"][d] = Fr(gcd(int(m["I"][a]), int(m["I"][b])))
        elif o == "gcddiv":
            if m["I"][a] == 0 and m["I"][b] == 0:
                continue
            emit(o=o, a=a, b=b)
        elif o == "divide":
            if m["I"][a] == 0:
                continue
            x = m["I"][d] / m["I"][a]
            if x.denominator != 1:
                continue
            emit(o=o, d=d, a=a)
            m["I"][d] = x
        elif o == "addmul":
            x = m["I"][d] + m["I"][a] * m["I"][b]
            if size(x) > 2500:
                continue
            emit(o=o, f=rng.choice("cm"), d=d, a=a, b=b)
            m["I"][d] = x
        elif o == "asint":
            emit(o=o, a=a)
        elif o in ("num", "den"):
            emit(o=o, d=d, a=a)
            v = m["R"][a]
            m["I"][d] = Fr(v.numerator if o == "num" else v.denominator)
        elif o == "asrat":
            emit(o=o, d=d, a=a)
            if m["Q"][a][1] == 0:
                m["R"][d] = m["Q"][a][0]
    return {"ops": ops}
