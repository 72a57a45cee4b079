"""Random systems of equations and exchanges for harness/tab.cc."""
import random
from fractions import Fraction as Fr

DEFAULT = dict(m=(1, 6), n=(1, 6), dens=(0.2, 0.9), ops=(3, 14), big=0.2, late=0.3)


def exchange(A, i, j):
    p = A[i][j]
    row = [-x / p for x in A[i]]
    row[j] = 1 / p
    for k in range(len(A)):
        if k != i and A[k][j] != 0:
            f = A[k][j]
            A[k] = [A[k][l] + f * row[l] if l != j else f * row[j] for l in range(len(row))]
    A[i] = row


def gen_tab(seed, over=None):
    w = dict(DEFAULT)
    w.update(over or {})
    rng = random.Random(seed)
    m, n = rng.randint(*w["m"]), rng.randint(*w["n"])
    dens = rng.uniform(*w["dens"])
    big = rng.random() < w["big"]
    ints = rng.random() < 0.5

    def num():
        if big and rng.random() < 0.3:
            v = rng.choice([2 ** 31, 2 ** 62, 2 ** 63, 2 ** 64 + 1, 10 ** 15, 3 ** 50])
            return Fr(rng.choice([v, -v]), rng.choice([1, 1, 7, 2 ** 40, 10 ** 9]))
        v = rng.choice([1, 1, 1, -1, -1, 2, -2, 3, -3, 5, 4, -6, 12])
        return Fr(v, 1 if ints else rng.choice([1, 1, 1, 2, 3, 4, 6]))

    A = [[Fr(0)] * n for _ in range(m)]
    ops = []
    cells = [(i, j) for i in range(m) for j in range(n)]
    if rng.random() < 0.4:
        rng.shuffle(cells)
    for i, j in cells:
        if rng.random() < dens:
            v = num()
            ops.append(["set", i + 1, j + 1, str(v)])
            A[i][j] = v
    # sometimes rows that cancel each other
    if m > 1 and rng.random() < 0.5:
        i, k = rng.sample(range(m), 2)
        f = num()
        for j in range(n):
            if A[k][j] != f * A[i][j] and rng.random() < 0.8:
                A[k][j] = f * A[i][j]
                ops.append(["set", k + 1, j + 1, str(A[k][j])])
    if not ops:
        ops.append(["set", 1, 1, "0"])
    last = None
    for _ in range(rng.randint(*w["ops"])):
        nz = [(i, j) for i in range(m) for j in range(n) if A[i][j] != 0]
        r = rng.random()
        if not nz or r < 0.1 * w["late"]:
            i, j = rng.randrange(m), rng.randrange(n)
            v = Fr(0) if rng.random() < 0.4 else num()
            ops.append(["set", i + 1, j + 1, str(v)])
            A[i][j] = v
            continue
        if r > 0.995:
            ops.append(["clear"])
            A = [[Fr(0)] * n for _ in range(m)]
            continue
        i, j = rng.choice(nz)
        if last in nz and rng.random() < 0.1:
            i, j = last
        last = (i, j)
        ops.append(["pivot", i + 1, j + 1])
        exchange(A, i, j)
        if max(max(abs(x.numerator), x.denominator).bit_length() for r_ in A for x in r_) > 1500:
            break
    return {"m": m, "n": n, "ops": ops}
