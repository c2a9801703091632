"""C22: arbitrary floating-point data.  Results are judged by spec/Float.tla (FloatTrace): the exact
result up to rounding, with integers of any size in TLA+."""
from fractions import Fraction

from vlib import BITS, FLOATS, Dom, Prog, conform, log, untext
import gens

BASE = 1024


def digits(n):
    s, n, r = (-1 if n < 0 else 1), abs(n), []
    while n:
        r.append(s * (n % BASE))
        n //= BASE
    return r


class BigDom(Dom):
    """dyadic rationals as multiples of a power of two, in digits to the base 1024"""
    trace = "FloatTrace"

    def __init__(self, mant):
        super().__init__(0)
        self.mant = mant

    def __repr__(self):
        return "multiples of 2^-k"

    def project(self, prog, obs):
        def vals(o):
            for f in ("r", "r2"):
                for row in o.get(f, ()):
                    for v in row:
                        yield untext(v)
            if isinstance(o.get("v"), (str, int)):
                yield untext(o["v"])
        scale, finite = 1, True
        for s, o in zip(prog.steps, obs):
            for v in ([v for row in s["M"] for v in row] if s["k"] == "load" else [s["s"]] if s["s"] is not None else []):
                scale = max(scale, Fraction(v).denominator)
            for v in vals(o) if o else ():
                if v is not None:
                    scale = max(scale, Fraction(v).denominator)
        pr = lambda v: digits(int(Fraction(v) * scale))
        out = [dict(op="prog", one=pr(1), up=digits(2 ** self.mant), note=prog.note)]
        for s, o in zip(prog.steps, obs):
            if s["k"] == "load":
                out.append(dict(op="load", d=s["d"], r=[[pr(v) for v in row] for row in s["M"]]))
                continue
            if o is None:
                break
            ev = dict(op=s["op"], d=s["d"], d2=s["d2"], st=o["st"], e=s["e"])
            for k in ("a", "b"):
                if s[k] >= 0:
                    ev[k] = s[k]
            if s["s"] is not None:
                ev["s"] = pr(s["s"])
            if s["approx"]:
                ev["k"] = s["approx"]
            if any(v is None for v in vals(o)):
                ev["st"] = "not finite"
            elif o["st"] == "ok":
                for f in ("r", "r2"):
                    if f in o:
                        ev[f] = [[pr(untext(v)) for v in row] for row in o[f]]
                if "v" in o:
                    ev["v"] = pr(untext(o["v"]))
            out.append(ev)
        return out


def prog(ty, note=""):
    return Prog(ty, doms=[BigDom(BITS[ty])], note=note)


def number(g, ty, lo=-3, hi=3, any_sign=True):
    """a number with all the bits of its type"""
    b = BITS[ty]
    m = g.r.randrange(2 ** (b - 1), 2 ** b)
    if g.r.random() < 0.15:
        m = g.r.choice((2 ** (b - 1), 2 ** b - 1, 2 ** (b - 1) + 1, g.r.randrange(1, 16) << (b - 4)))
    v = m * Fraction(2) ** (g.r.randrange(lo, hi + 1) - b)
    return -v if any_sign and g.r.random() < 0.5 else v


def matrix(g, ty, R, C, lo=-3, hi=3, zeros=0.0):
    return [[0 if g.r.random() < zeros else number(g, ty, lo, hi) for _ in range(C)] for _ in range(R)]


def rounded(ty, f):
    """the element of the type next to f"""
    f = Fraction(f)
    if f == 0:
        return 0
    e = BITS[ty] - (abs(f.numerator).bit_length() - f.denominator.bit_length())
    m = round(f * Fraction(2) ** e)
    while abs(m) >= 2 ** BITS[ty]:
        e -= 1
        m = round(f * Fraction(2) ** e)
    return m * Fraction(1, 2) ** e if e >= 0 else m * Fraction(2) ** -e


def definite(g, ty, n):
    """symmetric and positive definite, entries rounded to the type, well away from singular"""
    L = [[number(g, ty, -1, 0, False) + 1 if i == j else number(g, ty, -2, 0) if j < i else 0 for j in range(n)] for i in range(n)]
    A = [[rounded(ty, sum(L[i][k] * L[j][k] for k in range(n))) for j in range(n)] for i in range(n)]
    return [[A[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]


def growth(A):
    """how much larger than A the factors of an elimination without pivoting get, by rows"""
    n = len(A)
    U = [[float(v) for v in row] for row in A]
    s0 = [sum(map(abs, row)) for row in U]
    M = [[0.0] * n for _ in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if U[r][c] != 0), None)
        if p is None:
            return float("inf")
        U[c], U[p], M[c], M[p], s0[c], s0[p] = U[p], U[c], M[p], M[c], s0[p], s0[c]
        for r in range(c + 1, n):
            f = M[r][c] = U[r][c] / U[c][c]
            U[r] = [x - f * y for x, y in zip(U[r], U[c])]
            U[r][c] = 0.0
    tot = [sum(map(abs, row)) for row in U]
    return max((tot[i] + sum(abs(M[i][k]) * tot[k] for k in range(i))) / s0[i] for i in range(n))


def tame(A):
    """elimination of A, and of the minors inv needs, loses few digits"""
    n = len(A)
    minors = [[[v for j, v in enumerate(row) if j != q] for i, row in enumerate(A) if i != p] for p in range(n) for q in range(n)] if n > 4 else []
    return all(growth(X) <= 64 for X in [A] + minors)


SHAPES = ((2, 3), (3, 2), (1, 5), (4, 1), (2, 2), (3, 3), (1, 17), (9, 1), (4, 5), (1, 1), (7, 7), (3, 9))
PRODUCTS = ((2, 2, 2), (2, 3, 2), (3, 3, 3), (1, 6, 1), (4, 2, 3), (1, 1, 4), (5, 1, 2), (2, 12, 1), (4, 4, 4), (1, 33, 1), (2, 17, 2), (6, 5, 3), (3, 9, 1), (1, 4, 8))
CONVS = ((3, 3), (1, 3), (3, 1), (4, 5), (2, 2), (5, 4), (1, 1), (3, 8), (6, 3), (7, 7))
STATS = ((1, 1), (1, 2), (2, 2), (3, 3), (1, 7), (5, 2), (4, 4), (2, 6), (3, 8), (6, 6), (1, 33), (17, 1), (3, 5), (8, 4), (2, 1), (9, 11))


def gen_C22(g):
    T = g.thorough
    progs = []
    n_of = lambda a, b: b if T else a
    for ty in FLOATS:
        # element by element: one rounding each, at any magnitude
        for R, C in SHAPES[:n_of(10, 99)] * n_of(1, 4):
            lo, hi = g.r.choice(((-3, 3), (-20, 20), (0, 1), (20, 24), (-30, -26)))
            q = prog(ty).load(0, matrix(g, ty, R, C, lo, hi, 0.1)).load(1, matrix(g, ty, R, C, lo, hi, 0.1))
            for op in ("sum", "add", "sub", "minus"):
                q.call(op, a=0, b=1)
            for op in ("sums", "adds", "sadd", "subs", "minuss", "mults", "muls", "smul", "div", "divop"):
                q.call(op, a=g.r.choice((0, 1)), s=number(g, ty, lo, hi))
            q.call("abs", a=0).call("inc", a=0).call("dec", a=1)
            q.call("sum", a=2, b=0, d=4).call("sub", a=4, b=1, d=4).call("mults", a=4, s=number(g, ty), d=4).call("add", a=4, b=4)
            progs.append(q)
        # products
        for n, m, p in PRODUCTS * n_of(1, 4):
            lo, hi = g.r.choice(((-3, 3), (-12, 12), (0, 0), (-2, -1)))
            q = prog(ty).load(0, matrix(g, ty, n, m, lo, hi, 0.1)).load(1, matrix(g, ty, m, p, lo, hi, 0.1))
            q.call("mult", a=0, b=1).call("mul", a=0, b=1)
            if n == m == p == 2:
                q.call("strassen", a=0, b=1)
            if n == m == p and n <= 3:
                q.call("mul", a=2, b=0, d=4).call("trans", a=4, d=5).call("mult", a=5, b=1)
                for e in (0, 1, 2, 3, 5):
                    q.call("pow", a=0, e=e)
            progs.append(q)
        for R, C in CONVS[:n_of(8, 99)] * n_of(1, 3):
            lo, hi = g.r.choice(((-3, 3), (-10, 10), (0, 0)))
            q = prog(ty).load(0, matrix(g, ty, R, C, lo, hi)).load(1, matrix(g, ty, 3, 3, lo, hi)).call("conv", a=0, b=1).call("convf", a=0, b=1)
            if R >= 3 and C >= 3:
                q.call("convv", a=0, b=1)
            progs.append(q)
        # determinants and inverses: closed forms keep nearly all digits, elimination may lose some
        for n in (1, 2, 3, 4, 5):
            todo = n_of(6 if n < 5 else 3, 30 if n < 5 else 12)
            while todo:
                A = matrix(g, ty, n, n, -1, 1, 0.15 if n > 2 else 0)
                if g.r.random() < 0.3:
                    A = [[rounded(ty, v * Fraction(2) ** (3 * i - 2)) for v in row] for i, row in enumerate(A)]
                d = gens.det(A)
                s = [sum(map(abs, row)) for row in A]
                pr = Fraction(1)
                for x in s:
                    pr *= x
                if d == 0 or abs(d) < pr / (1000 if n < 5 else 20000) or n > 3 and not tame(A):
                    continue
                todo -= 1
                K = 8 * n if n <= 3 else 2 ** 13
                q = prog(ty).load(0, A).call("det", a=0, approx=K)
                if n <= 4 or todo % 2 == 0:
                    q.call("inv", a=0, approx=K).call("pow", a=0, e=-1, approx=K)
                progs.append(q)
        for n in (1, 2, 3, 4, 5):
            for k in range(n_of(5, 25)):
                A = matrix(g, ty, n, n, -1, 1)
                if g.r.random() < 0.4:               # small leading elements: big multipliers
                    A[0][0] = A[0][0] * Fraction(1, 2 ** g.r.randrange(1, 9))
                q = prog(ty).load(0, A).call("lu", a=0, d=2, d2=3)
                progs.append(q)
                progs.append(prog(ty).load(0, definite(g, ty, n)).call("chol", a=0))
        # statistics
        for R, C in STATS[:n_of(13, 99)] * n_of(1, 3):
            lo, hi = g.r.choice(((-3, 3), (0, 0), (-8, 8), (5, 6)))
            for far in (False, True):
                A = matrix(g, ty, R, C, lo, hi)
                if far:                              # close together, far from the origin
                    c = Fraction(2) ** g.r.randrange(3, 12) + 1
                    A = [[rounded(ty, c + v) for v in row] for row in A]
                progs.append(prog(ty).load(0, A).call("mean", a=0).call("median", a=0).call("var", a=0).call("stddev", a=0))
    return progs


def run(g, tier, outc, work):
    progs = gen_C22(g)
    log("C22: %d programs, %d calls" % (len(progs), sum(len(p.keys()) for p in progs)))
    conform(outc, work, progs)
