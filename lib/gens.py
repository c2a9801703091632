"""Program generators, one per property: which calling programs are executed.

A generator only chooses inputs.  Whether what the library did with them is right is
decided by TLC against spec/MatrixLib.tla (see vlib.validate)."""
import itertools
import os
from fractions import Fraction

from vlib import (BITS, COMPLEX, FLOATS, INTS, SIGNED, UNSIGNED, VERIF, P1, P2, Z, Dom, ExtDom, LineDom, ModDom, OddDom, Prog, RankDom, ShiftDom, TokDom, exact_doms, norm, rng_for)

PRIMES = (2, 3, 5, 7, 11, 13, 101, P1)
SMALL = [(r, c) for r in range(1, 9) for c in range(1, 9)]
BIG = [(1, 16), (16, 1), (1, 33), (33, 1), (9, 9), (9, 10), (10, 9), (12, 5), (5, 12), (11, 13), (16, 16), (17, 16), (16, 17),
       (2, 40), (40, 2), (17, 31), (31, 17), (24, 24), (32, 32), (3, 64), (64, 3), (1, 100), (100, 1),
       (9, 1), (1, 9), (10, 1), (1, 10), (12, 1), (1, 12), (15, 1), (1, 15), (11, 2), (2, 11), (20, 2), (2, 20), (10, 3), (3, 10), (24, 4), (4, 24), (8, 15), (15, 8), (10, 10), (13, 20)]


HUGE = [(64, 64), (65, 65), (1, 256), (256, 1), (1, 1000), (500, 2), (128, 2), (3, 130), (33, 65), (128, 17)]


class G:
    """random values"""

    def __init__(self, prop, tier, seed):
        self.r = rng_for(prop, seed)
        self.tier = tier
        self.thorough = tier == "thorough"

    # ---- scalars
    def val(self, ty, kind="small", mod=0):
        """small: tiny numbers; wide: sums stay exact; mul: products and their sums stay exact;
        wrap: anything (unsigned arithmetic wraps); frac: halves..eighths; zero: mostly zeros"""
        r = self.r
        if ty in ("gf", "coop"):
            return r.randrange(mod)
        if kind == "zero" and r.random() < 0.6:
            return 0
        if ty == "u8":
            return r.choice((0, 1, 255, 128, 127)) if r.random() < 0.2 else r.randrange(256)
        if ty == "i8":
            return r.randrange(-60, 60) if kind == "wide" else r.randrange(-9, 10)
        b = BITS[ty]
        if ty in UNSIGNED:
            if kind == "wrap":
                return r.randrange(40000 if ty == "u16" else 2 ** b)
            if kind == "wide":
                return r.randrange(2 ** (b - 2)) if r.random() < 0.7 else r.randrange(10)
            if kind == "mul":
                return r.randrange(2 ** (b // 2 - 4))
            return r.randrange(200)
        if ty in SIGNED:
            if kind == "wide":
                v = r.randrange(-2 ** (b - 3), 2 ** (b - 3))
                return v if r.random() < 0.7 else r.randrange(-9, 10)
            if kind == "mul":
                c = b // 2 - 4
                return r.randrange(-2 ** c, 2 ** c)
            return r.randrange(-9, 10)
        if ty in FLOATS:
            if kind == "wide":
                b, q = {"f32": (21, 7), "f64": (49, 21), "ld": (60, 30)}[ty]
                return Fraction(r.randrange(-2 ** b, 2 ** b), 2 ** q)
            if kind == "mul":
                b, q = {"f32": (8, 4), "f64": (22, 11), "ld": (28, 14)}[ty]
                return Fraction(r.randrange(-2 ** b, 2 ** b), 2 ** q)
            if kind == "frac":
                return Fraction(r.randrange(-64, 65), 8)
            return r.randrange(-9, 10)
        if ty in COMPLEX:
            b, q = ((9, 3) if kind in ("wide", "mul") else (3, 0))
            if ty == "c32":
                b, q = min(b, 6), min(q, 2)
            return (Fraction(r.randrange(-2 ** b, 2 ** b + 1), 2 ** q), Fraction(r.randrange(-2 ** b, 2 ** b + 1), 2 ** q))
        raise ValueError(ty)

    def mat(self, ty, R, C, kind="small", mod=0):
        return [[self.val(ty, kind, mod) for _ in range(C)] for _ in range(R)]

    def sparse(self, ty, R, C, mod=0, p=0.5, kind="small"):
        return [[self.val(ty, kind, mod) if self.r.random() < p else 0 for _ in range(C)] for _ in range(R)]

    def token(self, ty):
        """values at the edges of the type, for operations that only move them"""
        r = self.r
        if ty in FLOATS:
            b = BITS[ty]
            e = 127 if ty == "f32" else 1023
            return r.choice((0, 1, "-0.0", "inf", "-inf", None, -1, 1 + Fraction(1, 2 ** (b - 1)), (2 - Fraction(1, 2 ** (b - 1))) * Fraction(2) ** e,
                             Fraction(1, 2 ** (e - 1)), Fraction(1, 2 ** (e + b - 2)), -Fraction(3, 2 ** (e + 5)), r.randrange(2 ** (b - 1), 2 ** b), Fraction(r.randrange(-2 ** b + 1, 2 ** b), 2 ** r.randrange(60))))
        if ty in INTS:
            b = BITS[ty]
            lo, hi = (-2 ** (b - 1), 2 ** (b - 1) - 1) if ty in SIGNED else (0, 2 ** b - 1)
            return r.choice((lo, hi, 0, 1, hi - 1, lo + 1, r.randrange(lo, hi), r.randrange(lo, hi), r.randrange(lo, hi), max(lo, -1)))
        return self.val(ty, "wide")

    def tokens(self, ty, R, C):
        return [[self.token(ty) for _ in range(C)] for _ in range(R)]

    def ext(self, ty, R, C, p=0.3):
        """small integers, infinities, NaN, signed zeros"""
        r = self.r
        v = lambda: r.choice(("inf", "-inf", None, "-0.0", 0, "inf", "-inf")) if r.random() < p else r.randrange(-9, 10)
        return [[v() for _ in range(C)] for _ in range(R)]

    def prime(self):
        return self.r.choice(PRIMES)

    def prog(self, ty, kind="small", **kw):
        """a program whose domain can decide ring results over this type and kind"""
        if ty == "gf":
            return Prog("gf", mod=kw.pop("mod", 0) or self.prime(), **kw)
        kw.pop("mod", 0)
        if ty in ("u8", "i8"):
            return Prog(ty, doms=[Dom(256)], **kw)
        if ty in UNSIGNED and kind not in ("wide", "mul"):
            return Prog(ty, doms=[Dom(32768)], **kw)     # unsigned arithmetic wraps modulo 2^32
        if ty in COMPLEX:
            return Prog(ty, doms=exact_doms(ty), **kw)
        if kind in ("wide", "mul", "frac"):
            return Prog(ty, doms=exact_doms(ty), **kw)
        return Prog(ty, doms=[Z], **kw)


MAIN = ("i32", "f64", "gf", "f32", "i64", "u8", "c64", "u32")
MORE = ("u64", "i16", "ld", "i8", "u16", "c32", "lng")


def rotate(g, k, count=3, main=MAIN, more=MORE):
    """the element types used for the k-th shape: all of them in turn"""
    if g.thorough:
        return main + more
    m = [pick(main, k), pick(main, k + 1 + k // len(main)), pick(main, k + 3 + k // 5)][:count]
    return tuple(dict.fromkeys(m + [pick(more, k + k // len(more))]))


def known_finding(prop, name):
    """what KNOWN_FINDINGS.txt says about a recorded defect (None: not listed, so it is a violation)"""
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            w = line.split(None, 3)
            if len(w) == 4 and w[:3] == ["finding:", "property=" + prop, "name=" + name]:
                return w[3].strip()
    return None


def pick(seq, k):
    return seq[k % len(seq)]


# ------------------------------------------------------------------ C01
EW = ("sum", "add", "sub", "minus", "sums", "adds", "sadd", "subs", "minuss", "mults", "muls", "smul", "inc", "dec")
SCALAR = ("sums", "adds", "sadd", "subs", "minuss", "mults", "muls", "smul")


TRIPLES = ((3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (1, 0, 1), (0, 0, 0), (20, 21, 29))


def ew_program(g, ty, R, C, kind):
    """every element-wise operation of the type on fresh operands"""
    mod = g.prime() if ty == "gf" else 0
    p = g.prog(ty, kind, mod=mod)
    A, B = g.mat(ty, R, C, kind, mod), g.mat(ty, R, C, kind, mod)
    nowrap = ty in UNSIGNED and ty != "u8" and kind == "wide"
    if nowrap:                                       # keeps the differences representable
        A, B = [[max(x, y) + 10 for x, y in zip(*r)] for r in zip(A, B)], [[min(x, y) for x, y in zip(*r)] for r in zip(A, B)]
    p.load(0, A).load(1, B)
    for op in EW:
        if op in SCALAR:
            s = g.val(ty, kind, mod)
            if op in ("mults", "muls", "smul") and kind == "wide":
                s = g.r.choice((-3, -2, -1, 0, 1, 2, 3) if ty not in UNSIGNED else (0, 1, 2, 3))
            if op in ("subs", "minuss") and nowrap:
                s = g.r.randrange(10)
            p.call(op, a=0, s=s)
        elif op in ("inc", "dec"):
            p.call(op, a=0)
        else:
            p.call(op, a=0, b=1)
    out = [p]
    # absolute value: signed types; wide values through a scaled projection
    if ty in SIGNED or ty in FLOATS:
        sc = 1
        if kind == "wide":
            sc = {"i32": Fraction(1, 2), "i64": Fraction(1, 2 ** 33), "lng": Fraction(1, 2 ** 33), "f32": 256, "f64": 2 ** 20, "ld": 2 ** 40}.get(ty, 1)
        elif kind == "frac":
            sc = 8
        lim = 2 ** 16 if sc != 1 else 100
        A = [[Fraction(g.r.randrange(-lim, lim + 1)) / sc for _ in range(C)] for _ in range(R)]
        A = [[int(v) if v.denominator == 1 else v for v in row] for row in A]
        q = Prog(ty, doms=[Dom(0, scale=sc)])
        q.load(0, A).call("abs", a=0)
        out.append(q)
        if kind == "wide":                           # anything the type holds (but the smallest integer)
            lo = -2 ** (BITS[ty] - 1) if ty in SIGNED else None
            tok = lambda: (lambda x: 5 if x is None or x == lo else x)(g.token(ty))
            out.append(Prog(ty, doms=[OddDom()]).load(0, [[tok() for _ in range(C)] for _ in range(R)]).call("abs", a=0))
    if ty in COMPLEX:                                # moduli that are whole numbers
        def triple():
            a, b, _ = g.r.choice(TRIPLES)
            a, b = g.r.choice(((a, b), (b, a)))
            m = g.r.randrange(1, 40 if ty == "c32" else 100000)
            return g.r.choice((-m, m)) * a, g.r.choice((-m, m)) * b
        out.append(Prog(ty, doms=[ModDom()]).load(0, [[triple() for _ in range(C)] for _ in range(R)]).call("abs", a=0))
    # division by a non-zero scalar
    if ty not in COMPLEX:
        s = 0
        while s == 0:
            s = g.val(ty, "small", mod)
        if ty == "gf":
            q = g.prog(ty, mod=mod).load(0, g.mat(ty, R, C, kind, mod))
            q.call("div", a=0, s=s).call("divop", a=0, s=s)
        elif ty in FLOATS:                           # correctly rounded, whatever the quotient; exact by powers of two
            q = Prog(ty, doms=[Dom(P1), Dom(P2)]).load(0, [[g.r.randrange(-999, 1000) for _ in range(C)] for _ in range(R)])
            s2 = Fraction(g.r.choice((-1, 1)) * 2 ** g.r.randrange(0, 9), 2 ** g.r.randrange(0, 9))
            for op in ("div", "divop"):
                q.call(op, a=0, s=g.r.choice((-1, 1)) * g.r.choice((1, 3, 5, 7, 9, 10, 11, 13, 25, 49, 77, 99)), rnd=1).call(op, a=0, s=s, rnd=1).call(op, a=0, s=s2)
        else:
            A = g.mat(ty, R, C, "small" if kind in ("small", "wrap") or BITS[ty] <= 16 else "wide" if ty == "i32" else "mul")
            q = Prog(ty, doms=[Z]).load(0, A)
            for op in ("div", "divop"):
                q.call(op, a=0, s=s).call(op, a=0, s=s if ty != "i32" else g.r.choice((-1, 1, 1000, -77777)))
            if kind == "wide" and BITS[ty] > 16:     # exact quotients of any size
                s = g.r.randrange(2, 1000) * (g.r.choice((1, -1)) if ty in SIGNED else 1)
                q2 = Prog(ty, doms=exact_doms(ty)).load(0, [[(g.val(ty, kind) // 1000) * s for _ in range(C)] for _ in range(R)])
                out.append(q2.call("div", a=0, s=s).call("divop", a=0, s=s))
        out.append(q)
    # infinities and NaN
    if ty in FLOATS and kind == "wide":
        q = Prog(ty, doms=[ExtDom()]).load(0, g.ext(ty, R, C)).load(1, g.ext(ty, R, C))
        for op in EW:
            q.call(op, a=0, **(dict(s=g.r.choice(("inf", "-inf", "nan", 2, 0, -1, "-0.0"))) if op in SCALAR else dict(b=1) if op not in ("inc", "dec") else {}))
        q.call("abs", a=0).call("div", a=0, s=g.r.choice(("inf", "-inf", -1, 1, "nan"))).call("divop", a=0, s=g.r.choice(("inf", "-inf", -1, 1, "nan")))
        out.append(q)
    return out


def gen_C01(g):
    progs = []
    for k, (R, C) in enumerate(SMALL + BIG + HUGE):
        small = R <= 8 and C <= 8
        for ty in rotate(g, k, 3 if small else 2):
            kinds = ("small",) if ty in ("gf", "u8") else ("small", "wide") + (("frac",) if ty in FLOATS else ("wrap",) if ty in UNSIGNED else ())
            if not small and not g.thorough:
                kinds = (g.r.choice(kinds),)
            for kind in kinds:
                if kind == "wide" and ty in COMPLEX:
                    kind = "mul"
                for _ in range(2 if g.thorough else 1):
                    progs += ew_program(g, ty, R, C, kind)
    progs += sweep(g, ("sum", "sub", "sums", "subs", "mults", "div", "abs", "inc", "dec", "add", "minus", "adds", "sadd", "minuss", "muls", "smul", "divop"))
    return progs


# ------------------------------------------------------------------ matrices over Z and Z/p, for choosing inputs
def mmul(A, B, p=0):
    r = [[sum(a * b for a, b in zip(row, col)) for col in zip(*B)] for row in A]
    return [[v % p for v in row] for row in r] if p else r


def det(A, p=0):
    """exact determinant (rational elimination), or modulo p"""
    n = len(A)
    M = [[Fraction(v) if not p else v % p for v in row] for row in A]
    d = Fraction(1) if not p else 1
    for k in range(n):
        piv = next((i for i in range(k, n) if M[i][k] != 0), None)
        if piv is None:
            return 0
        if piv != k:
            M[k], M[piv] = M[piv], M[k]
            d = -d
        d = d * M[k][k]
        inv = 1 / M[k][k] if not p else pow(M[k][k], -1, p)
        for i in range(k + 1, n):
            f = M[i][k] * inv
            if f:
                M[i] = [x - f * y if not p else (x - f * y) % p for x, y in zip(M[i], M[k])]
    return d % p if p else (int(d) if d.denominator == 1 else d)


def perm_rows(g, A):
    A = list(A)
    g.r.shuffle(A)
    return A


def transpose(A):
    return [list(c) for c in zip(*A)]


def eye(n, s=1):
    return [[s if i == j else 0 for j in range(n)] for i in range(n)]


def unit_lower(g, n, lim, p=0, density=0.7):
    v = lambda: (g.r.randrange(p) if p else g.r.randrange(-lim, lim + 1)) if g.r.random() < density else 0
    return [[1 if i == j else (v() if j < i else 0) for j in range(n)] for i in range(n)]


def upper(g, n, lim, diag, p=0, density=0.7):
    v = lambda: (g.r.randrange(p) if p else g.r.randrange(-lim, lim + 1)) if g.r.random() < density else 0
    return [[diag(i) if i == j else (v() if j > i else 0) for j in range(n)] for i in range(n)]


def rank_deficient(g, n, rank, p=0, lim=3):
    """n x n of rank <= rank"""
    if rank == 0:
        return [[0] * n for _ in range(n)]
    v = lambda: g.r.randrange(p) if p else g.r.randrange(-lim, lim + 1)
    A = [[v() for _ in range(rank)] for _ in range(n)]
    B = [[v() for _ in range(n)] for _ in range(rank)]
    return mmul(A, B, p)


def field_matrix(g, n, p):
    """square matrices over Z/p with all kinds of zero patterns"""
    k = g.r.randrange(8)
    if k == 0:
        return [[g.r.randrange(p) for _ in range(n)] for _ in range(n)]
    if k == 1:
        return [[g.r.randrange(p) if g.r.random() < 0.4 else 0 for _ in range(n)] for _ in range(n)]
    if k == 2:                                  # elimination needs exchanges all the way
        return perm_rows(g, upper(g, n, 0, lambda i: g.r.randrange(1, p) if p > 2 else 1, p))
    if k == 3:
        return perm_rows(g, transpose(perm_rows(g, upper(g, n, 0, lambda i: g.r.randrange(1, p) if p > 2 else 1, p))))
    if k == 4:                                  # zero leading block
        A = [[g.r.randrange(p) for _ in range(n)] for _ in range(n)]
        b = g.r.randrange(1, n + 1)
        for i in range(b):
            for j in range(min(b, n - b) if n - b else 1):
                A[i][j] = 0
        return A
    if k == 5:
        return rank_deficient(g, n, g.r.randrange(n + 1), p)
    if k == 6:                                  # zero pivot that only appears during elimination
        A = mmul(unit_lower(g, n, 0, p), perm_rows(g, upper(g, n, 0, lambda i: g.r.randrange(1, p) if p > 2 else 1, p)), p)
        return A
    A = [[g.r.randrange(p) for _ in range(n)] for _ in range(n)]
    z = g.r.randrange(n)
    if g.r.random() < 0.5:
        A[z] = [0] * n
    else:
        for row in A:
            row[z] = 0
    return A


def nonsingular_field(g, n, p):
    while True:
        A = field_matrix(g, n, p)
        if det(A, p):
            return A
        if g.r.random() < 0.3:
            A = mmul(unit_lower(g, n, 0, p), perm_rows(g, upper(g, n, 0, lambda i: g.r.randrange(1, p) if p > 2 else 1, p)), p)
            return A


def int_matrix(g, n, maxdet=40, lim=2, diag=(1, 1, 2, -1, 3)):
    """well-behaved integer matrices with a small non-zero determinant"""
    while True:
        A = mmul(unit_lower(g, n, 1, density=0.5), upper(g, n, lim, lambda i: g.r.choice(diag), density=0.6))
        if g.r.random() < 0.6:
            A = perm_rows(g, A)
        if g.r.random() < 0.3:
            A = transpose(A)
        d = det(A)
        if d and abs(d) <= maxdet and max(abs(v) for row in A for v in row) <= 12:
            return A


def inverse_bound(A):
    """largest entry of the inverse"""
    n = len(A)
    d = Fraction(det(A))
    if n == 1:
        return abs(1 / d)
    return max(abs(det([[A[i][j] for j in range(n) if j != q] for i in range(n) if i != p]) / d) for p in range(n) for q in range(n))


def scaled(A, k):
    """2^k * A"""
    return [[v * Fraction(2) ** k for v in row] for row in A]


def grading(g, ty, n, lim=None):
    """powers of two for the rows and columns of a matrix: exact, at any magnitude"""
    b = lim or {"f32": 8, "f64": 40, "ld": 60}[ty]
    return [g.r.randrange(-b, b + 1) for _ in range(n)], [g.r.randrange(-b, b + 1) for _ in range(n)]


def graded(A, d1, d2):
    return [[v * Fraction(2) ** (d1[i] + d2[j]) for j, v in enumerate(row)] for i, row in enumerate(A)]


def tree_matrix(g, n):
    """a network matrix of a tree, +-1 and 0: totally unimodular, so elimination in whatever
    order of the rows never meets anything but -1, 0 and 1; determinant +-1"""
    B = [[0] * n for _ in range(n)]
    for e in range(n):                       # node e + 1 hangs below an earlier one; node 0 has no row
        t = g.r.randrange(max(0, e + 1 - g.r.choice((1, 2, n))), e + 1)
        s = g.r.choice((1, -1))
        B[e][e] = s
        if t:
            B[t - 1][e] = -s
    w = g.r.random()
    if w < 0.35:                             # the paths of the tree: the inverse, and as unimodular
        paths = [[0] * n for _ in range(n)]
        for j in range(n):
            x = [0] * n
            x[j] = 1
            for e in range(n - 1, -1, -1):   # back substitution, B is upper triangular
                x[e] = (x[e] - sum(B[e][k] * x[k] for k in range(e + 1, n))) * B[e][e]
            for e in range(n):
                paths[e][j] = x[e]
        B = paths
    if g.r.random() < 0.5:
        B = transpose(B)
    B = perm_rows(g, B)
    if g.r.random() < 0.7:
        B = transpose(perm_rows(g, transpose(B)))
    f = [g.r.choice((1, -1)) for _ in range(n)]
    return [[v * f[j] for j, v in enumerate(row)] for row in B]


def tu_singular(g, n):
    """totally unimodular and singular"""
    if n == 1:
        return [[0]]
    w = g.r.randrange(3)
    if w == 0:                               # every column of an incidence matrix sums to zero
        A = [[0] * n for _ in range(n)]
        for j in range(n):
            a, b = g.r.sample(range(n), 2)
            A[a][j], A[b][j] = 1, -1
    elif w == 1:                             # intervals, one of them twice
        A = []
        for _ in range(n):
            a, b = sorted((g.r.randrange(n), g.r.randrange(n)))
            A.append([1 if a <= j <= b else 0 for j in range(n)])
        a, b = g.r.sample(range(n), 2)
        A[a] = list(A[b])
    else:
        A = tree_matrix(g, n)
        a, b = g.r.sample(range(n), 2)
        A[a] = [-v for v in A[b]]
    A = perm_rows(g, A)
    return transpose(A) if g.r.random() < 0.5 else A


def any_order(A, inverse=False):
    """no minor of two or more rows of the leading columns vanishes: elimination never cancels to
    zero (which rounding would not), in whatever order of the rows"""
    n = len(A)
    for k in range(2, n + 1):
        for rows in itertools.combinations(range(n), k):
            if det([[A[i][j] for j in range(k)] for i in rows]) == 0:
                return False
    if inverse and n > 4:
        return all(any_order([[A[i][j] for j in range(n) if j != q] for i in range(n) if i != p]) for p in range(n) for q in range(n))
    return True


def gradable(g, n, maxdet, inverse=False):
    """a matrix whose rows and columns may be scaled by any powers of two"""
    if n > (4 if inverse else 5) or n > 3 and g.r.random() < 0.6:
        return tree_matrix(g, n)
    for _ in range(60):
        A = int_matrix(g, n, maxdet) if n <= 3 else [[g.r.randrange(-3, 4) for _ in range(n)] for _ in range(n)]
        d = abs(det(A))
        if n <= 3 or 0 < d <= maxdet and any_order(A, inverse):
            if not inverse or inverse_bound(A) <= 12:
                return A
    return tree_matrix(g, n)


STRUCTURES = ("zero", "identity", "scalar", "diagonal", "antidiagonal", "upper", "lower", "strict", "bidiagonal", "tridiagonal", "hessenberg", "symmetric", "skew",
              "permutation", "signed", "constant", "row", "column", "rank1", "toeplitz", "circulant", "hankel", "blocks", "idempotent", "involution", "companion",
              "arrow", "checker", "nearid", "equal-rows", "zero-corner", "stochastic", "single")


def structured(g, kind, n, v, nz):
    """a square matrix with the named structure; v() is any entry, nz() a non-zero one"""
    r = g.r
    Zm = lambda f: [[f(i, j) for j in range(n)] for i in range(n)]
    if kind == "zero":
        return Zm(lambda i, j: 0)
    if kind == "identity":
        return eye(n)
    if kind == "scalar":
        return eye(n, nz())
    if kind == "diagonal":
        return Zm(lambda i, j: nz() if i == j else 0)
    if kind == "antidiagonal":
        return Zm(lambda i, j: nz() if i + j == n - 1 else 0)
    if kind == "upper":
        return Zm(lambda i, j: nz() if i == j else v() if i < j else 0)
    if kind == "lower":
        return Zm(lambda i, j: nz() if i == j else v() if i > j else 0)
    if kind == "strict":
        return Zm(lambda i, j: v() if i < j else 0)
    if kind == "bidiagonal":
        return Zm(lambda i, j: nz() if i == j else v() if j == i + 1 else 0)
    if kind == "tridiagonal":
        return Zm(lambda i, j: nz() if abs(i - j) <= 1 else 0)
    if kind == "hessenberg":
        return Zm(lambda i, j: v() if j >= i - 1 else 0)
    if kind in ("symmetric", "skew"):
        s = 1 if kind == "symmetric" else -1
        A = Zm(lambda i, j: v() if i < j or i == j and s == 1 else 0)
        return Zm(lambda i, j: A[i][j] if i <= j else s * A[j][i])
    if kind == "permutation":
        return perm_rows(g, eye(n))
    if kind == "signed":
        return perm_rows(g, Zm(lambda i, j: r.choice((1, -1)) if i == j else 0))
    if kind == "constant":
        c = nz()
        return Zm(lambda i, j: c)
    if kind == "row":
        k = r.randrange(n)
        return Zm(lambda i, j: nz() if i == k else 0)
    if kind == "column":
        k = r.randrange(n)
        return Zm(lambda i, j: nz() if j == k else 0)
    if kind == "rank1":
        a, b = [nz() for _ in range(n)], [nz() for _ in range(n)]
        return Zm(lambda i, j: a[i] * b[j])
    if kind == "toeplitz":
        t = [v() for _ in range(2 * n)]
        return Zm(lambda i, j: t[i - j + n])
    if kind == "circulant":
        t = [v() for _ in range(n)]
        return Zm(lambda i, j: t[(j - i) % n])
    if kind == "hankel":
        t = [v() for _ in range(2 * n)]
        return Zm(lambda i, j: t[i + j])
    if kind == "blocks":
        b = r.randrange(1, n + 1)
        return Zm(lambda i, j: v() if (i < b) == (j < b) else 0)
    if kind in ("idempotent", "involution"):    # S D S^-1 with a unit triangular S
        S, I = eye(n), eye(n)
        for _ in range(2):
            if n > 1:
                a, b = r.sample(range(n), 2)
                x = nz()
                E, F = eye(n), eye(n)
                E[a][b], F[a][b] = x, -x
                S, I = mmul(S, E), mmul(F, I)
        D = Zm(lambda i, j: r.choice((0, 1) if kind == "idempotent" else (1, -1)) if i == j else 0)
        return mmul(mmul(S, D), I)
    if kind == "companion":
        c = [nz()] + [v() for _ in range(n)]
        return Zm(lambda i, j: c[i] if j == n - 1 else 1 if i == j + 1 else 0)
    if kind == "arrow":
        return Zm(lambda i, j: nz() if i == j or i == 0 or j == 0 else 0)
    if kind == "checker":
        return Zm(lambda i, j: v() if (i + j) % 2 == 0 else 0)
    if kind == "nearid":
        A = eye(n)
        A[r.randrange(n)][r.randrange(n)] = nz()
        return A
    if kind == "equal-rows":
        A = Zm(lambda i, j: v())
        a, b = r.randrange(n), r.randrange(n)
        A[a] = list(A[b])
        return A
    if kind == "zero-corner":
        h = r.randrange(n)
        return Zm(lambda i, j: 0 if i < h and j < h else v())
    if kind == "stochastic":                    # all rows with the same sum
        A = Zm(lambda i, j: v())
        for row in A:
            row[r.randrange(n)] += 3 - sum(row)
        return A
    if kind == "single":
        A = Zm(lambda i, j: 0)
        A[r.randrange(n)][r.randrange(n)] = nz()
        return A
    raise ValueError(kind)


def structured_field(g, kind, n, p):
    A = structured(g, kind, n, lambda: g.r.randrange(p), lambda: g.r.randrange(1, p))
    return [[x % p for x in row] for row in A]


def structured_int(g, kind, n, wide=False, unit=False):
    """small integers; unit: the entries that must not vanish are +-1"""
    v = lambda: g.r.choice((-3, -2, -1, 0, 0, 1, 2, 3) if wide else (-1, 0, 0, 1, 1, 2))
    return structured(g, kind, n, v, lambda: g.r.choice((1, -1) if unit else (1, -1, 2, 3, -4, 5) if wide else (1, -1, 2)))


def kscale(g, ty, n=1):
    """a power of two; its n-th power is far from the limits of the type, but its square need not be"""
    if g.r.random() < 0.25:
        return g.r.choice((-1, -1, 1)) * ((90 if ty == "f32" else 900) // n)
    return g.r.choice((0, 0, -20, 15, -7) if ty == "f32" else (0, 0, 0, -40, 30, -100, -12, 60))


# ------------------------------------------------------------------ C02
def gen_C02(g):
    progs = []
    types = MAIN + MORE
    lim = 6 if g.thorough else 5
    dims = [(a, b, c) for a in range(1, lim + 1) for b in range(1, lim + 1) for c in range(1, lim + 1)]
    big = [(7, 3, 9), (9, 7, 3), (8, 8, 8), (1, 16, 1), (16, 1, 16), (1, 1, 33), (33, 1, 1), (1, 64, 1), (16, 16, 16), (17, 9, 5), (5, 17, 9),
           (9, 5, 17), (12, 33, 7), (17, 18, 19), (3, 40, 3), (6, 7, 8), (8, 7, 6), (10, 6, 10), (24, 24, 24), (32, 32, 32), (4, 100, 2), (64, 2, 64),
           (33, 33, 33), (9, 9, 9), (10, 10, 10), (11, 11, 11), (12, 12, 12), (13, 13, 13), (14, 14, 14), (15, 15, 15), (17, 17, 17), (20, 20, 20), (64, 16, 5), (5, 64, 16), (2, 130, 2), (1, 300, 1), (130, 1, 3), (3, 1, 130), (40, 40, 40), (65, 9, 8), (9, 8, 65), (7, 7, 7), (6, 6, 6)]
    for k, (n, m, p) in enumerate(dims + big):
        for ty in rotate(g, k, 2):
            for kind in ("small", "mul", "zero"):
                if ty in ("gf", "u8", "i8") and kind == "mul":
                    continue
                if n * m * p > 20000 and kind == "mul" and not g.thorough:
                    continue
                mod = g.prime() if ty == "gf" else 0
                q = g.prog(ty, kind if kind != "zero" else "small", mod=mod)
                if kind == "zero":
                    q.load(0, g.sparse(ty, n, m, mod, 0.3)).load(1, g.sparse(ty, m, p, mod, 0.3))
                else:
                    q.load(0, g.mat(ty, n, m, kind, mod)).load(1, g.mat(ty, m, p, kind, mod))
                q.call("mult", a=0, b=1).call("mul", a=0, b=1)
                if n == m == p:
                    q.load(4, eye(n)).call("mult", a=0, b=4).call("mul", a=4, b=0).call("mul", a=0, b=0)
                progs.append(q)
    # every length of a row, a column and a sum
    for m in range(6, 71 if g.thorough else 42):
        x, y = pick(((1, 2), (2, 2), (3, 1), (2, 3)), m)
        for k, (n, m_, p) in enumerate(((x, m, y), (m, x, y), (x, y, m), (m, x, m - m // 6), (m - m // 5, y, m))):
            for ty in ("gf", "i32", "f64") if g.thorough else (pick(("gf", "i32", "f64"), m + k),):
                q = g.prog(ty, mod=P1 if ty == "gf" else 0)
                q.load(0, g.mat(ty, n, m_, "small", P1)).load(1, g.mat(ty, m_, p, "small", P1)).call("mult" if m % 2 else "mul", a=0, b=1)
                progs.append(q)
    # operands with structure, alone and with one another
    for n in (2, 3, 4, 5, 6, 8) + ((7, 9, 12) if g.thorough else ()):
        for k, kind in enumerate(STRUCTURES):
            for ty in ("i32", "f64", "gf", "i64", "f32") if g.thorough else (pick(("gf", "i32", "f64", "f32", "i64"), k + n),):
                q = g.prog(ty, mod=P1)
                S = lambda kind: structured_field(g, kind, n, P1) if ty == "gf" else structured_int(g, kind, n, True)
                q.load(0, S(kind)).load(1, g.mat(ty, n, n, "small", P1)).load(2, S(g.r.choice(STRUCTURES))).load(3, S(kind))
                for a, b in ((0, 1), (1, 0), (0, 2), (2, 0), (0, 3), (0, 0)):
                    q.call("mult" if g.r.random() < 0.5 else "mul", a=a, b=b)
                    if n == 2:
                        q.call("strassen", a=a, b=b)
                progs.append(q)
    # infinities and NaN travel through the sums they belong to, and no others
    for k, (n, m, p) in enumerate(dims[::3] + big[:8]):
        for ty in ("f64", "f32", "ld") if g.thorough else (pick(("f64", "f32", "ld"), k),):
            q = Prog(ty, doms=[ExtDom()])
            q.load(0, g.ext(ty, n, m, 0.1)).load(1, g.ext(ty, m, p, 0.1)).call("mult", a=0, b=1)
            q.load(0, g.ext(ty, n, m, 0.1)).load(1, g.sparse(ty, m, p, 0, 0.3)).call("mul", a=0, b=1)
            q.load(0, g.sparse(ty, n, m, 0, 0.3)).load(1, g.ext(ty, m, p, 0.1)).call("mul", a=0, b=1)
            progs.append(q)
    # one-hot operands: every single term of the sum by itself
    for (n, m, p) in ((3, 4, 2), (4, 3, 5), (2, 2, 2), (5, 5, 5), (1, 6, 4)):
        q = Prog("i32")
        for i, k, k2, j in g.r.sample(list(itertools.product(range(n), range(m), range(m), range(p))), min(60, n * m * m * p)):
            A = [[7 if (x, y) == (i, k) else 0 for y in range(m)] for x in range(n)]
            B = [[5 if (x, y) == (k2 if g.r.random() < 0.4 else k, j) else 0 for y in range(p)] for x in range(m)]
            q.load(0, A).load(1, B).call("mult", a=0, b=1)
        progs.append(q)
    # Strassen
    cells = list(itertools.product(range(2), repeat=4))
    q = Prog("gf", mod=2)
    for A, B in itertools.product(cells, cells):
        q.load(0, [list(A[:2]), list(A[2:])]).load(1, [list(B[:2]), list(B[2:])]).call("strassen", a=0, b=1)
    progs.append(q)
    if g.thorough:
        c3 = list(itertools.product(range(3), repeat=4))
        for A in c3:
            q = Prog("gf", mod=3)
            q.load(0, [list(A[:2]), list(A[2:])])
            for B in c3:
                q.load(1, [list(B[:2]), list(B[2:])]).call("strassen", a=0, b=1)
            progs.append(q)
    for ty in types:
        for kind in ("small", "mul", "zero"):
            mod = g.prime() if ty == "gf" else 0
            q = g.prog(ty, "mul" if kind == "mul" else "small", mod=mod)
            for _ in range(60 if g.thorough else 12):
                q.load(0, g.mat(ty, 2, 2, kind, mod)).load(1, g.mat(ty, 2, 2, kind, mod)).call("strassen", a=0, b=1).call("mul", a=0, b=1).call("strassen", a=0, b=0)
            progs.append(q)
    return progs


# ------------------------------------------------------------------ C03
def exact_int_elimination(g, n):
    """integer matrices whose elimination divides exactly: signed permutations of unit triangular ones,
    block-diagonal ones, and products with divisible rows"""
    k = g.r.randrange(4)
    if k == 0:
        A = upper(g, n, 5, lambda i: g.r.choice((1, -1, 2, 3, -4, 0) if g.r.random() < 0.5 else (1, -1)))
        return perm_rows(g, A)
    if k == 1:
        return mmul(unit_lower(g, n, 2), upper(g, n, 3, lambda i: g.r.choice((1, -1))))
    if k == 2:
        A = mmul(unit_lower(g, n, 2), upper(g, n, 3, lambda i: g.r.choice((1, -1))))
        z = g.r.randrange(n)
        A[z] = [0] * n
        return A
    return perm_rows(g, [[(g.r.randrange(-9, 10) if i == j else 0) for j in range(n)] for i in range(n)])


CANCELS = ([[-3, -1, -2, 3, 2], [-1, 1, -2, 1, -1], [-3, 0, -3, 1, 2], [1, 0, 0, 2, -3], [3, -1, -1, 2, 3]],
           [[-2, 0, -2, 2, -3, 3], [2, 3, 0, 2, -3, 1], [3, 2, -3, 2, -3, 1], [-3, 1, 3, 1, 3, 1], [2, -2, -1, 2, -2, -2], [3, 0, 1, -1, 2, 3]])


def det_snap(ty, n, k):
    return (1, 1e-6 if ty != "f32" else 1e-3, Fraction(2) ** (k * n))


def gen_C03(g):
    progs = []
    T = g.thorough
    # exhaustive small fields
    q = Prog("gf", mod=2, note="all 3x3 over GF(2)")
    for c in itertools.product(range(2), repeat=9):
        q.load(0, [list(c[0:3]), list(c[3:6]), list(c[6:9])]).call("det", a=0)
    progs.append(q)
    q = Prog("gf", mod=3, note="all 2x2 over GF(3)")
    for c in itertools.product(range(3), repeat=4):
        q.load(0, [list(c[0:2]), list(c[2:4])]).call("det", a=0)
    progs.append(q)
    for n in (4, 5) if not T else (4, 5, 6):
        perms = list(itertools.permutations(range(n)))
        q = Prog("gf", mod=P1, note="all permutation matrices")
        for pm in perms:
            q.load(0, [[g.r.randrange(1, P1) if pm[i] == j else 0 for j in range(n)] for i in range(n)]).call("det", a=0)
        progs.append(q)
    cells4 = range(65536) if T else g.r.sample(range(65536), 900)
    for chunk in [cells4[x:x + 300] for x in range(0, len(cells4), 300)]:
        q = Prog("gf", mod=2, note="4x4 over GF(2)")
        for c in chunk:
            q.load(0, [[c >> (4 * i + j) & 1 for j in range(4)] for i in range(4)]).call("det", a=0)
        progs.append(q)
    # all zero patterns of a 4x4 (and more random ones of bigger) over a big field
    for n in range(1, 13):
        cnt = (400 if n <= 6 else 120) if T else (60 if n <= 6 else 14 if n <= 8 else 4)
        for p in (2, 3, 5, 7, P1):
            q = Prog("gf", mod=p)
            for _ in range(cnt if p == P1 else cnt // 3):
                q.load(0, field_matrix(g, n, p)).call("det", a=0)
            progs.append(q)
        for rank in range(n):
            q = Prog("gf", mod=P1, note="rank %d of %d" % (rank, n))
            for _ in range(3):
                q.load(0, perm_rows(g, rank_deficient(g, n, rank, P1))).call("det", a=0)
            progs.append(q)
    for n in (13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33) + ((40, 48, 64) if T else ()):
        q = Prog("gf", mod=P1)
        for _ in range(8 if T else 2):
            q.load(0, field_matrix(g, n, P1)).call("det", a=0)
            q.load(0, nonsingular_field(g, n, P1)).call("det", a=0)
        q.load(0, perm_rows(g, [[g.r.randrange(1, P1) if i == j else 0 for j in range(n)] for i in range(n)])).call("det", a=0)
        progs.append(q)
    for n in range(2, 13 if T else 9):
        for x, ty in enumerate(("gf", "i64", "f64", "i32", "ld", "f32")):
            q = Prog("gf", mod=P1) if ty == "gf" else Prog(ty, doms=[Dom(P1), Dom(P2)])
            for k, kind in enumerate(STRUCTURES):
                for _ in range(3 if T else 1):
                    if ty == "gf":
                        q.load(0, structured_field(g, kind, n, P1)).call("det", a=0)
                    elif T or (k + n + x) % 2 == 0:
                        A = structured_int(g, kind, n, n <= 6)
                        if abs(det(A)) <= (10 ** 5 if ty != "f32" else 400):
                            q.load(0, A).call("det", a=0, snap=det_snap(ty, n, 0) if ty in FLOATS else None)
            progs.append(q)
    # integers, n <= 3 (no division takes place)
    for n in (1, 2, 3):
        for ty, b in (("i32", 9), ("i64", 20), ("i32", 500 // n), ("i64", 2 ** 19), ("lng", 2 ** 19), ("i16", 9), ("i8", 2), ("i8", 1)):
            q = Prog(ty, doms=exact_doms(ty))
            for _ in range(60 if T else 20):
                z = g.r.random() < 0.3
                q.load(0, [[0 if z and g.r.random() < 0.5 else g.r.randrange(-b, b + 1) for _ in range(n)] for _ in range(n)]).call("det", a=0)
            progs.append(q)
        for ty in ("u8", "c64", "u32", "u64", "u16", "c32"):
            q = g.prog(ty, "small")
            for _ in range(30):
                q.load(0, g.mat(ty, n, n, "wrap" if ty in ("u32", "u64") else "small")).call("det", a=0)
            progs.append(q)
    for n in (4, 5, 6, 7, 8, 9, 12):
        for ty in ("i32", "i64", "u8", "u32", "u64", "u16", "lng"):
            q = Prog(ty, doms=exact_doms(ty)) if ty in SIGNED else g.prog(ty, "small")
            for _ in range((60 if T else 20) if n <= 7 else 6):
                w = g.r.randrange(4)
                if ty[0] == "u":
                    A = g.mat(ty, n, n, "wrap" if g.r.random() < 0.5 else "small") if w else g.sparse(ty, n, n, 0, 0.4)
                elif w == 0:
                    A = exact_int_elimination(g, n)
                else:                # nothing divides anything; Hadamard keeps the determinant in range
                    b = {"i32": (0, 0, 0, 0, 60, 22, 12, 8, 6, 5)[n] if n < 10 else 2, }.get(ty, 400 if n <= 6 else 40 if n <= 8 else 9)
                    b = g.r.choice((1, 2, b, b))
                    d = g.r.choice((0.4, 0.8, 1))
                    A = [[g.r.randrange(-b, b + 1) if g.r.random() < d else 0 for _ in range(n)] for _ in range(n)]
                    if w == 1 and n > 1:        # singular
                        A = perm_rows(g, rank_deficient(g, n, g.r.randrange(n), lim=2))
                q.load(0, A).call("det", a=0)
            progs.append(q)
    q = Prog("i32", doms=[Z])
    q.load(0, [[2, 1, 0, 0], [1, 2, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]).call("det", a=0)
    progs.append(q)
    for ty in FLOATS:
        q = Prog(ty, doms=[Dom(P1), Dom(P2)], note="a pivot that cancels, but not in floating point")
        for A in CANCELS:
            q.load(0, A).call("det", a=0, snap=det_snap(ty, len(A), 0))
            for _ in range(3):
                q.load(0, transpose(A) if g.r.random() < 0.3 else perm_rows(g, A)).call("det", a=0, snap=det_snap(ty, len(A), 0))
        progs.append(q)
    # floating point: the result is the integer (times a power of two) next to it
    for n in range(1, 10):
        for ty in ("f64", "f32", "ld") if n <= 5 else ("f64", "ld"):
            for _ in range(40 if T else 14 if ty != "ld" else 6):
                k = kscale(g, ty, n) if n <= 6 else 0
                if ty == "f32" and abs(k * n) > 100:
                    k = 0
                q = Prog(ty, doms=[Dom(P1), Dom(P2)])
                w = g.r.randrange(4)
                if w == 0:
                    A = int_matrix(g, n)
                elif w == 1:
                    A = perm_rows(g, upper(g, n, 3, lambda i: g.r.choice((1, 2, 3, -1, 5))))
                elif w == 2:
                    A = [[g.r.randrange(-3, 4) if g.r.random() < 0.7 else 0 for _ in range(n)] for _ in range(n)]
                    if n > 6 or det(A) == 0 and n > 3:
                        A = int_matrix(g, n)
                else:                # singular with exact cancellation: equal rows or a zero line
                    A = [[g.r.randrange(-3, 4) for _ in range(n)] for _ in range(n)]
                    if n > 1 and g.r.random() < 0.5:
                        A[g.r.randrange(n)] = [0] * n
                    elif n > 1:
                        A = singular_float(g, n)
                q.load(0, scaled(A, k)).call("det", a=0, snap=det_snap(ty, n, k))
                d1, d2 = grading(g, ty, n)           # rows and columns of wildly different magnitude
                if ty != "f32" or abs(sum(d1) + sum(d2)) < 60:
                    A = tu_singular(g, n) if g.r.random() < 0.25 else gradable(g, n, 400 if ty != "f32" else 20)
                    q.load(0, graded(A, d1, d2)).call("det", a=0, snap=det_snap(ty, 1, sum(d1) + sum(d2)))
                progs.append(q)
    return progs


# ------------------------------------------------------------------ C04
def gen_C04(g):
    progs = []
    T = g.thorough
    q = Prog("gf", mod=3, note="all 2x2 over GF(3)")
    for c in itertools.product(range(3), repeat=4):
        q.load(0, [list(c[0:2]), list(c[2:4])]).call("inv", a=0)
    progs.append(q)
    q = Prog("gf", mod=2, note="all 3x3 over GF(2)")
    for c in itertools.product(range(2), repeat=9):
        q.load(0, [list(c[0:3]), list(c[3:6]), list(c[6:9])]).call("inv", a=0)
    progs.append(q)
    for n in range(1, 9):
        for p in (2, 3, 7, P1):
            cnt = (120 if T else 24) if n <= 5 else (30 if T else 5)
            q = Prog("gf", mod=p)
            for _ in range(cnt):
                q.load(0, nonsingular_field(g, n, p)).call("inv", a=0)
            progs.append(q)
    for n in (9, 10, 11, 12, 13, 16, 17, 20) + ((24, 32, 33) if T else (24,)):
        q = Prog("gf", mod=P1)
        for _ in range((6 if T else 2) if n <= 17 else 1):
            q.load(0, nonsingular_field(g, n, P1)).call("inv", a=0)
            q.load(0, perm_rows(g, [[g.r.randrange(1, P1) if i == j else 0 for j in range(n)] for i in range(n)])).call("inv", a=0)
        progs.append(q)
    for n in (4, 5) if not T else (4, 5, 6):
        q = Prog("gf", mod=P1, note="permutation matrices")
        for pm in itertools.permutations(range(n)):
            q.load(0, [[g.r.randrange(1, P1) if pm[i] == j else 0 for j in range(n)] for i in range(n)]).call("inv", a=0)
        progs.append(q)
    for n in range(2, 11 if T else 9):
        q, progs_f = Prog("gf", mod=P1, note="structured"), []
        for k, kind in enumerate(STRUCTURES):
            for _ in range(4 if T else 2 if n <= 6 else 1):
                q.load(0, structured_field(g, kind, n, P1)).call("inv", a=0)
            for ty in ("f64", "f32", "ld"):
                f = Prog(ty, doms=[Dom(P1), Dom(P2)])
                for _ in range(2 if T or n <= 6 else 1):
                    A = structured_int(g, kind, n, n <= 4)
                    d = abs(det(A))
                    if 0 < d <= (64 if ty != "f32" else 8) and inverse_bound(A) <= (60 if ty != "f32" else 12):
                        f.load(0, A).call("inv", a=0, snap=(d, 1e-9 if ty != "f32" else 3e-4, 1))
                if f.steps:
                    progs_f.append(f)
            f = Prog(pick(("i32", "i64"), k), doms=[Dom(P1), Dom(P2)])
            for _ in range(3):
                A = structured_int(g, kind, n, unit=True)
                if abs(det(A)) == 1 and inverse_bound(A) < 1000:
                    f.load(0, A).call("inv", a=0)
            if f.steps:
                progs_f.append(f)
        progs += [q] + progs_f
    for n in range(1, 8):
        for ty in ("f64", "f32", "ld") if n <= 5 else ("f64", "ld"):
            for _ in range(40 if T else 14 if ty != "ld" else 5):
                A = int_matrix(g, n, maxdet=40 if ty != "f32" else 6)
                while inverse_bound(A) > (60 if ty != "f32" else 12):
                    A = int_matrix(g, n, maxdet=40 if ty != "f32" else 6)
                k = kscale(g, ty, n)
                if ty == "f32" and abs(k * n) > 100 or abs(k * n) > 900:
                    k = 0
                tol = 1e-9 if ty != "f32" else 3e-4
                q = Prog(ty, doms=[Dom(P1), Dom(P2)])
                q.load(0, scaled(A, k)).call("inv", a=0, snap=(abs(det(A)), tol, Fraction(2) ** -k))
                d1, d2 = grading(g, ty, n, 6 if ty == "f32" else None)
                if ty != "f32" or sum(map(abs, d1 + d2)) < 60:
                    A = gradable(g, n, 40 if ty != "f32" else 6, True)
                    u = [[Fraction(2) ** (-d2[i] - d1[j]) for j in range(n)] for i in range(n)]
                    q.load(0, graded(A, d1, d2)).call("inv", a=0, snap=(abs(det(A)), tol, u))
                progs.append(q)
    for ty in ("f64", "ld"):
        for A in CANCELS:
            progs.append(Prog(ty, doms=[Dom(P1), Dom(P2)]).load(0, A).call("inv", a=0, snap=(abs(det(A)), 1e-7, 1)))
    for n in range(1, 9):
        for ty in ("i32", "i64", "lng"):
            q = Prog(ty, doms=exact_doms(ty))
            for _ in range((40 if T else 12) if n <= 5 else 4):
                q.load(0, unimodular(g, n)).call("inv", a=0)
            progs.append(q)
    return progs


def unimodular(g, n, bound=10 ** 6):
    """integer matrices with an integer inverse"""
    if g.r.random() < 0.2:
        return [[v * g.r.choice((1, -1)) for v in row] for row in perm_rows(g, eye(n))]
    lim = 2 if n <= 5 else 1
    while True:
        d = min(0.6, 2.5 / n) * g.r.choice((1, 0.5))
        A = mmul(unit_lower(g, n, lim, density=d), upper(g, n, lim, lambda i: g.r.choice((1, -1)), density=d))
        if g.r.random() < 0.7:
            A = perm_rows(g, A)
        if g.r.random() < 0.4:
            A = transpose(A)
        if max(abs(v) for row in A for v in row) <= 40 and inverse_bound(A) <= bound:
            return A


# ------------------------------------------------------------------ C05
EXPONENT_TYPES = {"int": (-2 ** 31, 2 ** 31 - 1), "long": (-2 ** 63, 2 ** 63 - 1), "short": (-2 ** 15, 2 ** 15 - 1), "schar": (-128, 127), "i64": (-2 ** 63, 2 ** 63 - 1),
                  "llong": (-2 ** 63, 2 ** 63 - 1), "u32": (0, 2 ** 32 - 1), "ulong_": (0, 2 ** 64 - 1), "ullong": (0, 2 ** 64 - 1), "uchar": (0, 255), "ushort_": (0, 65535)}
FEW = (-3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 200, 255, -127, -128, -100, -17, -16, -9, -8, -7, -5, -4)


def gen_C05(g):
    progs = []
    T = g.thorough
    for n in range(1, 6 if not T else 8):
        for p in (P1, 7, 2):
            q = Prog("gf", mod=p)
            A = nonsingular_field(g, n, p)
            q.load(0, A)
            for e in range(-20 if n <= 4 or T else -6, 66 if n <= 3 or T else 34):
                q.call("pow", a=0, e=e, P="int")
            progs.append(q)
        q = Prog("gf", mod=P1, note="large exponents")
        for e in (100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 4095, 65535, 65537, 10 ** 6, 2 ** 30 - 1, 2 ** 30, 2 ** 31 - 1, -64, -127, -128, -1000, -65537, -2 ** 30, -(2 ** 31 - 1)):
            q.load(0, nonsingular_field(g, n, P1)).call("pow", a=0, e=e, P="int")
        progs.append(q)
        for P, (lo, hi) in EXPONENT_TYPES.items():
            q = Prog("gf", mod=P1, note="exponent type " + P)
            far = [lo, lo + 1, hi, hi - 1, hi // 2, hi // 2 + 1, hi // 3, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 3 * 2 ** 32 + 5, 2 ** 53 + 1, 2 ** 62 + 12345, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 7,
                   -2 ** 31, -2 ** 31 - 1, -2 ** 32, -2 ** 32 - 7, -2 ** 53 - 1, g.r.randrange(lo, hi), g.r.randrange(lo, hi), 40000, 65535, 65536, -40000]
            es = set(FEW) | set(far if n <= 3 or T else g.r.sample(far, 8))
            for e in sorted(e for e in es if lo <= e <= hi):
                q.load(0, nonsingular_field(g, n, P1)).call("pow", a=0, e=e, P=P)
            progs.append(q)
        # singular, nilpotent, idempotent, permutation matrices with non-negative exponents
        q = Prog("gf", mod=P1)
        for e in list(range(0, 20)) + [33, 64, 100]:
            N = [[g.r.randrange(P1) if j > i else 0 for j in range(n)] for i in range(n)]
            q.load(0, N).call("pow", a=0, e=e)
            q.load(0, rank_deficient(g, n, max(0, n - 1), P1)).call("pow", a=0, e=e)
            q.load(0, field_matrix(g, n, P1)).call("pow", a=0, e=e)
            q.load(0, perm_rows(g, eye(n))).call("pow", a=0, e=e).call("pow", a=0, e=-e)
        progs.append(q)
    for n in range(1, 9 if T else 7):
        for k, kind in enumerate(STRUCTURES):
            q = Prog("gf", mod=P1, note=kind)
            for e in ((-3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 17, 31, 32) if T else (-2, -1, 0, 1, 2, 3, 4, 5, 7, 8, 16)):
                q.load(0, structured_field(g, kind, n, P1)).call("pow", a=0, e=e)
            progs.append(q)
            for ty in ("f64", "i32", "f32", "i64", "ld") if T else (pick(("f64", "i32", "f32", "i64", "ld"), k + n),):
                q = Prog(ty, doms=exact_doms(ty))
                for e in range(9):
                    A = structured_int(g, kind, n)
                    top = max(sum(abs(v) for v in row) for row in A)
                    if top ** e < 2 ** {"f32": 23, "i32": 30}.get(ty, 48):
                        q.load(0, A).call("pow", a=0, e=e)
                progs.append(q)
    for n in (6, 7, 8, 10, 12, 16) + ((20, 24) if T else ()):
        q = Prog("gf", mod=P1, note="larger sizes")
        for e in (2, 3, 5, 6, 8, 13, 64, 100) if n <= 12 else (2, 3, 6):
            q.load(0, field_matrix(g, n, P1)).call("pow", a=0, e=e)
        if n <= 8:
            q.load(0, nonsingular_field(g, n, P1)).call("pow", a=0, e=-2).call("pow", a=0, e=-3)
        progs.append(q)
    # exact integers: small entries, no overflow
    for n in (1, 2, 3, 4, 5, 8):
        for ty in ("i32", "i64", "f64", "f32", "ld", "lng"):
            q = Prog(ty, doms=exact_doms(ty))
            for e in range(0, 9):
                A = [[g.r.randrange(-1, 2) for _ in range(n)] for _ in range(n)]
                q.load(0, A).call("pow", a=0, e=e, P=g.r.choice(("int", "long", "short")))
            for e in (12, 20, 31, 40) if n <= 3 else ():
                A = upper(g, n, 1, lambda i: g.r.choice((1, -1, 1)))
                q.load(0, A).call("pow", a=0, e=e)
            progs.append(q)
        for ty in ("u8", "u32", "u64"):              # wraps
            q = g.prog(ty, "small")
            for e in range(0, 24):
                q.load(0, g.mat(ty, n, n, "wrap")).call("pow", a=0, e=e, P=g.r.choice(("int", "u32", "short")))
            progs.append(q)
    # negative exponents in floating point: unimodular, or determinant a power of two
    for n in (1, 2, 3, 4, 5):
        for ty in ("f64", "f32") if n <= 3 else ("f64",):
            for e in (-1, -2, -3, -4, -5):
                for _ in range(6 if T else 2):
                    A = int_matrix(g, n, maxdet=1, lim=1, diag=(1, -1))
                    while inverse_bound(A) > 3:
                        A = int_matrix(g, n, maxdet=1, lim=1, diag=(1, -1))
                    k = g.r.choice((0, 0, -3, 4))
                    q = Prog(ty, doms=[Dom(P1), Dom(P2)])
                    q.load(0, scaled(A, k)).call("pow", a=0, e=e, snap=(1, 1e-7 if ty == "f64" else 1e-3, Fraction(2) ** (k * e)))
                    progs.append(q)
    return progs


# ------------------------------------------------------------------ C06
def exact_lu(A):
    """every pivot up to the first zero is a power of two: nothing rounds"""
    M = [[Fraction(v) for v in row] for row in A]
    for k in range(len(M)):
        p = abs(M[k][k])
        if p == 0:
            return True
        if (p.numerator & p.numerator - 1) or (p.denominator & p.denominator - 1):
            return False
        for i in range(k + 1, len(M)):
            f = M[i][k] / M[k][k]
            M[i] = [x - f * y for x, y in zip(M[i], M[k])]
    return True


def gen_C06(g):
    progs = []
    T = g.thorough
    q = Prog("gf", mod=2, note="all 3x3 over GF(2)")
    for c in itertools.product(range(2), repeat=9):
        q.load(0, [list(c[0:3]), list(c[3:6]), list(c[6:9])]).call("lu", a=0)
    progs.append(q)
    q = Prog("gf", mod=3, note="all 2x2 over GF(3)")
    for c in itertools.product(range(3), repeat=4):
        q.load(0, [list(c[0:2]), list(c[2:4])]).call("lu", a=0)
    progs.append(q)
    for n in list(range(1, 13)) + [16, 17, 20, 24, 32, 33]:
        for p in (3, 7, P1) if n <= 16 else (P1,):
            q = Prog("gf", mod=p)
            for _ in range((60 if T else 16) if n <= 6 else 5 if n <= 12 else 1):
                nz = lambda i: g.r.randrange(1, p)
                q.load(0, mmul(unit_lower(g, n, 0, p), upper(g, n, 0, nz, p), p)).call("lu", a=0)
                q.load(0, field_matrix(g, n, p)).call("lu", a=0)
            progs.append(q)
        if n <= (12 if T else 8):
            for k, kind in enumerate(STRUCTURES):
                q = Prog("gf", mod=P1, note=kind)
                for _ in range(3 if T else 2 if n <= 5 else 1):
                    q.load(0, structured_field(g, kind, n, P1)).call("lu", a=0)
                progs.append(q)
                for ty in FLOATS if T else (pick(FLOATS, k + n),):
                    q = Prog(ty, doms=[Dom(P1), Dom(P2)], note=kind)
                    for _ in range(3):
                        A = structured_int(g, kind, n)
                        if exact_lu(A):
                            q.load(0, A).call("lu", a=0)
                    if q.steps:
                        progs.append(q)
        # a pivot that vanishes at each possible stage
        q = Prog("gf", mod=P1)
        for z in range(n) if n <= 10 else (0, n // 2, n - 1):
            U = upper(g, n, 0, lambda i: 0 if i == z else g.r.randrange(1, P1), P1)
            q.load(0, mmul(unit_lower(g, n, 0, P1), U, P1)).call("lu", a=0)
        progs.append(q)
        for ty in ("f64", "f32", "ld") if n <= 8 else ("f64", "ld"):
            for _ in range(30 if T else 10 if ty != "ld" and n <= 16 else 3):
                lim = 3 if n <= 6 else 1
                dens = 0.7 if n <= 12 else 3.0 / n
                if g.r.random() < 0.5:         # power-of-two pivots: nothing rounds, at any scale
                    k = kscale(g, ty)
                    U = scaled(upper(g, n, lim, lambda i: g.r.choice((1, 2, -1, -4, Fraction(1, 2))), density=dens), k)
                    sn = None
                else:
                    U = upper(g, n, lim, lambda i: g.r.choice((1, 2, -3, 5, -1)), density=dens)
                    sn = (1, 1e-6 if ty != "f32" else 1e-3)
                A = mmul(unit_lower(g, n, lim, density=dens), U)
                q = Prog(ty, doms=[Dom(P1), Dom(P2)])
                q.load(0, A).call("lu", a=0, snap=sn)
                if sn is None:                 # and with rows and columns of any magnitude
                    q.load(0, graded(A, *grading(g, ty, n))).call("lu", a=0)
                progs.append(q)
            for z in range(min(n, 6)):
                U = upper(g, n, 2, lambda i: 0 if i == z else g.r.choice((1, 2, -1)))
                q = Prog(ty, doms=[Dom(P1), Dom(P2)])
                q.load(0, mmul(unit_lower(g, n, 2), U)).call("lu", a=0)
                progs.append(q)
    return progs


# ------------------------------------------------------------------ C07
def gen_C07(g):
    progs = []
    T = g.thorough
    for n in list(range(1, 13)) + [16, 17, 20, 24, 32, 33]:
        for p in (5, 7, 101, P1) if n <= 16 else (101, P1):
            q = Prog("gf", mod=p)
            for _ in range((40 if T else 8) if n <= 6 else 2):
                L = [[(g.r.randrange(1, p // 2 + 1) if i == j else g.r.randrange(p) if j < i else 0) for j in range(n)] for i in range(n)]
                q.load(0, mmul(L, transpose(L), p)).call("chol", a=0)
            progs.append(q)
        if n <= (12 if T else 8):                # factors with structure, so products with structure
            for k, kind in enumerate(STRUCTURES):
                q = Prog("gf", mod=P1, note=kind)
                for _ in range(2 if n <= 5 else 1):
                    A = structured_field(g, kind, n, P1)
                    L = [[(g.r.randrange(1, P1 // 2 + 1) if i == j and not 0 < A[i][j] <= P1 // 2 else A[i][j] if j <= i else 0) for j in range(n)] for i in range(n)]
                    q.load(0, mmul(L, transpose(L), P1)).call("chol", a=0)
                progs.append(q)
                for ty in FLOATS if T else (pick(FLOATS, k + n),):
                    q = Prog(ty, doms=[Z], note=kind)
                    for _ in range(2):
                        A = structured_int(g, kind, n)
                        one = g.r.choice((1, 2))
                        L = [[(abs(A[i][j]) or one) if i == j else A[i][j] if j < i else 0 for j in range(n)] for i in range(n)]
                        if ty == "f32" or n > 6:
                            L = [[max(v, 2) if i == j else max(-1, min(1, v)) for j, v in enumerate(row)] for i, row in enumerate(L)]
                        q.load(0, mmul(L, transpose(L))).call("chol", a=0, snap=(1, 1e-5 if ty != "f32" else 1e-2))
                    progs.append(q)
        for ty in ("f64", "f32", "ld") if n <= 8 else ("f64", "ld"):
            for _ in range(40 if T else 12 if ty != "ld" and n <= 16 else 3):
                w = g.r.randrange(3)
                hi = 9 if n <= 8 and w else 3
                L = [[(g.r.randrange(1, hi + 1) if i == j else (g.r.randrange(-hi, hi + 1) if g.r.random() < (0.8 if w else 0.3) else 0) if j < i else 0)
                      for j in range(n)] for i in range(n)]
                if ty == "f32" or n > 8:        # keep it well conditioned
                    L = [[v if i == j else max(-2, min(2, v)) for j, v in enumerate(row)] for i, row in enumerate(L)]
                    L = [[max(v, 2) if i == j else v for j, v in enumerate(row)] for i, row in enumerate(L)]
                A = mmul(L, transpose(L))
                k = g.r.choice((0, 0, -20, 13, -7, -45) if ty == "f32" else (0, 0, -30, 25, -100, 3, -400))
                q = Prog(ty, doms=[Dom(0, scale=Fraction(1, 1) / Fraction(4) ** k)])
                q.load(0, scaled(A, 2 * k)).call("chol", a=0, snap=(1, 1e-5 if ty != "f32" else 1e-2, Fraction(2) ** k), rs=Fraction(2) ** k)
                progs.append(q)
    return progs


# ------------------------------------------------------------------ C08
def dyadic_elimination(A, take):
    """elimination of A with the rows chosen by take divides by powers of two only"""
    A, n, r = [[Fraction(v) for v in row] for row in A], len(A), 0
    for c in range(n):
        rows = [i for i in range(r, n) if A[i][c] != 0]
        if not rows:
            continue
        i = take(rows, A, c)
        A[r], A[i] = A[i], A[r]
        p = abs(A[r][c])
        if p.numerator & (p.numerator - 1) or p.denominator & (p.denominator - 1):
            return False
        for k in range(r + 1, n):
            f = A[k][c] / A[r][c]
            A[k] = [x - f * y for x, y in zip(A[k], A[r])]
        r += 1
    return True


ORDERS = (lambda rows, A, c: rows[0], lambda rows, A, c: max(rows, key=lambda i: abs(A[i][c])),
          lambda rows, A, c: max(reversed(rows), key=lambda i: abs(A[i][c])), lambda rows, A, c: rows[-1])


def singular_float(g, n):
    """singular, and exactly so in floating point: a zero row or column, rank-deficient with exact closed
    forms (n <= 3), or a zero pivot after exact steps with power-of-two pivots"""
    A = [[g.r.randrange(-4, 5) for _ in range(n)] for _ in range(n)]
    w = g.r.randrange(5)
    if n == 1 or w == 0:
        A[g.r.randrange(n)] = [0] * n
    elif w == 1:
        z = g.r.randrange(n)
        for row in A:
            row[z] = 0
    elif w == 2:
        z = g.r.randrange(n)
        U = upper(g, n, 2, lambda i: 0 if i == z else g.r.choice((1, 2, -1)))
        A = mmul(unit_lower(g, n, 2), U)
        for _ in range(40 if n > 3 else 0):
            if all(dyadic_elimination(A, t) for t in ORDERS):
                break
            U = upper(g, n, 2, lambda i: 0 if i == z else g.r.choice((1, 2, -1)), density=0.4)
            A = mmul(unit_lower(g, n, 1, density=0.4), U)
        else:
            A = A if n <= 3 else tu_singular(g, n)
    elif w == 3 and n <= 3:
        A = rank_deficient(g, n, g.r.randrange(n))
    else:
        A = [[0] * n for _ in range(n)]
        for i in range(g.r.randrange(n)):
            A[i][g.r.randrange(n)] = g.r.choice((1, 2, -1))
    return A


def gen_C08(g):
    progs = []
    T = g.thorough
    shapes = [(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 3), (5, 4), (7, 7), (16, 3), (3, 33), (20, 20)]
    for ty in ("i32", "f64", "f32", "i64", "gf", "u8", "u32", "ld", "i16", "u64", "i8", "u16", "lng"):
        for R, C in shapes:
            mod = g.prime() if ty == "gf" else 0
            q = Prog(ty, doms=[Z] if ty != "gf" else None, mod=mod, pure=1)
            A = g.mat(ty, R, C, "small", mod) if ty != "u8" else [[g.r.randrange(9) for _ in range(C)] for _ in range(R)]
            q.load(0, A)
            one = 1
            for op in ("div", "divop"):
                q.call(op, a=0, s=0)
                if ty in FLOATS:
                    q.call(op, a=0, s="-0.0")
                q.call(op, a=0, s=one)
                q.load(1, [[0] * C for _ in range(R)]).call(op, a=1, s=0).call(op, a=1, s=one)
            q.call("sum", a=0, b=1)
            progs.append(q)
            if ty in FLOATS:           # the smallest divisors are not zero
                e = {"f32": 126, "f64": 1022, "ld": 1022}[ty]
                q = Prog(ty, doms=[Dom(P1)], pure=1)
                q.load(0, [[v * Fraction(2) ** (60 - e) for v in row] for row in g.mat(ty, R, C)])
                for op in ("div", "divop"):
                    q.call(op, a=0, s=Fraction(1, 2 ** e)).call(op, a=0, s=-Fraction(1, 2 ** (e // 2)))
                    if ty != "ld":                     # a denormal one
                        q.call(op, a=0, s=Fraction(1, 2 ** (e + 10)))
                progs.append(q)
    for n in (9, 10, 12, 16):
        q = Prog("gf", mod=P1, pure=1, note="larger sizes")
        for rank in (0, 1, n - 2, n - 1):
            S = perm_rows(g, rank_deficient(g, n, rank, P1))
            q.load(0, S).load(1, nonsingular_field(g, n, P1)).call("inv", a=0).call("inv", a=1)
            if n <= 10:
                q.call("pow", a=0, e=-2)
            q.call("lu", a=0).call("lu", a=1)
        progs.append(q)
    for n in range(1, 9):
        # fields: singular matrices of every rank, and the same call right afterwards on a good one
        for p in (2, 3, 7, P1):
            q = Prog("gf", mod=p, pure=1)
            for rank in range(n):
                for _ in range(4 if T else 2 if n <= 5 else 1):
                    S = perm_rows(g, rank_deficient(g, n, rank, p))
                    N = nonsingular_field(g, n, p)
                    q.load(0, S).load(1, N)
                    q.call("inv", a=0).call("inv", a=1)
                    if n <= 6:
                        q.call("pow", a=0, e=g.r.choice((-1, -2, -3, -4, -7))).call("pow", a=0, e=g.r.choice((0, 1, 2, 3))).call("pow", a=1, e=-2)
                    q.call("lu", a=0).call("lu", a=1)
            progs.append(q)
        for kind in STRUCTURES if n > 1 else ():
            q = Prog("gf", mod=P1, pure=1, note=kind)
            A = structured_field(g, kind, n, P1)
            B = [list(row) for row in A]             # the same with one line wiped out
            B[g.r.randrange(n)] = [0] * n
            for M in (A, B):
                q.load(0, M).call("inv", a=0).call("lu", a=0, d=3, d2=4)
                if n <= 5:
                    q.call("pow", a=0, e=-2)
            progs.append(q)
        for ty in FLOATS:
            for _ in range(30 if T else 8 if ty != "ld" else 3):
                q = Prog(ty, doms=[Dom(P1), Dom(P2)], pure=1)
                S = scaled(singular_float(g, n), g.r.choice((0, 0, -20, 10)))
                gr = ty != "f32" and g.r.random() < 0.5
                if gr:
                    S = graded(tu_singular(g, n), *grading(g, ty, n, 20))
                N = perm_rows(g, [[g.r.choice((1, -1, 2)) if i == j else 0 for j in range(n)] for i in range(n)])
                q.load(0, S).load(1, N)
                q.call("inv", a=0).call("pow", a=0, e=g.r.choice((-1, -2, -3))).call("inv", a=1).call("pow", a=1, e=-2)
                if not gr:
                    q.call("pow", a=0, e=2)
                # LU: a zero pivot at stage z, or none
                z = g.r.randrange(n + 1)
                U = upper(g, n, 2, lambda i: 0 if i == z else g.r.choice((1, 2, -1, Fraction(1, 4))))
                q.load(2, mmul(unit_lower(g, n, 2), U)).call("lu", a=2, d=3, d2=4)
                q.call("lu", a=1, d=3, d2=4)
                progs.append(q)
            for kind in ("zero", "row", "column", "single", "strict", "constant", "rank1") if n > 1 else ():
                q = Prog(ty, doms=[Dom(P1), Dom(P2)], pure=1, note=kind)
                q.load(0, structured_int(g, kind, n)).call("inv", a=0).call("pow", a=0, e=-2).call("pow", a=0, e=3).call("pow", a=0, e=0).call("lu", a=0, d=3, d2=4)
                progs.append(q)
            # small, not singular: no error allowed
            for k in (-10, -25, -40, -(900 // n)) if ty != "f32" else (-5, -10, -(90 // n)):
                q = Prog(ty, doms=[Dom(P1)], pure=1)
                A = None
                while A is None or inverse_bound(A) > (60 if ty != "f32" else 12):
                    A = perm_rows(g, upper(g, n, 1, lambda i: g.r.choice((1, -1, 2)), density=0.4))
                d, tol = abs(det(A)), 1e-9 if ty != "f32" else 3e-4
                q.load(0, scaled(A, k)).call("inv", a=0, snap=(d, tol, Fraction(2) ** -k))
                q.load(1, scaled(upper(g, n, 1, lambda i: g.r.choice((1, -1, 2)), density=0.4), k))
                q.call("lu", a=1, d=3, d2=4)
                if ty != "f32" and n <= 4 and k >= -40:
                    q.call("pow", a=0, e=-2, snap=(d * d, tol, Fraction(2) ** (-2 * k)))
                q.call("div", a=0, s=Fraction(2) ** (k * 2 if k >= -40 else k))
                progs.append(q)
        for ty in ("i32", "i64", "lng"):
            q = Prog(ty, doms=exact_doms(ty), pure=1)
            for _ in range(10 if n <= 5 else 3):
                q.load(0, rank_deficient(g, n, g.r.randrange(n), lim=3 if n <= 5 else 1)).call("inv", a=0).call("pow", a=0, e=-3)
                q.load(1, unimodular(g, n)).call("inv", a=1)
            progs.append(q)
    return progs


# ------------------------------------------------------------------ C09
def gen_C09(g):
    progs = []
    lim = 7
    shapes = [(r, c) for r in range(1, lim + 1) for c in range(1, lim + 1)]
    big = [(1, 20), (20, 1), (2, 17), (17, 2), (3, 33), (33, 3), (8, 8), (9, 11), (11, 9), (16, 16), (17, 13), (24, 20), (1, 64), (64, 1), (32, 32), (33, 34), (1, 200), (200, 1), (2, 100), (100, 3), (64, 20), (40, 40)]
    for k, (R, C) in enumerate(shapes + big):
        for ty in rotate(g, k, 3):
            for kind in (("small", "mul") if ty not in ("gf", "u8", "i8", "c64", "c32") else ("small",)):
                mod = g.prime() if ty == "gf" else 0
                q = g.prog(ty, kind, mod=mod)
                for _ in range(2):
                    q.load(0, g.mat(ty, R, C, kind, mod)).load(1, g.mat(ty, 3, 3, kind, mod))
                    q.call("conv", a=0, b=1).call("convf", a=0, b=1)
                    if R >= 3 and C >= 3:
                        q.call("convv", a=0, b=1)
                    if R * C > 150:
                        break
                progs.append(q)
    # impulse responses: every kernel tap against every position
    for R, C in ((3, 3), (1, 1), (1, 4), (4, 1), (2, 2), (4, 5)):
        q = Prog("i32")
        for t in range(9):
            K = [[int(3 * u + v == t) * 3 for v in range(3)] for u in range(3)]
            q.load(0, [[1 + 7 * i + j for j in range(C)] for i in range(R)]).load(1, K).call("conv", a=0, b=1).call("convf", a=0, b=1)
            if R >= 3 and C >= 3:
                q.call("convv", a=0, b=1)
        K = [[1, 2, 3], [4, 5, 6], [7, 8, 9]]
        q.load(1, K)
        for i in range(R):
            for j in range(C):
                q.load(0, [[int((x, y) == (i, j)) for y in range(C)] for x in range(R)]).call("conv", a=0, b=1).call("convf", a=0, b=1)
                if R >= 3 and C >= 3:
                    q.call("convv", a=0, b=1)
        progs.append(q)
    # kernels with structure: symmetric in one direction, separable, differences, means, single taps
    named = ([[1, 0, -1], [2, 0, -2], [1, 0, -1]], [[1, 2, 1], [0, 0, 0], [-1, -2, -1]], [[0, 1, 0], [1, -4, 1], [0, 1, 0]], [[1, 1, 1]] * 3, [[1, 2, 1], [2, 4, 2], [1, 2, 1]],
             [[-1, -1, -1], [-1, 8, -1], [-1, -1, -1]], [[0, 0, 0], [0, 1, 0], [0, 0, 0]], [[0] * 3] * 3, [[1, 2, 3], [4, 5, 6], [1, 2, 3]], [[1, 4, 1], [2, 5, 2], [3, 6, 3]],
             [[1, 2, 3], [4, 5, 4], [3, 2, 1]], [[1, 2, 3], [4, 0, -4], [-3, -2, -1]], [[1, 2, 3], [1, 2, 3], [1, 2, 3]], [[1, 1, 1], [2, 2, 2], [3, 3, 3]], [[0, 0, 0], [1, 2, 3], [0, 0, 0]],
             [[0, 1, 0], [0, 2, 0], [0, 3, 0]], [[1, 0, 0], [0, 2, 0], [0, 0, 3]], [[0, 0, 1], [0, 2, 0], [3, 0, 0]], [[1, 2, 3], [2, 5, 6], [3, 6, 9]])
    for k, (R, C) in enumerate(((1, 1), (1, 5), (5, 1), (2, 2), (2, 6), (3, 3), (4, 4), (6, 2), (5, 5), (6, 7), (7, 6), (9, 9), (12, 10)) + (tuple(big) if g.thorough else ())):
        for n, ty in enumerate(("i32", "f64", "gf", "f32", "i64") if g.thorough else (pick(("i32", "gf", "i64"), k), pick(("f64", "f32"), k))):
            q = g.prog(ty, mod=P1)
            for K in list(named) + [structured_int(g, kind, 3, True) for kind in STRUCTURES]:
                if ty == "gf":
                    K = [[v % P1 for v in row] for row in K]
                if g.thorough or g.r.random() < 0.5:
                    q.load(0, g.mat(ty, R, C, "small", P1)).load(1, K).call("conv", a=0, b=1).call("convf", a=0, b=1)
                    if R >= 3 and C >= 3:
                        q.call("convv", a=0, b=1)
            if R == C:
                for kind in STRUCTURES:
                    A = structured_int(g, kind, R, True)
                    q.load(0, [[v % P1 for v in row] for row in A] if ty == "gf" else A).load(1, g.mat(ty, 3, 3, "small", P1)).call("conv", a=0, b=1).call("convf", a=0, b=1)
                    if R >= 3 and C >= 3:
                        q.call("convv", a=0, b=1)
            progs.append(q)
    # infinities and NaN in the matrix reach exactly their neighbourhood
    for k, (R, C) in enumerate(shapes + big[:6]):
        ty = pick(("f64", "f32", "ld"), k)
        q = Prog(ty, doms=[ExtDom()]).load(0, g.ext(ty, R, C, 0.1)).load(1, g.sparse(ty, 3, 3, 0, 0.7))
        q.call("conv", a=0, b=1).call("convf", a=0, b=1)
        if R >= 3 and C >= 3:
            q.call("convv", a=0, b=1)
        progs.append(q)
    # A is itself 3x3: same object as matrix and kernel
    q = Prog("i32")
    for _ in range(5):
        q.load(0, g.mat("i32", 3, 3)).call("conv", a=0, b=0).call("convf", a=0, b=0).call("convv", a=0, b=0)
    progs.append(q)
    progs += sweep(g, ("conv", "convf", "convv"))
    return progs


# ------------------------------------------------------------------ C10
def move_prog(g, ty, how):
    """-> program, matrix maker: ordinary values, or values at the edges of the type"""
    if how == "tokens" and ty != "gf":
        return Prog(ty, doms=[TokDom()]), lambda R, C: g.tokens(ty, R, C)
    kind = "small" if ty in ("gf", "u8") else "wide"
    mod = P1 if ty == "gf" else 0
    return g.prog(ty, kind, mod=mod), lambda R, C: g.mat(ty, R, C, kind, mod)


def gen_C10(g):
    progs = []
    for k, (R, C) in enumerate(SMALL + BIG + HUGE + [(24, 24), (48, 48)]):
        for n, ty in enumerate(rotate(g, k, 2)):
            q, M = move_prog(g, ty, "tokens" if (n + k) % 3 == 0 or n == 2 else "")
            q.load(0, M(R, C)).call("trans", a=0)
            rp = list(itertools.product(range(R), range(R)))
            cp = list(itertools.product(range(C), range(C)))
            cap = 1000 if g.thorough else 64
            for op, pairs in (("swapr", rp), ("swapc", cp)):
                lim = cap if R * C <= 64 else 6 if R * C <= 1200 else 3
                chosen = pairs if len(pairs) <= lim else g.r.sample(pairs, lim)
                m = (R if op == "swapr" else C) - 1
                for i, j in list(chosen) + ([(0, m), (m, 0), (m // 2, m)] if len(pairs) > lim else []):
                    q.load(1, M(R, C)).call(op, a=1, i=i, j=j)
            if R == C and R >= 2 and R <= 33:
                for i, j in rp if len(rp) <= 64 else g.r.sample(rp, 12):
                    q.load(0, M(R, R)).call("minor", a=0, i=i, j=j)
            progs.append(q)
    progs += sweep(g, ("trans", "swapr", "swapc"), ("minor",))
    return progs


# ------------------------------------------------------------------ C11
def gen_C11(g):
    progs = []
    k = 0
    lim = 7 if g.thorough else 6
    dims = [(a, b, c) for a in range(1, lim) for b in range(1, lim) if a != b for c in range(1, lim)]
    wide = (1, 2, 3, 8, 11, 16, 25, 40)
    dims += [(a, b, c) for a in wide for b in wide for c in wide if a != b and max(a, b, c) > 5 and (g.thorough or (wide.index(a) + 3 * wide.index(b) + 5 * wide.index(c)) % 3 == 0 or c == 1 or min(a, b) == 1)]
    dims += [(1, 16, 3), (17, 2, 5), (8, 9, 10), (3, 30, 1), (30, 3, 7), (12, 20, 12), (33, 1, 2), (2, 33, 16), (64, 1, 8), (1, 64, 8), (1, 2, 300), (100, 101, 2), (16, 32, 33), (7, 8, 64)]
    for i1, i2, j in dims:
        k += 1
        for n, ty in enumerate(rotate(g, k, 2)):
            q, M = move_prog(g, ty, "tokens" if (n + k) % 3 == 0 else "")
            q.load(0, M(i1, j)).load(1, M(i2, j)).call("catv", a=0, b=1)
            q.load(4, M(j, i1)).load(5, M(j, i2)).call("cath", a=4, b=5)
            progs.append(q)
    for n in list(range(1, 10)) + [12, 16, 17, 25, 32, 33, 40]:
        for m, ty in enumerate(MAIN + MORE):
            q, M = move_prog(g, ty, "tokens" if (m + n) % 2 else "")
            q.load(0, M(n, n)).load(1, M(n, n))
            q.call("catV", a=0, b=1).call("catH", a=0, b=1).call("catpair", a=0, b=1).call("catpair", a=1, b=0).call("catV", a=0, b=0)
            progs.append(q)
    progs += sweep(g, ("catv", "cath"))
    return progs


# ------------------------------------------------------------------ C12
def gen_C12(g):
    progs = []
    for k, (R, C) in enumerate(SMALL + BIG + HUGE + [(n, n) for n in (10, 20, 24, 33, 40, 48)]):
        for n, ty in enumerate(rotate(g, k, 3)):
            tok = (n + k) % 2 and ty != "gf"
            q, M = move_prog(g, ty, "tokens" if tok else "")
            v = lambda: M(1, 1)[0][0] if not tok else (lambda x: "nan" if x is None else x)(g.token(ty))
            q.call("fill", [R, C], s=v()).call("zeros", [R, C]).call("ones", [R, C]).call("fill", [R, C], s=0).call("fill", [R, C], s=1).call("fill", [R, C], s=v())
            if ty in SIGNED or ty in FLOATS:
                q.call("fill", [R, C], s=-1)
            if R == C:
                q.call("onessq", [R]).call("eye", [R]).call("eyes", [R], s=v()).call("eyes", [R], s=0).call("eye", [R]).call("eyes", [R], s=1)
                if ty in SIGNED or ty in FLOATS:
                    q.call("eyes", [R], s=-1)
            progs.append(q)
        q = Prog("u32", doms=[Dom(32768)])
        q.call("onesu", [R, C])
        progs.append(q)
    progs += sweep(g, ("fill", "zeros", "ones"), ("eye", "eyes"))
    return progs


# ------------------------------------------------------------------ C13
CMP_TYPES = ("i32", "f64", "f32", "i64", "u8", "i16", "ld", "i8", "u16", "lng")
CMP_SCALES = {"i32": (1,), "i64": (1, Fraction(1, 2 ** 33)), "lng": (1, Fraction(1, 2 ** 40)), "f64": (1, 8, 2 ** 40, Fraction(1, 2 ** 40)),
              "f32": (1, 8, 2 ** 18, Fraction(1, 2 ** 20)), "ld": (1, 16, 2 ** 50, Fraction(1, 2 ** 60))}
SHIFTS = {"f64": ((2 ** 40, 1), (-2 ** 48, 8), (2 ** 27, 2 ** 20), (2 ** 52, 1)), "i32": ((2 ** 31 - 1, 1), (-2 ** 31 + 200, 1), (2 ** 25, 1)), "f32": ((2 ** 24, 1), (-2 ** 20, 4)),
          "i64": ((2 ** 62, 1), (-2 ** 55, 1), (2 ** 33, 1)), "lng": ((2 ** 63 - 1, 1), (2 ** 54, 1)), "ld": ((2 ** 60, 1), (2 ** 54, 2 ** 5))}
CMP_RANGE = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767)}


def plus(v, d):
    if not isinstance(d, tuple):
        return v + d
    v = v if isinstance(v, tuple) else (v, 0)
    return v[0] + d[0], v[1] + d[1]


def gen_C13(g):
    progs = []
    T = g.thorough
    shapes = [(r, c) for r in range(1, 7) for c in range(1, 7)] + [(1, 20), (20, 1), (9, 8), (16, 16), (2, 33), (7, 7), (8, 8), (33, 2), (32, 32), (1, 100), (100, 1), (64, 5), (17, 18)]
    for k, (R, C) in enumerate(shapes):
        tys = CMP_TYPES if T else (pick(CMP_TYPES[:4], k), pick(CMP_TYPES, k + k // 10), pick(CMP_TYPES[4:], k + k // 6))
        for ty in dict.fromkeys(tys):
            scales = CMP_SCALES.get(ty, (1,))
            for sc in scales if T else dict.fromkeys((pick(scales, k), pick(scales, k + 1))):
                u = lambda v: (Fraction(v) / sc)
                n = lambda v: int(u(v)) if u(v).denominator == 1 else u(v)
                st = lambda M: [[n(v) for v in row] for row in M]
                q = Prog(ty, doms=[Dom(0, scale=sc)])
                lo, hi = CMP_RANGE.get(ty, (-60, 60))
                A = [[g.r.choice((lo, hi, 0)) if ty in CMP_RANGE and g.r.random() < 0.2 else g.r.randrange(lo, hi + 1) for _ in range(C)] for _ in range(R)]
                q.load(0, st(A)).load(1, st(A))
                q.call("cmp", a=0, b=1, eps=0).call("cmp", a=0, b=0, eps=u(3)).call("cmp", a=0, b=1, eps=u(1)).call("cmp", a=0, b=1, eps=u(-1))
                pos = list(itertools.product(range(R), range(C)))
                if len(pos) > 36:
                    pos = [(0, 0), (R - 1, C - 1), (0, C - 1), (R - 1, 0)] + g.r.sample(pos, 16 if len(pos) < 300 else 6)
                for i, j in pos:
                    e = g.r.randrange(0, 40)
                    for dlt in (e, e + 1, -e, -e - 1, e - 1) if T else g.r.sample((e, e + 1, -e, -e - 1), 2):
                        B = [row[:] for row in A]
                        B[i][j] += dlt
                        if ty in CMP_RANGE and not lo <= B[i][j] <= hi:
                            continue
                        q.load(1, st(B)).call("cmp", a=0, b=1, eps=u(e)).call("cmp", a=1, b=0, eps=u(e))
                    if ty in CMP_RANGE:              # as far apart as the type allows
                        B = [row[:] for row in A]
                        B[i][j] = g.r.choice((lo, hi))
                        d = abs(B[i][j] - A[i][j])
                        q.load(1, B).call("cmp", a=0, b=1, eps=d).call("cmp", a=1, b=0, eps=max(0, d - 1))
                # a spread of differences within and just outside
                for e in (5, 9):
                    B = [[v + g.r.randrange(-e, e + 1) if ty not in CMP_RANGE or lo + 10 <= v <= hi - 10 else v for v in row] for row in A]
                    q.load(1, st(B)).call("cmp", a=0, b=1, eps=u(e)).call("cmp", a=0, b=1, eps=u(e - 1))
                progs.append(q)
        # large operands, small differences
        for ty in SHIFTS if T else dict.fromkeys((pick(tuple(SHIFTS), k), pick(tuple(SHIFTS), k + 1 + k // 6))):
            for base, sc in SHIFTS[ty] if T else (pick(SHIFTS[ty], k),):
                st = lambda M: [[norm(base + Fraction(v) / sc) for v in row] for row in M]
                A = [[g.r.randrange(-40, 1) for _ in range(C)] for _ in range(R)]
                q = Prog(ty, doms=[ShiftDom(base, sc)]).load(0, st(A))
                q.call("cmp", a=0, b=0, eps=0)
                for _ in range(4):
                    e = g.r.randrange(0, 20)
                    for dlt in (e, e + 1, -e, -e - 1):
                        B = [row[:] for row in A]
                        i, j = g.r.randrange(R), g.r.randrange(C)
                        B[i][j] += dlt if A[i][j] + dlt <= 0 else -dlt
                        q.load(1, st(B)).call("cmp", a=0, b=1, eps=Fraction(e) / sc).call("cmp", a=1, b=0, eps=Fraction(e) / sc)
                progs.append(q)
        # differences that have more bits than the tolerance
        wide = ("f64", "i64", "i32", "ld", "lng")
        for ty in wide if T else (pick(wide, k), pick(wide, k + 2 + k // 5)):
            scales = (1, Fraction(1, 2 ** 31)) if ty in ("i64", "lng") else CMP_SCALES[ty]
            for sc in scales if T else (pick(scales, k),):
                st = lambda M: [[norm(Fraction(v) / sc) for v in row] for row in M]
                A = [[g.r.randrange(-2 ** 28, 2 ** 28) for _ in range(C)] for _ in range(R)]
                q = Prog(ty, doms=[Dom(0, scale=sc)]).load(0, st(A))
                for _ in range(3):
                    x = g.r.randrange(1, 5)
                    e = g.r.randrange(2 ** 23, 2 ** 24) << x
                    for dlt in (e, e + 1, -e - 1, 1 - e, e + (1 << x - 1)):
                        B = [row[:] for row in A]
                        i, j = g.r.randrange(R), g.r.randrange(C)
                        B[i][j] += dlt
                        q.load(1, st(B)).call("cmp", a=0, b=1, eps=Fraction(e) / sc).call("cmp", a=1, b=0, eps=Fraction(e) / sc)
                progs.append(q)
        # complex numbers: the distance in the plane
        ty = pick(("c64", "c32"), k)
        a, b, c = g.r.choice([t for t in TRIPLES if t[2]])
        a, b = g.r.choice(((a, b), (b, a), (-b, a), (a, -b)))
        base = (g.r.randrange(-20, 20), g.r.randrange(-20, 20))
        st = lambda M: [[(base[0] + v * a, base[1] + v * b) for v in row] for row in M]
        A = [[g.r.randrange(-30, 30) for _ in range(C)] for _ in range(R)]
        q = Prog(ty, doms=[LineDom(base, (a, b))]).load(0, st(A))
        q.call("cmp", a=0, b=0, eps=0)
        for _ in range(3):
            e = g.r.randrange(0, 20)
            for dlt in (e, e + 1, -e, -e - 1):
                B = [row[:] for row in A]
                B[g.r.randrange(R)][g.r.randrange(C)] += dlt
                q.load(1, st(B)).call("cmp", a=0, b=1, eps=e * c).call("cmp", a=1, b=0, eps=e * c)
        progs.append(q)
        # NaN is equal to nothing; an infinity only near another one if the tolerance is infinite
        for ty in FLOATS if T else ("f64", pick(("f32", "ld"), k)):
            A = g.mat(ty, R, C)
            for i, j in {(0, 0), (R - 1, C - 1), (g.r.randrange(R), g.r.randrange(C))}:
                q = Prog(ty, doms=[ExtDom()])
                for v in (None, "inf", "-inf"):
                    B = [row[:] for row in A]
                    B[i][j] = v
                    q.load(0, A).load(1, B).call("cmp", a=0, b=1, eps=100).call("cmp", a=1, b=0, eps=0).call("cmp", a=0, b=1, eps="inf")
                    if v is None:
                        q.load(2, [row[:] for row in B]).call("cmp", a=1, b=2, eps=100).call("cmp", a=1, b=1, eps=1).call("cmp", a=2, b=1, eps="inf")
                B, C2 = [row[:] for row in A], [row[:] for row in A]
                B[i][j], C2[i][j] = "inf", g.r.choice(("-inf", None))
                q.load(0, B).load(1, C2).call("cmp", a=0, b=1, eps=100).call("cmp", a=1, b=0, eps=0)
                B, C2 = [row[:] for row in A], [row[:] for row in A]
                B[i][j], C2[i][j] = 0, "-0.0"
                q.load(0, B).load(1, C2).call("cmp", a=0, b=1, eps=0).call("cmp", a=1, b=0, eps=1)
                progs.append(q)
    sym = MAIN + MORE
    for n in list(range(1, 9)) + [12, 16, 17, 32, 33]:
        for ty in sym if n <= 8 or T else dict.fromkeys((pick(sym[:6], n), "f64", "gf", pick(("i16", "ld", "u16", "lng"), n))):
            mod = P1 if ty == "gf" else 0
            fl = ty in FLOATS
            q = Prog(ty, mod=mod, doms=None if ty == "gf" else [ExtDom(8)] if fl else [TokDom()] if ty in COMPLEX else [Z])
            ask = lambda M: q.load(0, M).call("isid", a=0).call("issym", a=0)
            ask(eye(n))
            q.load(0, eye(n, 2)).call("isid", a=0)
            ask([[0] * n for _ in range(n)])
            ask([[1] * n for _ in range(n)])
            if fl:
                ask([[1 if i == j else g.r.choice(("-0.0", 0)) for j in range(n)] for i in range(n)])
            if ty in SIGNED or fl:
                ask(eye(n, -1))
            S = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i + 1):
                    S[i][j] = S[j][i] = g.val(ty, "small", mod)
            ask(S)
            pos = list(itertools.product(range(n), range(n)))
            pos = pos if len(pos) <= 36 else g.r.sample(pos, 30) if n <= 16 else [(0, n - 1), (n - 1, 0), (n - 1, n - 2), (n - 1, n - 1)] + g.r.sample(pos, 8)
            for i, j in pos:
                dlts = (1, -1, Fraction(1, 8), Fraction(-1, 8)) if fl else ((1, 0), (0, 1), (0, -1)) if ty in COMPLEX else (1, -1) if ty in SIGNED else (1,)
                for dlt in dlts if T else g.r.sample(dlts, min(2, len(dlts))):
                    E = eye(n)
                    E[i][j] = plus(E[i][j], dlt)
                    ask(E)
                    if i == j and (fl or ty in SIGNED):              # an involution
                        E[i][i] = -1
                        ask(E)
                        if g.r.random() < 0.3:
                            E[i][g.r.randrange(i, n)] = 5
                            ask(E)
                    B = [row[:] for row in S]
                    B[i][j] = plus(B[i][j], dlt)
                    if ty == "gf":
                        B[i][j] %= P1
                    if ty == "u8" and B[i][j] > 255:
                        continue
                    q.load(1, B).call("issym", a=1)
                if fl:
                    E = eye(n)
                    E[i][j] = g.r.choice((None, "inf", "-inf"))
                    q.load(0, E).call("isid", a=0)
                    if i != j:                       # a NaN facing a NaN is not equal to it; infinities are
                        B = [row[:] for row in S]
                        B[i][j], B[j][i] = g.r.choice((("inf", "inf"), ("inf", "-inf"), (None, None), (None, 1), ("-0.0", 0), (0, "inf")))
                        q.load(1, B).call("issym", a=1)
            if ty in COMPLEX:                        # equal to its adjoint, which is not the transpose
                ask([[S[i][j] if i <= j else (S[i][j][0], -S[i][j][1]) for j in range(n)] for i in range(n)])
            # symmetric about the other diagonal only; permutations of the identity
            ask(perm_rows(g, eye(n)))
            ask([list(reversed(r)) for r in eye(n)])
            progs.append(q)
            # values at the edges of the type, and differences only in the last bits
            if ty != "gf" and ty not in COMPLEX:
                q = Prog(ty, doms=[TokDom()])
                for _ in range(4 if n <= 8 else 1):
                    tok = lambda: (lambda x: 3 if x is None or x == "-0.0" else x)(g.token(ty))
                    S = [[0] * n for _ in range(n)]
                    for i in range(n):
                        for j in range(i + 1):
                            S[i][j] = S[j][i] = tok()
                    q.load(0, S).call("issym", a=0).call("isid", a=0)
                    B = [row[:] for row in S]
                    B[g.r.randrange(n)][g.r.randrange(n)] = tok()
                    q.load(0, B).call("issym", a=0)
                    i, j = g.r.randrange(n), g.r.randrange(n)
                    b = BITS[ty]
                    near = (1 + Fraction(1, 2 ** (b - 1)), 1 - Fraction(1, 2 ** b), Fraction(1, 2 ** 100), Fraction(1, 2 ** 140)) if fl else (2 ** (b - 2), 2 ** (b - 2) + 1)
                    E = eye(n)
                    E[i][j] = g.r.choice(near[:2] if i == j else near)
                    q.load(0, E).call("isid", a=0).call("issym", a=0)
                    if fl:
                        v = g.r.choice((1, Fraction(1, 2 ** 60), 2 ** 70))
                        B = [row[:] for row in S]
                        B[i][j], B[j][i] = v, v * (1 + Fraction(1, 2 ** (b - 1)))
                        q.load(0, B).call("issym", a=0)
                progs.append(q)
    progs += sweep(g, ("cmp",))
    # more than 2^8 rows and 2^16 elements; the deviation in the last rows
    n = 257
    for k, ty in enumerate(("f64", "i32")):
        q = Prog(ty, doms=[Z])
        E = eye(n)
        q.load(0, E).load(1, E).call("isid", a=0).call("issym", a=0).call("cmp", a=0, b=1, eps=0)
        E = [row[:] for row in E]
        i, j = ((n - 1, n - 2), (n - 1, n - 1))[k]
        E[i][j] += 2
        q.load(1, E).call("isid", a=1).call("issym", a=1).call("cmp", a=0, b=1, eps=1)
        progs.append(q)
    return progs


# ------------------------------------------------------------------ C14
def order_token(g, ty):
    """a value at the edges of the type that can be ordered"""
    while True:
        v = g.token(ty)
        if v is not None:
            return v


def gen_C14(g):
    progs = []
    types = ("i32", "f64", "i64", "f32", "u8", "u32", "gf")
    more = ("ld", "i8", "i16", "u16", "u64", "lng")
    for k, (R, C) in enumerate(SMALL + BIG + HUGE):
        for ty in dict.fromkeys(types + more if g.thorough and R * C < 2000 else (pick(types, k), pick(types, k + 2 + k // 8), pick(more, k))):
            fl = ty in FLOATS
            sc = {"f64": g.r.choice((1, 8, 2 ** 40)), "f32": g.r.choice((1, 8)), "ld": g.r.choice((1, 2 ** 50)), "i64": g.r.choice((1, Fraction(1, 2 ** 33)))}.get(ty, 1)
            q = Prog(ty, mod=P1 if ty == "gf" else 0, doms=None if ty == "gf" else [Dom(0, scale=sc)])
            for spread in (1, 2, 5, 40, 10 ** 4):
                if R * C > 600 and spread > 5:
                    continue
                lo = 0 if ty in UNSIGNED or ty == "gf" else -spread
                hi = min(spread, 255 if ty == "u8" else 127 if ty == "i8" else spread)
                A = [[Fraction(g.r.randrange(max(lo, -128 if ty == "i8" else lo), hi + 1)) / sc for _ in range(C)] for _ in range(R)]
                A = [[int(v) if v.denominator == 1 else v for v in row] for row in A]
                if fl:
                    A = [["-0.0" if v == 0 and g.r.random() < 0.3 else v for v in row] for row in A]
                q.load(0, A).call("hist", a=0).call("cumhist", a=0)
            q.load(0, [[7] * C for _ in range(R)] if sc == 1 else [[0] * C for _ in range(R)]).call("hist", a=0).call("cumhist", a=0)
            progs.append(q)
            if ty != "gf" and R * C <= 1200:         # the edges of the type; values one unit apart
                q = Prog(ty, doms=[RankDom()])
                for _ in range(2):
                    pool = [order_token(g, ty) for _ in range(g.r.choice((2, 5, 20)))]
                    if fl:
                        pool += [2 ** 20, 2 ** 20 + Fraction(1, 2 ** (BITS[ty] - 21)), Fraction(1, 2 ** 30), Fraction(1, 2 ** 30) * (1 + Fraction(1, 2 ** (BITS[ty] - 1)))]
                    q.load(0, [[g.r.choice(pool) for _ in range(C)] for _ in range(R)]).call("hist", a=0).call("cumhist", a=0)
                progs.append(q)
    # counts beyond 16 bits
    for ty in ("u8", "i32", "f64") if g.thorough else (g.r.choice(("u8", "i32", "f64")),):
        A = [[5 if g.r.random() < 0.999 else 9 for _ in range(257)] for _ in range(258)]
        progs.append(Prog(ty, doms=[Z]).load(0, A).call("hist", a=0).call("cumhist", a=0))
    progs += sweep(g, ("hist", "cumhist"))
    return progs


# ------------------------------------------------------------------ C15
def rows_of(f, R, C):
    return [f[i * C:(i + 1) * C] for i in range(R)]


def gen_C15(g):
    progs = []
    T = g.thorough
    ints = ("i32", "i64", "u8", "i16", "u16", "u32", "u64", "lng", "i8")
    for k, (R, C) in enumerate(SMALL + BIG + HUGE):
        N = R * C
        # integers; sums are kept in the element type and have to fit it
        for ty in ints if T else dict.fromkeys(("i32", pick(ints, k), pick(ints[3:], k + k // 6))):
            q = Prog(ty, doms=[Z])
            top = min(2 ** 29, 2 ** (BITS[ty] - (0 if ty in UNSIGNED else 1)) - 1)
            for _ in range(4 if T else 2):
                lo, hi = g.r.choice(((-9, 9), (-1000, 1000), (-5, 0), (0, 5), (-10 ** 4, 10 ** 4), (-100, -90), (90, 100)))
                lim = top // N
                lo, hi = max(lo, -lim if ty in SIGNED else 0), min(hi, lim)
                if lo > hi:
                    lo, hi = 0, min(5, lim)
                A = [[g.r.randrange(lo, hi + 1) for _ in range(C)] for _ in range(R)]
                q.load(0, A).call("mean", a=0).call("median", a=0)
                f = sorted(v for row in A for v in row)
                if g.r.random() < 0.5:
                    f.reverse()
                q.load(0, rows_of(f, R, C)).call("median", a=0).call("mean", a=0)
                # rows in order but not the whole; two values; up and down again; one value far from the rest
                x, y = sorted((g.r.randrange(lo, hi + 1), g.r.randrange(lo, hi + 1)))
                f = [f, [g.r.choice((x, y)) for _ in f], [y] * (N // 2) + [x] * (N - N // 2), [x] + [y] * (N - 1), [x] * (N - 1) + [y], sorted(f)[::2] + sorted(f)[1::2][::-1]][g.r.randrange(6)]
                q.load(0, rows_of(f, R, C)).call("median", a=0).call("mean", a=0)
                q.load(0, [sorted(row) for row in A]).call("median", a=0)
            # all but one element equal; sums that just miss a multiple of the count
            for d in (1, -1):
                if ty in SIGNED or d > 0:
                    A = [[d if g.r.random() < 0.5 else 0 for _ in range(C)] for _ in range(R)]
                    A[g.r.randrange(R)][g.r.randrange(C)] = 0
                    q.load(0, A).call("mean", a=0)
                    if N <= top:
                        q.load(0, [[d] * C for _ in range(R)]).call("mean", a=0).call("median", a=0)
            progs.append(q)
            q = Prog(ty, doms=[Z] if BITS[ty] < 32 else [RankDom()])
            if BITS[ty] < 32:                         # two middle elements never overflow: arithmetic is in int
                q.load(0, g.tokens(ty, R, C)).call("median", a=0)
                q.load(0, g.tokens(ty, R, C)).call("median", a=0)
            elif N % 2:
                q.load(0, g.tokens(ty, R, C)).call("median", a=0)
            else:
                continue
            progs.append(q)
        # floating point
        for ty in FLOATS if T else ("f64", pick(("f32", "ld"), k)):
            if ty == "f32" and N > 100:
                continue
            for _ in range(3 if T else 1):
                b = 30 if ty != "f32" else 5
                A = [[g.r.randrange(-b, b + 1) for _ in range(C)] for _ in range(R)]
                kk = g.r.choice((0, -3, 4)) if ty == "f32" else g.r.choice((0, 0, -3, 4, -30, 20))
                u = Fraction(2) ** kk
                tol = {"f64": 1e-9, "f32": 2e-5, "ld": 1e-12}[ty]
                q = Prog(ty, doms=[Dom(P1), Dom(P2)])
                q.load(0, scaled(A, kk)).call("mean", a=0, snap=(1, tol, u / N))
                if ty != "f32" or N <= 20:
                    q.call("var", a=0, snap=(1, 1e-10 if ty != "f32" else 2e-5, u * u / N ** 2))
                progs.append(q)
                q = Prog(ty, doms=[Dom(0, scale=1 / u)])
                q.load(0, scaled(A, kk)).call("median", a=0, approx=("median2", 2 / u, 0))
                f = sorted((v for row in A for v in row), reverse=g.r.random() < 0.5)
                q.load(0, scaled(rows_of(f, R, C), kk)).call("median", a=0, approx=("median2", 2 / u, 0))
                progs.append(q)
                if N % 2:                             # the middle element itself, whatever it is
                    q = Prog(ty, doms=[RankDom()]).load(0, [[order_token(g, ty) for _ in range(C)] for _ in range(R)])
                    progs.append(q.call("median", a=0))
                # standard deviation of a set with a perfect-square variance: m +- d
                if N % 2 == 0:
                    d, m = g.r.randrange(1, 30), g.r.randrange(-20, 20)
                    f = [m + d, m - d] * (N // 2)
                    g.r.shuffle(f)
                    if N <= 1300:
                        q = Prog(ty, doms=[Dom(0, scale=1 / u)])
                        q.load(0, scaled(rows_of(f, R, C), kk))
                        q.call("stddev", a=0, snap=(1, 1e-6 if ty != "f32" else 1e-3, u))
                        progs.append(q)
                    if ty != "f32" and N <= 64:      # far from the origin: the deviations are what counts
                        off = 2 ** 26
                        q = Prog(ty, doms=[Dom(P1), Dom(P2)])
                        q.load(0, [[off + x for x in row] for row in rows_of(f, R, C)])
                        q.call("var", a=0, snap=(1, 1e-6)).call("mean", a=0, snap=(1, 1e-9))
                        progs.append(q)
                elif N <= 1300:                       # all equal: nothing deviates
                    q = Prog(ty, doms=[Dom(0, scale=1 / u)])
                    q.load(0, scaled([[d0] * C for d0 in [g.r.randrange(-20, 20)] for _ in range(R)], kk)).call("stddev", a=0, snap=(1, 1e-4, u))
                    progs.append(q)
        # fields
        p = P1
        q = Prog("gf", mod=p)
        for _ in range(3 if T else 1):
            q.load(0, g.mat("gf", R, C, mod=p)).call("mean", a=0).call("var", a=0)
        progs.append(q)
        p = 101
        if N % p:
            while True:
                A = g.mat("gf", R, C, mod=p)
                S = sum(map(sum, A))
                ni = pow(N, -1, p)
                v = sum((x - S * ni) ** 2 for row in A for x in row) * ni % p
                if v == 0 or pow(v, (p - 1) // 2, p) == 1:
                    break
                if N == 1:
                    break
            q = Prog("gf", mod=p)
            q.load(0, A).call("stddev", a=0).call("var", a=0).call("mean", a=0)
            progs.append(q)
    progs += sweep(g, ("mean", "median", "var"))
    return progs


# ------------------------------------------------------------------ C20
FORMATS = ("fixed3", "prec3", "prec12", "showpos", "hex", "sci", "prec17", "prec0", "oct", "upper", "point", "left", "group", "hexfloat", "unitbuf", "width")


def gen_C20(g):
    progs = []
    types = ("i32", "f64", "i64", "f32", "u32", "u8", "c64", "ld", "i16", "u16", "u64", "lng", "i8", "c32")
    for k, (R, C) in enumerate(SMALL + BIG + HUGE):
        if R * C > 600 and k % 2 and not g.thorough:
            continue
        for ty in dict.fromkeys(types if g.thorough and R * C < 600 else (pick(types[:7], k), pick(types, k + 3 + k // 8), pick(types[7:], k + k // 7))):
            for kind in ("small", "wide", "tokens") if ty not in ("u8", "i8", "c64", "c32", "u32") else ("small",):
                q = g.prog(ty, "wide" if kind == "wide" else "small", env=1)
                M = lambda: g.mat(ty, R, C, kind)
                if ty in ("u8", "i8"):
                    M = lambda: [[g.r.randrange(33, 127) for _ in range(C)] for _ in range(R)]
                elif kind == "tokens":
                    q, M = Prog(ty, doms=[TokDom()], env=1), lambda: g.tokens(ty, R, C)
                q.load(0, M()).call("print", a=0).call("print", a=0)
                for f in FORMATS + ("default",) if g.thorough else g.r.sample(FORMATS, 2 if R * C < 300 else 1) + ["default"]:
                    q.fmt(f).load(0, M()).call("print", a=0)
                progs.append(q)
    progs += sweep(g, ("print",))
    return progs


# ------------------------------------------------------------------ any operation at all (C16, C18, C19)
BINARY = ("sum", "add", "sub", "minus", "mult", "mul", "strassen", "catv", "cath", "catV", "catH", "catpair", "cmp", "conv", "convf", "convv")
CTORS = ("fill", "zeros", "ones", "onessq", "eye", "eyes")
RING_OPS = EW + ("mult", "mul", "strassen", "trans", "swapr", "swapc", "minor", "catv", "cath", "catV", "catH", "catpair") + CTORS + (
    "conv", "convf", "convv", "isid", "issym", "hist", "cumhist")
INT_OPS = RING_OPS + ("abs", "cmp", "mean", "median", "div", "divop", "det", "inv", "pow", "print")
FLT_OPS = RING_OPS + ("abs", "cmp", "mean", "median", "div", "divop", "det", "inv", "pow", "lu", "chol", "var", "stddev", "print")
CPL_OPS = tuple(o for o in RING_OPS if o not in ("hist", "cumhist"))
OPS = {
    "gf": RING_OPS + ("det", "inv", "pow", "lu", "chol", "mean", "var", "stddev", "div", "divop"),
    "i32": INT_OPS, "f64": FLT_OPS, "f32": FLT_OPS, "i64": INT_OPS,
    "u8": RING_OPS + ("print",),
    "c64": CPL_OPS,
    "ld": FLT_OPS, "lng": INT_OPS, "i16": RING_OPS + ("abs", "cmp", "mean", "median", "div", "divop", "print"),
    "u16": RING_OPS + ("median", "print"),
    "u32": RING_OPS + ("mean", "median", "div", "divop", "print"), "u64": RING_OPS + ("mean", "median", "div", "divop", "print"),
    "c32": CPL_OPS,
}
OP_TYPES = ("gf", "f64", "i32", "f32", "i64", "u8", "c64")
OP_MORE = ("ld", "lng", "u32", "i16", "u64", "c32", "u16")
FIELD_F = ("det", "inv", "pow", "lu", "div", "divop", "mean", "var")     # floating point: decided in a prime field
SQUARE = ("det", "inv", "pow", "lu", "chol", "minor", "catV", "catH", "catpair", "isid", "issym", "onessq", "eye", "eyes")


def op_doms(ty, op):
    if ty == "gf":
        return None
    if ty == "u8":
        return [Dom(256)]
    if ty == "u16" or ty in UNSIGNED and op in ("sub", "minus", "subs", "minuss", "dec", "strassen", "mult", "mul"):
        return [Dom(32768)]
    if ty in COMPLEX:
        return exact_doms(ty)
    if ty in FLOATS and op in FIELD_F:
        return [Dom(P1)]
    return [Z]


def op_mod(g, op):
    if op in ("chol", "stddev"):
        return g.r.choice((101, P1)) if op == "chol" else 101
    if op in ("mean", "var"):
        return P1
    return g.r.choice((P1, 101, 7))


def operands(g, op, ty, R, C, mod):
    """fresh operands (slots 0 and 1) and the remaining arguments of one valid call"""
    v = lambda: g.val(ty, "small", mod)
    M = lambda r, c: g.mat(ty, r, c, "small", mod)
    kw = {}
    n = R
    snap = None
    f = ty in FLOATS
    if op in CTORS:
        kw["dims"] = [R, C] if op in ("fill", "zeros", "ones") else [R]
        if op in ("fill", "eyes"):
            kw["s"] = v()
        return {}, kw
    A = M(n, n) if op in SQUARE else M(R, C)
    L = {0: A}
    kw["a"] = 0
    if op in SCALAR:
        kw["s"] = v()
    elif op in ("div", "divop"):
        s = 0
        while s == 0:
            s = v() if not f else g.r.choice((1, 2, -4, Fraction(1, 2), 3))
        kw["s"] = s
        if f:
            snap = (3, 1e-6)
    elif op in ("sum", "add", "sub", "minus", "cmp"):
        L[1] = M(R, C)
        if op == "cmp":
            kw["eps"] = g.r.choice((0, 3, 9, 30))
            if g.r.random() < 0.5:
                L[1] = [[max(0, x + g.r.randrange(-2, 3)) if ty in UNSIGNED else x + g.r.randrange(-2, 3) for x in row] for row in A]
    elif op in ("mult", "mul"):
        L[1] = M(C, g.r.choice((R, C)))
    elif op == "strassen":
        L = {0: M(2, 2), 1: M(2, 2)}
    elif op in ("catV", "catH", "catpair"):
        L[1] = M(n, n)
    elif op == "catv":
        L[1] = M(R + 1, C)
    elif op == "cath":
        L[1] = M(R, C + 1)
    elif op in ("conv", "convf", "convv"):
        if op == "convv":
            L[0] = M(max(3, R), max(3, C))
        L[1] = M(3, 3)
    elif op in ("swapr", "swapc"):
        m = R if op == "swapr" else C
        kw["i"], kw["j"] = g.r.randrange(m), g.r.randrange(m)
    elif op == "minor":
        if n < 2:
            n = 2
            L[0] = M(2, 2)
        kw["i"], kw["j"] = g.r.randrange(n), g.r.randrange(n)
    elif op == "det":
        if ty == "gf":
            L[0] = field_matrix(g, n, mod)
        elif f:
            L[0] = mmul(unit_lower(g, n, 1), upper(g, n, 2, lambda i: g.r.choice((1, 2, -1))))
        else:
            b = 9 if n <= 3 else 4 if n <= 5 else 1
            L[0] = [[g.r.randrange(-b, b + 1) if n <= 6 or g.r.random() < 2.0 / n else 0 for _ in range(n)] for _ in range(n)]
            if n > 8:
                L[0] = perm_rows(g, upper(g, n, 2, lambda i: g.r.choice((1, -1)), density=3.0 / n))
    elif op in ("inv", "pow"):
        if op == "pow":
            kw["e"] = g.r.choice((0, 1, 2, 3, 4, 5, -1, -2, -3) if ty in ("gf",) + FLOATS + SIGNED else (0, 1, 2, 3, 4))
        if ty == "gf":
            L[0] = nonsingular_field(g, n, mod)
        elif f:
            L[0] = int_matrix(g, n, maxdet=2, lim=1, diag=(1, -1, 1, 2) if op == "inv" else (1, -1)) if n <= 6 else perm_rows(g, eye(n, 2 if op == "inv" else 1))
            while n <= 6 and inverse_bound(L[0]) > 4:
                L[0] = int_matrix(g, n, maxdet=2, lim=1, diag=(1, -1, 1) if op == "inv" else (1, -1))
            snap = (2 if op == "inv" else 1, 1e-6 if ty != "f32" else 2e-3)
        elif op == "inv" or kw["e"] < 0:
            L[0] = unimodular(g, n, 9)
        else:
            L[0] = [[g.r.randrange(-1, 2) for _ in range(n)] for _ in range(n)]
    elif op == "lu":
        if ty == "gf":
            L[0] = mmul(unit_lower(g, n, 0, mod), upper(g, n, 0, lambda i: g.r.randrange(1, mod), mod), mod)
        else:
            L[0] = mmul(unit_lower(g, n, 1), upper(g, n, 2, lambda i: g.r.choice((1, 2, -1))))
    elif op == "chol":
        if ty == "gf":
            K = [[(g.r.randrange(1, mod // 2 + 1) if i == j else g.r.randrange(mod) if j < i else 0) for j in range(n)] for i in range(n)]
            L[0] = mmul(K, transpose(K), mod)
        else:
            K = [[(g.r.randrange(2, 5) if i == j else g.r.randrange(-2, 3) if j < i else 0) for j in range(n)] for i in range(n)]
            L[0] = mmul(K, transpose(K))
            snap = (1, 1e-3)
    elif op in ("mean", "var") and f:
        N = R * C
        b = 5 if ty == "f32" else 9
        L[0] = [[g.r.randrange(-b, b + 1) for _ in range(C)] for _ in range(R)]
        snap = (1, 1e-9 if ty != "f32" else 2e-5, Fraction(1, N if op == "mean" else N * N))
    elif op == "stddev":
        N = R * C
        if ty == "gf":
            # pairs m+d, m-d (and m in between for an odd count) have a square variance if scaled right: search
            while True:
                A = M(R, C)
                if N % mod == 0:
                    A = M(R, C)
                    break
                S = sum(map(sum, A))
                ni = pow(N, -1, mod)
                w = sum((x - S * ni) ** 2 for row in A for x in row) * ni % mod
                if w == 0 or pow(w, (mod - 1) // 2, mod) == 1:
                    break
            L[0] = A
        else:
            d, m = g.r.randrange(1, 9), g.r.randrange(-9, 9)
            if N % 2:
                d = 0
            fl = ([m + d, m - d] * (N // 2 + 1))[:N]
            g.r.shuffle(fl)
            L[0] = [fl[i * C:(i + 1) * C] for i in range(R)]
            snap = (1, 1e-3)
    elif op == "median" and f:
        kw["approx"] = ("median2", 2, 0)
    if ty == "u8" and op == "print":
        L[0] = [[g.r.randrange(33, 127) for _ in range(C)] for _ in range(R)]
    if snap:
        kw["snap"] = snap
    return L, kw


def start(g, op, ty, mod=0, **about):
    return Prog(ty, doms=op_doms(ty, op), mod=mod, **about)


def issue(q, op, L, kw):
    for s, M in sorted(L.items()):
        q.load(s, M)
    q.call(op, **kw)
    if op in BINARY:
        kw = dict(kw, b=1)
    return q


def call_with(g, q, op, ty, R, C, mod):
    L, kw = operands(g, op, ty, R, C, mod)
    if op in BINARY:
        kw["b"] = 1
    for s, M in sorted(L.items()):
        q.load(s, M)
    kw.setdefault("d", 8)
    kw.setdefault("d2", 9)
    q.call(op, **kw)
    return L, kw


def sweep(g, ops, only_large=()):
    """every number of rows and of columns up to a bound, next to a small other dimension; one large shape"""
    progs = []
    types = ("gf", "i32", "f64", "f32", "i64") if g.thorough else ("gf", "i32", "f64")
    for n, op in enumerate(ops + only_large):
        tys = [ty for ty in types if op in OPS[ty]]
        todo = {}
        for m in () if op in only_large else range(5, 71 if g.thorough else 36):
            for x, shape in enumerate(((pick((1, 2, 3), m), m), (m, pick((3, 1, 2), m)))):
                for ty in tys if g.thorough else (pick(tys, m + n + x),):
                    todo.setdefault(ty, []).append(shape)
        for ty, shapes in todo.items():
            mod = op_mod(g, op) if ty == "gf" else 0
            q = start(g, op, ty, mod, note="every size")
            for R, C in shapes:
                call_with(g, q, op, ty, R, C, mod)
            progs.append(q)
        # more than 2^16 elements, and more than 2^8 in each direction
        R, C = pick(((257, 258), (260, 257)), n)
        if op in SQUARE or op in ("eye", "eyes"):
            R = C = 257
        elif op in ("catv", "cath"):
            R, C = (130, 257) if op == "catv" else (257, 130)
        ty = [ty for ty in tys if ty != "gf"][0] if n % 2 or tys[-1] == "gf" else tys[-1]
        q = start(g, op, ty, note="large")
        call_with(g, q, op, ty, R, C, 0)
        progs.append(q)
    return progs


def perturb(g, ty, mod, M, which):
    """the same matrix but for one element"""
    M = [row[:] for row in M]
    R, C = len(M), len(M[0])
    i, j = {"first": (0, 0), "last": (R - 1, C - 1)}.get(which, (g.r.randrange(R), g.r.randrange(C)))
    x = M[i][j]
    M[i][j] = (x + 1) % mod if mod else (x + 1) % 256 if ty == "u8" else (x[0] + 1, x[1]) if isinstance(x, tuple) else x + 1
    return M


# operations whose operand may be perturbed freely without leaving the operation's domain
FREE = tuple(o for o in RING_OPS if o not in CTORS) + ("abs", "cmp", "median", "det")


def still_valid(g, op, ty, mod, M, kw):
    """can the operation be applied to this (perturbed) operand and decided?"""
    n = len(M)
    if op in ("inv", "pow") and ty == "gf":
        return det(M, mod) != 0
    if op == "lu" and ty == "gf":
        return all(det([row[:k] for row in M[:k]], mod) for k in range(1, n + 1))
    if op == "det" and ty in FLOATS:
        return n <= 3
    return op in FREE


def variants(g, ty, mod, M, cap, ok=lambda M: True):
    """matrices a memory of the previous call could mistake for M: one element different (every position),
    the same elements in another order, the opposite sign"""
    R, C = len(M), len(M[0])
    pos = list(itertools.product(range(R), range(C)))
    if len(pos) > cap:
        pos = [(0, 0), (R - 1, C - 1), (0, C - 1), (R - 1, 0)] + g.r.sample(pos, max(1, cap - 4))
    bump = lambda x: (x + 1) % mod if mod else (x + 1) % 256 if ty == "u8" else (x[0], x[1] + 1) if isinstance(x, tuple) and g.r.random() < 0.5 else (x[0] + 1, x[1]) if isinstance(x, tuple) else x + 1
    for i, j in pos:                                 # each differs from the one before in one place
        B = [row[:] for row in M]
        B[i][j] = bump(B[i][j])
        if ok(B):
            M = B
            yield B
    if R > 1:
        yield M[::-1]
        yield M[1:] + M[:1]
    if C > 1:
        yield [row[::-1] for row in M]
    if R == C and R > 1:
        yield transpose(M)
    if R * C > 1:                                    # same sum, same multiset but for two
        B = [row[:] for row in M]
        (i, j), (k, l) = g.r.sample([(x, y) for x in range(R) for y in range(C)], 2)
        B[i][j], B[k][l] = B[k][l], B[i][j]
        yield B
    if mod:
        yield [[-v % mod for v in row] for row in M]
    elif ty in SIGNED or ty in FLOATS:
        yield [[-v for v in row] for row in M]


def gen_C16(g):
    progs = []
    T = g.thorough
    shapes = [(1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (4, 4), (5, 5), (1, 5), (6, 4), (7, 7), (4, 9), (8, 8), (16, 3), (12, 12), (17, 5)]
    k = 0
    for ty in OP_TYPES + OP_MORE:
        for op in OPS[ty]:
            cnt = len(shapes) if T and ty in OP_TYPES else (6 if ty in ("gf", "f64") else 3 if ty == "i32" or T else 2 if ty in OP_TYPES else 1)
            for sh in range(cnt):
                R, C = pick(shapes, k)
                k += 1
                if op in SQUARE:
                    C = R
                if op in ("inv", "pow", "det") and R > 6 and ty != "gf":
                    R = C = 5
                if op in ("inv", "pow") and R > 8:
                    R = C = 8
                if ty == "f32" and op in ("var", "mean", "chol", "stddev") and R * C > 60:
                    R, C = min(R, 6), min(C, 6)
                mod = op_mod(g, op) if ty == "gf" else 0
                q = start(g, op, ty, mod, pure=1, env=1)
                L, kw = call_with(g, q, op, ty, R, C, mod)
                q.call(op, **kw)                                        # again, same operands
                L2, kw2 = call_with(g, q, op, ty, R, C, mod)            # new contents, same objects
                free = op not in CTORS and op not in ("swapr", "swapc") and still_valid(g, op, ty, mod, L2[0], kw2)
                if free:
                    cap = (20 if T else 9) if sh < 2 else 5
                    for V in variants(g, ty, mod, L2[0], cap, lambda V: still_valid(g, op, ty, mod, V, kw2)):
                        if still_valid(g, op, ty, mod, V, kw2):
                            q.load(0, V).call(op, **kw2)
                    if 1 in L2:
                        for V in variants(g, ty, mod, L2[1], cap // 2):
                            q.load(1, V).call(op, **kw2)
                if "s" in kw2 and op not in ("div", "divop"):           # the same operand, another scalar
                    for s2 in (g.val(ty, "small", mod), 0, 1, kw2["s"]):
                        q.call(op, **dict(kw2, s=s2))
                if op == "pow" and ty == "gf":
                    for e in g.r.sample(range(-6, 9), 6):
                        q.call(op, **dict(kw2, e=e))
                if op == "minor":
                    for i, j in g.r.sample(list(itertools.product(range(len(L2[0])), repeat=2)), min(4, len(L2[0]) ** 2)):
                        q.call(op, **dict(kw2, i=i, j=j))
                # other work in between
                for _ in range(3):
                    other = g.r.choice([o for o in ("sum", "mult", "trans", "eye", "zeros", "conv", "catV", "adds", "ones", "swapr", "swapc", op)])
                    r2, c2 = g.r.choice(((R, C), (2, 2), (3, 3), (2, 4), (C, R)))
                    if other == op:
                        r2, c2 = (R, C) if op in SQUARE and g.r.random() < 0.5 else (2, 2) if op in SQUARE else (r2, c2)
                    oL, okw = operands(g, other, ty, r2, c2, mod)
                    if other in BINARY:
                        okw["b"] = 5
                    if "a" in okw:
                        okw["a"] = 4
                    for s, M in oL.items():
                        q.load(4 + s, M)
                    q.call(other, d=10, d2=11, **okw)
                if ty == "gf" and op in ("inv", "pow", "lu", "div", "divop"):      # a failing call in between
                    q.load(4, [[0] * R for _ in range(R)] if op not in ("div", "divop") else g.mat(ty, R, C, "small", mod))
                    bad = dict(kw)
                    bad["a"] = 4
                    if op in ("div", "divop"):
                        bad["s"] = 0
                    if op == "pow":
                        bad["e"] = -2
                    q.call(op, **bad)
                if op not in ("swapr", "swapc"):
                    # operands still hold what they held: call with them once more, then with the first ones
                    if op not in CTORS:
                        for s, M in sorted(L2.items()):
                            q.load(s, M)
                    q.call(op, **kw2)
                for s, M in sorted(L.items()):
                    q.load(s, M)
                q.call(op, **kw)
                if op in ("sum", "add", "sub", "minus", "cmp", "strassen", "catV", "catH", "catpair") or op in ("mult", "mul") and R == C:
                    q.call(op, **dict(kw, b=0))                          # the same object twice
                    q.call(op, **dict(kw, a=1, b=1))
                if op in ("conv", "convf", "convv"):
                    q.load(6, g.mat(ty, 3, 3, "small", mod)).call(op, **dict(kw, a=6, b=6))
                if free and len(L[0]) > 1 and op in FREE:
                    # the caller exchanges rows in place, then calls again
                    q.call("swapr", a=0, i=0, j=len(L[0]) - 1).call(op, **kw)
                progs.append(q)
    # the same instantiation hundreds of times: nothing wears out, fills up or wraps around
    for ty in ("gf", "f64", "i32") if not T else OP_TYPES:
        for op in OPS[ty]:
            if op == "print" or not T and ty != "gf" and op in OPS["gf"] and op not in FIELD_F:
                continue
            mod = op_mod(g, op) if ty == "gf" else 0
            R, C = (4, 4) if op in ("det", "inv") else (3, 3) if op in SQUARE else (2, 3)
            q = start(g, op, ty, mod, pure=1, env=1)
            calls = [operands(g, op, ty, R, C, mod) for _ in range(4)]
            for L, kw in calls:
                if op in BINARY:
                    kw["b"] = 1
            for n in range(1100 if T else 280):
                L, kw = calls[n % 4] if n % 7 else g.r.choice(calls)
                if n % 3 == 0 or L is not last:
                    for s, M in sorted(L.items()):
                        q.load(s, M)
                last = L
                q.call(op, d=8, d2=9, **kw)
            # tens of thousands of times: past the ends of 16-bit counts
            if op not in ("swapr", "swapc") and ty != "ld":
                q.call(op, d=8, d2=9, **dict(kw, times=140000 if T else 66500))
            # worn, and now asked about almost the same
            if op not in CTORS and op not in ("swapr", "swapc") and still_valid(g, op, ty, mod, L[0], kw):
                for s in sorted(L):
                    for V in variants(g, ty, mod, L[s], 9, (lambda V: still_valid(g, op, ty, mod, V, kw)) if s == 0 else lambda V: True):
                        if s or still_valid(g, op, ty, mod, V, kw):
                            q.load(s, V).call(op, d=8, d2=9, **kw)
            progs.append(q)
    # many shapes, once or twice each
    more = [(3, 4), (4, 3), (2, 6), (6, 2), (1, 12), (12, 1), (9, 9), (10, 10), (1, 2), (2, 1), (5, 3), (3, 5), (6, 6), (1, 9), (8, 2), (2, 8), (1, 16), (15, 1), (11, 3), (13, 13), (5, 6), (3, 20)]
    for n, op in enumerate(sorted(set(OPS["gf"]) | set(OPS["f64"]) | set(OPS["i32"]))):
        tys = [ty for ty in ("gf", "f64", "i32") if op in OPS[ty]]
        for m, (R, C) in enumerate(more if op not in SQUARE else [(r, r) for r in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14)]):
            ty = pick(tys, n + m)
            if op in SQUARE and R > 6 and op in ("inv", "pow", "det", "chol"):
                ty = "gf"
            if op in ("inv", "pow") and R > 10:
                continue
            if ty not in tys:
                continue
            mod = op_mod(g, op) if ty == "gf" else 0
            q = start(g, op, ty, mod, pure=1, env=1)
            L, kw = call_with(g, q, op, ty, R, C, mod)
            q.call(op, **kw)
            progs.append(q)
    g.r.shuffle(progs)
    return progs


def gen_C18(g):
    progs = []
    T = g.thorough
    shapes = [(1, 1), (2, 2), (3, 3), (2, 5), (5, 2), (4, 4), (6, 6), (7, 9), (16, 16), (17, 12), (32, 32), (1, 100), (100, 1), (48, 48), (70, 70), (128, 128), (3, 400), (400, 3), (65, 33)]
    caps = {"inv": 17, "pow": 17, "det": 70, "lu": 70, "chol": 70, "mult": 70, "mul": 70}
    k = 0
    for ty in OP_TYPES + OP_MORE:
        for op in OPS[ty]:
            done = set()
            for n, (R, C) in enumerate(shapes):
                k += 1
                if not T and ty not in ("f64", "i32", "gf") and k % (4 if ty in OP_TYPES else 7):
                    continue
                if R * C > 3000 and not T and k % 3:
                    continue
                if op in caps:
                    R, C = min(R, caps[op]), min(C, caps[op])
                if op in SQUARE:
                    C = R = min(R, 128)
                if op in ("det", "lu", "pow", "inv") and ty != "gf":
                    R = C = min(R, 12 if op in ("det", "lu") else 8)
                if op in ("inv", "pow") and ty in INTS:
                    R = C = min(R, 6)
                if op in ("stddev",) and R * C > 1100:
                    R, C = 16, 16
                reps = 1
                if (R, C) in done:
                    if op not in ("det", "inv", "lu", "pow", "chol"):
                        continue
                done.add((R, C))
                if op in ("det", "inv", "lu", "pow"):
                    reps = 4 if R < 20 else 2
                mod = op_mod(g, op) if ty == "gf" else 0
                q = start(g, op, ty, mod, alloc=1, adopt=1)
                for _ in range(reps):
                    L, kw = call_with(g, q, op, ty, R, C, mod)
                    q.call(op, **kw)
                    if ty in FLOATS and op in ("det", "inv", "sum", "mult", "median", "trans", "cmp", "var", "conv", "abs") and R * C < 400:
                        q.load(0, g.ext(ty, len(L[0]), len(L[0][0]))).call(op, **kw)       # infinities and NaN
                progs.append(q)
    return progs


def gen_C19(g):
    progs = []
    T = g.thorough
    shapes = [(1, 1), (2, 2), (3, 3), (1, 4), (4, 1), (2, 5), (5, 2), (4, 4), (5, 5), (3, 7), (7, 3), (6, 6), (9, 8), (16, 5), (5, 17), (12, 12), (1, 33), (33, 1), (20, 20)]
    caps = {"inv": 7, "pow": 6}
    k = 0
    for ty in OP_TYPES + OP_MORE:
        for op in OPS[ty]:
            seen = set()
            for n, (R, C) in enumerate(shapes):
                k += 1
                if not T and ty not in ("f64", "gf") and k % (3 if ty in OP_TYPES else 8):
                    continue
                if op in caps:
                    R, C = min(R, caps[op]), min(C, caps[op])
                if op in SQUARE:
                    C = R
                if op in ("det", "pow", "lu") and ty in FLOATS:
                    R = C = min(R, 6)
                if op in ("det", "inv", "pow") and ty in INTS:
                    R = C = min(R, 7)
                if op == "inv" and ty in FLOATS:
                    R = C = min(R, 5)
                if ty == "f32" and op in ("var", "mean", "chol", "stddev") and R * C > 60:
                    R, C = min(R, 6), min(C, 6)
                if (R, C) in seen and op not in ("det", "inv", "lu", "pow", "swapr", "swapc", "minor"):
                    continue
                seen.add((R, C))
                mod = op_mod(g, op) if ty == "gf" else 0
                q = start(g, op, ty, mod, frame=1)
                for _ in range(6 if op in ("swapr", "swapc", "minor") else 3 if op in ("det", "inv", "lu") else 1):
                    call_with(g, q, op, ty, R, C, mod)
                progs.append(q)
    # every index combination of the indexed operations at the edges of the matrix
    for n in (2, 3, 4, 5):
        for ty in ("gf", "f64"):
            mod = P1 if ty == "gf" else 0
            q = start(g, "minor", ty, mod, frame=1)
            q.load(0, g.mat(ty, n, n, "small", mod))
            for i, j in itertools.product(range(n), range(n)):
                q.call("minor", a=0, i=i, j=j).call("swapr", a=0, i=i, j=j).call("swapc", a=0, i=i, j=j)
            progs.append(q)
    # elimination on matrices full of zeros: every pivot search runs to the edge
    for n in range(1, 8):
        q = Prog("gf", mod=7, frame=1)
        for _ in range(40 if T else 12):
            q.load(0, field_matrix(g, n, 7)).call("det", a=0).call("lu", a=0)
            if n <= 5:
                q.call("inv", a=0)
        progs.append(q)
    # floating point with all kinds of zero patterns: only where memory is touched matters
    for n in range(1, 9):
        q = Prog("f64", frame=1, adopt=1)
        for _ in range(40 if T else 16):
            q.load(0, [[g.r.choice((0, 0, 1, -1, 2)) for _ in range(n)] for _ in range(n)]).call("det", a=0)
            if n <= 6:
                q.call("inv", a=0)
        progs.append(q)
    return progs


# ------------------------------------------------------------------ C17
def conc_program(g, ty, op, shapes, k, other=None):
    """k calls of op (or of op and others) on different operands"""
    from vlib import ConcProg
    mod = (op_mod(g, op) if op in ("chol", "stddev") else 101 if other else op_mod(g, op)) if ty == "coop" else 0
    gty = "gf" if ty == "coop" else ty
    q = ConcProg(ty, doms=None if ty == "coop" else op_doms(ty, op), mod=mod)
    for n in range(k):
        o = op if n == 0 or other is None else other[(n - 1) % len(other)]
        R, C = shapes[n % len(shapes)]
        if o in SQUARE:
            C = R
        L, kw = operands(g, o, gty, R, C, mod)
        if o in BINARY:
            kw["b"] = 2 * n + 1
        if "a" in kw:
            kw["a"] = 2 * n
        for s, M in L.items():
            q.load(2 * n + s, M)
        kw["d"], kw["d2"] = 14, 15
        q.call(o, **kw)
    return q
