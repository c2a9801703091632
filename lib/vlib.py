"""Machinery shared by all checks: programs -> real library -> trace -> TLC.

A *program* is a straight-line sequence of caller steps (store a matrix, call the
library).  Programs are executed by a driver compiled from /repo's headers, the
execution is logged, the log is projected into a scalar domain of the
specification and TLC decides (spec/Trace.tla) whether it is a behaviour of
spec/MatrixLib.tla.
"""
import concurrent.futures as cf
import hashlib
import json
import math
import os
import random
import re
import shutil
import subprocess
import sys
import time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
NCPU = min(8, os.cpu_count() or 1)
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

P1, P2, P3 = 46337, 46327, 46309          # primes below sqrt(2^31); P1 % 4 == 1
SQRT_M1 = next(r for r in range(2, P1) if r * r % P1 == P1 - 1)
BAD = 2147483001                          # "not an element of the domain"

PLAIN = ["-O1", "-ftrivial-auto-var-init=pattern"]
NOELIDE = ["-O0", "-ftrivial-auto-var-init=pattern"]          # no allocation is optimised away
ASAN = ["-O0",          # -O0: an access whose value does not matter is still made
        "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-DVERIF_EXACT", "-DVERIF_SANITIZE", "-DVERIF_NO_ALLOC_HOOKS"]

FLOATS = ("f32", "f64", "ld")
SIGNED = ("i8", "i16", "i32", "i64", "lng")
UNSIGNED = ("u8", "u16", "u32", "u64")
INTS = SIGNED + UNSIGNED
COMPLEX = ("c32", "c64")
BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64, "lng": 64, "f32": 24, "f64": 53, "ld": 64, "c32": 24, "c64": 53}
# a type whose instantiation failing to compile is not by itself held against the library
OPTIONAL_TYPES = ("gf", "coop", "u8", "i8", "u16", "i16", "u64", "lng", "ld", "c32", "c64")


class CheckError(Exception):
    """the machinery (not the property) failed"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------- values
def is_bad(v):
    return v is None


def hexfloat(v):
    """C hexadecimal notation of an exact dyadic value"""
    f = Fraction(v)
    k = f.denominator.bit_length() - 1
    if f.denominator != 1 << k:
        raise CheckError("not a dyadic number: %r" % (v,))
    return "%s0x%xp%d" % ("-" if f < 0 else "", abs(f.numerator), -k)


def fits(ty, v):
    f = Fraction(v)
    n = abs(f.numerator)
    while n and n % 2 == 0:
        n //= 2
    return n.bit_length() <= BITS[ty]


def text(ty, v):
    """textual form of an exact value for the driver"""
    if isinstance(v, str):           # a literal such as -0.0, inf
        return v
    if ty in ("gf", "coop") or ty in INTS:
        return str(int(v))
    if ty in FLOATS:
        if v is None:
            return "nan"
        if not fits(ty, v):
            raise CheckError("value %r is not representable in %s" % (v, ty))
        return hexfloat(v)
    if ty in COMPLEX:
        re_, im = v if isinstance(v, tuple) else (v, 0)
        return "%s;%s" % (hexfloat(re_), hexfloat(im))
    raise CheckError(ty)


HEX = re.compile(r"(-?)0x([0-9a-f]+)(?:\.([0-9a-f]*))?p([+-]?\d+)$")


def untext(v):
    """exact value of what the driver printed (None: not finite)"""
    if isinstance(v, int):
        return v
    if ";" in v:
        a, b = (untext(x) for x in v.split(";"))
        return None if a is None or b is None else (a, b)
    g = HEX.match(v)
    if not g:
        return None                  # nan, inf
    m, e = int(g.group(2) + (g.group(3) or ""), 16), int(g.group(4)) - 4 * len(g.group(3) or "")
    if g.group(1):
        m = -m
    if e >= 0:
        return m << e
    return norm(Fraction(m, 1 << -e))


def norm(x):
    return x.numerator if isinstance(x, Fraction) and x.denominator == 1 else x


def snapped(v, den, tol, unit=1):
    if v is None or isinstance(v, int) and unit == 1 and den >= 1:
        return v
    if isinstance(v, tuple):
        return tuple(snapped(x, den, tol, unit) for x in v)
    w = Fraction(v) / unit
    f = w.limit_denominator(den)
    r = f * unit if abs(f - w) <= Fraction(tol) * max(1, abs(w)) else Fraction(v)
    return r.numerator if r.denominator == 1 else r


class Dom:
    """a scalar domain of the specification and the projection into it"""

    trace = "Trace"                  # the module that validates traces over this domain

    def __init__(self, m=0, scale=1, root=0):
        self.m, self.scale, self.root = m, scale, root

    def __repr__(self):
        return "Z*%s" % self.scale if self.m == 0 else "Z/%d%s" % (self.m, "[i=%d]" % self.root if self.root else "")

    def proj(self, v):
        if isinstance(v, str):
            v = {"-0.0": 0}.get(v)
        if v is None:
            return -1 if self.m else BAD
        if self.m == 0:
            if isinstance(v, tuple):
                if v[1] != 0:
                    return BAD
                v = v[0]
            x = v * self.scale
            if isinstance(x, Fraction):
                if x.denominator != 1:
                    return BAD
                x = x.numerator
            return x if abs(x) < 2 ** 30 else BAD
        if isinstance(v, tuple):
            return (self.proj(v[0]) + self.root * self.proj(v[1])) % self.m
        if isinstance(v, Fraction):
            return v.numerator * pow(v.denominator, -1, self.m) % self.m
        if v == -1 and self.gf:
            return -1
        return v % self.m

    def read(self, v):
        """what the driver printed"""
        return self.proj(untext(v))

    gf = False


class GfDom(Dom):
    """the element type itself is Z/m: -1 is the driver's poison value"""
    gf = True


class ExtDom(Dom):
    """integers (times scale), infinities and NaN"""
    INF, NAN = 2000000001, 2000000003

    def __init__(self, scale=1):
        super().__init__(0, scale)

    def __repr__(self):
        return "Z*%s with inf, NaN" % self.scale

    def proj(self, v):
        if isinstance(v, str):
            return {"-0.0": 0, "inf": self.INF, "-inf": -self.INF, "nan": self.NAN, "-nan": self.NAN}[v]
        return self.NAN if v is None else super().proj(v)

    def read(self, v):
        return self.proj(v if v in ("inf", "-inf", "nan", "-nan") else untext(v))


class TokDom(Dom):
    """values as opaque tokens (0 and 1 stand for themselves): for operations that only move elements"""

    def __init__(self):
        super().__init__(0)
        self.tok = {0: 0, 1: 1}

    def __repr__(self):
        return "tokens"

    @staticmethod
    def canon(v):
        """a cheap, unique name of the value"""
        if isinstance(v, int):
            return v
        if isinstance(v, Fraction):
            return v.numerator if v.denominator == 1 else "%xp%d" % (v.numerator, 1 - v.denominator.bit_length())
        if isinstance(v, tuple):
            c = tuple(TokDom.canon(x) for x in v)
            return c[0] if c[1] == 0 else c
        if v is None:
            return "nan"
        if ";" in v:
            return TokDom.canon(tuple(v.split(";")))
        if v.startswith("-0x0p") or v == "-0.0":
            return "-0"
        if v in ("nan", "-nan", "inf", "-inf"):
            return v.replace("-nan", "nan")
        sg, a, b, e = HEX.match(v).groups()
        m, e = int(a + (b or ""), 16), int(e) - 4 * len(b or "")
        if m == 0:
            return 0
        z = (m & -m).bit_length() - 1
        m, e = (-m if sg else m) >> z, e + z
        return m << e if e >= 0 else "%xp%d" % (m, e)

    def proj(self, v):
        return self.tok.setdefault(self.canon(v), len(self.tok))

    read = proj


class RankDom(Dom):
    """values by their rank among those the program holds: for operations that only compare and count"""

    def __init__(self):
        super().__init__(0)

    def __repr__(self):
        return "ranks"

    @staticmethod
    def key(v):
        if isinstance(v, str):
            if v in ("inf", "-inf"):
                return float(v)
            v = 0 if v == "-0.0" else untext(v)
        return v

    def prepare(self, prog):
        vals = {self.key(v) for s in prog.steps if s["k"] == "load" for row in s["M"] for v in row}
        self.rank = {v: n for n, v in enumerate(sorted(vals))}

    def proj(self, v):
        return self.rank.get(self.key(v), BAD)

    read = proj


class OddDom(RankDom):
    """sign and rank of the magnitude: for absolute values of anything"""

    def __repr__(self):
        return "signed ranks"

    def prepare(self, prog):
        vals = {abs(self.key(v)) for s in prog.steps if s["k"] == "load" for row in s["M"] for v in row} | {0}
        self.rank = {v: n for n, v in enumerate(sorted(vals))}

    def proj(self, v):
        v = self.key(v)
        r = self.rank.get(abs(v), BAD) if v is not None else BAD
        return r if r == BAD or v >= 0 else -r

    read = proj


class ModDom(OddDom):
    """complex numbers by their modulus, negative unless they are real and not negative: for absolute values"""

    def __repr__(self):
        return "moduli"

    def prepare(self, prog):
        pass

    def proj(self, v):
        v = untext(v) if isinstance(v, str) else v
        if v is None:
            return BAD
        re_, im = v if isinstance(v, tuple) else (v, 0)
        q = Fraction(re_) ** 2 + Fraction(im) ** 2
        r = math.isqrt(int(q)) if q.denominator == 1 else -1
        if r * r != q or r >= 2 ** 30:
            return BAD
        return r if im == 0 and re_ >= 0 else -r

    read = proj


class LineDom(Dom):
    """complex numbers base + k * step by k times the length of step: for distances"""

    def __init__(self, base, step):
        super().__init__(0)
        self.base, self.step = base, step

    def __repr__(self):
        return "%s + k*%s" % (self.base, self.step)

    def proj(self, v):
        v = untext(v) if isinstance(v, str) else v
        if v is None:
            return BAD
        x, y = v[0] - self.base[0], v[1] - self.base[1]
        a, b = self.step
        k = Fraction(x, a) if a else Fraction(y, b)
        return int(k) * math.isqrt(a * a + b * b) if k.denominator == 1 and k * b == y else BAD

    read = proj


class ShiftDom(Dom):
    """distance from a base value: for operations that depend on differences only"""

    def __init__(self, base, scale=1):
        super().__init__(0, scale)
        self.base = base

    def __repr__(self):
        return "Z*%s+%s" % (self.scale, self.base)

    def proj(self, v):
        return super().proj(v - self.base if isinstance(v, (int, Fraction)) else v)


Z = Dom(0)


def exact_doms(ty):
    """projections that together pin down a wide exact result"""
    if ty in COMPLEX:
        return [Dom(P1, root=SQRT_M1), Dom(P1, root=P1 - SQRT_M1)]
    return [Dom(P1), Dom(P2)]


# ------------------------------------------------------------------- programs
class Prog:
    def __init__(self, ty, doms=None, mod=0, pure=0, alloc=0, frame=0, adopt=0, env=0, note=""):
        self.ty, self.mod, self.note = ty, mod, note
        if doms is None:
            if ty in ("gf", "coop"):
                doms = [GfDom(mod or P1)]
                self.mod = mod or P1
            elif ty == "u8":
                doms = [Dom(256)]
            else:
                doms = [Z]
        self.doms = doms
        self.about = dict(pure=pure, alloc=alloc, frame=frame, adopt=adopt, env=env)
        self.steps = []
        self.shape = {}
        self.known = None            # id of a known finding this program exhibits

    # -- caller steps
    def load(self, d, M):
        self.steps.append(dict(k="load", d=d, M=M))
        self.shape[d] = (len(M), len(M[0]))
        return self

    def fmt(self, f):
        self.steps.append(dict(k="fmt", f=f))
        return self

    def call(self, op, dims=None, a=-1, b=-1, d=2, d2=3, i=0, j=0, e=0, eps=0, s=None, approx=None, P="int", snap=None, rs=None, rnd=0, times=1):
        """approx: (trace op name, scale, tolerance)
        snap: (denominator bound, relative tolerance): floating-point results are read as
        the rational with a small denominator next to them, if one is that close
        rnd: a floating-point quotient must be the correctly rounded one
        times: make the call that many times; the first outcome that differs from the one before is
        what is judged, or the last
        rs: the result is multiplied by this power of two before it is projected"""
        if dims is None:
            dims = self._dims(op, a, b)
        if op == "pow":
            dims = list(dims) + [P]
        key = "%s|%s|%s" % (op, self.ty, ",".join(str(x) for x in dims))
        st = dict(k="call", op=op, key=key, dims=dims, a=a, b=b, d=d, d2=d2, i=i, j=j, e=e, eps=eps, s=s, approx=approx, snap=snap, rs=rs, rnd=rnd, times=times)
        self.steps.append(st)
        self._track(op, dims, a, d, d2)
        return self

    def _dims(self, op, a, b):
        A = self.shape.get(a)
        B = self.shape.get(b)
        if op in ("mult", "mul"):
            return [A[0], A[1], B[1]]
        if op == "catv":
            return [A[0], B[0], A[1]]
        if op == "cath":
            return [A[0], A[1], B[1]]
        if op in ("det", "inv", "pow", "lu", "chol", "minor", "catV", "catH", "catpair", "isid", "issym"):
            return [A[0]]
        if op == "strassen":
            return []
        return [A[0], A[1]]

    def _track(self, op, dims, a, d, d2):
        sh = self.shape
        if op in ("sum", "add", "sub", "minus", "sums", "adds", "sadd", "subs", "minuss", "mults", "muls", "smul", "div", "divop", "abs", "inc", "dec", "conv"):
            sh[d] = (dims[0], dims[1])
        elif op in ("mult", "mul"):
            sh[d] = (dims[0], dims[2])
        elif op == "strassen":
            sh[d] = (2, 2)
        elif op in ("inv", "pow", "chol", "eye", "eyes", "onessq"):
            sh[d] = (dims[0], dims[0])
        elif op == "lu":
            sh[d] = sh[d2] = (dims[0], dims[0])
        elif op == "trans":
            sh[d] = (dims[1], dims[0])
        elif op == "minor":
            sh[d] = (dims[0] - 1, dims[0] - 1)
        elif op == "catv":
            sh[d] = (dims[0] + dims[1], dims[2])
        elif op == "cath":
            sh[d] = (dims[0], dims[1] + dims[2])
        elif op in ("catV", "catpair"):
            sh[d] = (2 * dims[0], dims[0])
            if op == "catpair":
                sh[d2] = (dims[0], 2 * dims[0])
        elif op == "catH":
            sh[d] = (dims[0], 2 * dims[0])
        elif op in ("fill", "zeros", "ones", "onesu"):
            sh[d] = (dims[0], dims[1])
        elif op == "convf":
            sh[d] = (dims[0] + 2, dims[1] + 2)
        elif op == "convv":
            sh[d] = (dims[0] - 2, dims[1] - 2)

    def keys(self):
        return [s["key"] for s in self.steps if s["k"] == "call"]

    # -- driver input
    def call_line(self, s):
        return "call %s %d %d %d %d %d %d %d %s %s%s" % (
            s["key"], s["a"], s["b"], s["d"], s["d2"], s["i"], s["j"], s["e"],
            s["eps"] if isinstance(s["eps"], str) else hexfloat(s["eps"]), text(self.ty, s["s"]) if s["s"] is not None else "0",
            " %d" % s["times"] if s["times"] > 1 else "")

    def lines(self, pid):
        out = ["prog %d %s %d" % (pid, self.ty, self.mod)]
        for s in self.steps:
            if s["k"] == "load":
                vals = " ".join(text(self.ty, v) for row in s["M"] for v in row)
                out.append("load %d %d %d %s" % (s["d"], len(s["M"]), len(s["M"][0]), vals))
            elif s["k"] == "fmt":
                out.append("fmt %s" % s["f"])
            else:
                out.append(self.call_line(s))
        return out

    def describe(self):
        def m(M):
            return [[str(v) if not isinstance(v, int) else v for v in row] for row in M]
        r = []
        for s in self.steps:
            if s["k"] == "load":
                r.append("r%d := %s" % (s["d"], m(s["M"])))
            elif s["k"] == "fmt":
                r.append("std::cout format %s" % s["f"])
            else:
                args = [("a", s["a"]), ("b", s["b"])]
                args = ["%s=r%d" % (k, v) for k, v in args if v >= 0]
                if s["s"] is not None:
                    args.append("s=%s" % (s["s"],))
                if s["op"] in ("swapr", "swapc", "minor"):
                    args.append("i=%d j=%d" % (s["i"], s["j"]))
                if s["op"] == "pow":
                    args.append("e=%d" % s["e"])
                if s["op"] == "cmp":
                    args.append("eps=%s" % s["eps"])
                r.append("%s<%s,%s>(%s)%s" % (s["op"], self.ty, ",".join(map(str, s["dims"])), ", ".join(args), " -> r%d" % s["d"]))
        return r


def project(prog, obs, dom):
    """trace lines of one program in one domain.  obs[k]: what the driver logged
    for step k (None: not reached)"""
    if isinstance(dom, RankDom):
        dom.prepare(prog)
    if dom.trace != "Trace":
        return dom.project(prog, obs)
    pr = dom.proj
    pm = lambda M: [[dom.read(v) for v in row] for row in M]
    out = [dict(op="prog", m=-1 if isinstance(dom, ExtDom) else dom.m, about=prog.about)]
    for s, o in zip(prog.steps, obs):
        if s["k"] == "fmt":
            continue
        if s["k"] == "load":
            out.append(dict(op="load", d=s["d"], r=[[pr(v) for v in row] for row in s["M"]]))
            continue
        if o is None:
            break
        ev = dict(op=s["op"], d=s["d"], d2=s["d2"], st=o["st"], al=o.get("al", 0), e=s["e"], i=s["i"], j=s["j"])
        if s["a"] >= 0:
            ev["a"] = s["a"]
        if s["b"] >= 0:
            ev["b"] = s["b"]
        if s["s"] is not None:
            ev["s"] = pr(s["s"])
        if s["op"] == "cmp":
            if isinstance(s["eps"], str):
                ev["eps"] = pr(s["eps"])
            else:
                e = Fraction(s["eps"]) * dom.scale
                ev["eps"] = e.numerator // e.denominator
        if s["op"] == "pow" and abs(s["e"]) >= 2 ** 31:
            ev["op"], ev["e"] = "powbig", 1 if s["e"] > 0 else -1
            ev["bits"] = [int(c) for c in bin(abs(s["e"]))[2:]]
        if s["op"] == "isid":
            ev["one"] = pr(1)
        if s["op"] in ("fill", "zeros", "ones", "onesu", "onessq", "eye", "eyes"):
            ev["R"], ev["C"] = s["dims"][0], s["dims"][-1]
            ev["one"] = pr(1)
        for k in ("frame", "env"):
            if o.get(k):
                ev[k] = 1
        for f in ("pa", "pb"):
            if f in o and (prog.about["pure"] or s["op"] in ("swapr", "swapc")):
                ev[f] = pm(o[f])
        if s["approx"]:
            ev["op"], sc, tol = s["approx"]
            if ev["op"] != "median2":
                ev["sc"], ev["tol"] = sc, tol

            def rnd(v):
                v = untext(v)
                if v is None or isinstance(v, tuple):
                    return 2 ** 30 - 1
                if ev["op"] == "median2":
                    x = v * sc
                    return int(x) if x == int(x) and abs(x) < 2 ** 30 else 2 ** 30 - 1
                x = round(v * sc)
                return max(-2 ** 20, min(2 ** 20, x))
            if "r" in o:
                ev["r"] = [[rnd(v) for v in row] for row in o["r"]]
            if "v" in o:
                ev["v"] = rnd(o["v"])
        elif s["op"] in ("div", "divop") and s["rnd"] and o["st"] == "ok":
            ev["op"] = "divr"
            mk = [[mantissa(untext(v), BITS[prog.ty]) for v in row] for row in o["r"]]
            ev["r"] = [[pr(m) for m, k in row] for row in mk]
            ev["k"] = [[k for m, k in row] for row in mk]
        elif s["snap"] is None and s["rs"] is None and not s["op"] in ("hist", "cumhist", "print", "cmp", "isid", "issym"):
            for f in ("r", "r2"):
                if f in o:
                    ev[f] = pm(o[f])
            if "v" in o:
                ev["v"] = dom.read(o["v"])
        else:
            sn = (lambda v: snapped(untext(v), *s["snap"])) if s["snap"] else untext
            if s["rs"]:
                sn0 = sn
                sn = lambda v: (lambda x: None if x is None else norm(x * s["rs"]))(sn0(v))
            ps = lambda M: [[pr(sn(v)) for v in row] for row in M]
            if s["snap"] and len(s["snap"]) > 2 and isinstance(s["snap"][2], list):       # a unit per element
                den, tol, units = s["snap"]
                ps = lambda M: [[pr(snapped(untext(v), den, tol, units[i][j])) for j, v in enumerate(row)] for i, row in enumerate(M)]
            if "r" in o:
                ev["r"] = ps(o["r"])
            if "r2" in o:
                ev["r2"] = ps(o["r2"])
            if "v" in o:
                v = o["v"]
                if s["op"] in ("hist", "cumhist"):
                    ev["v"] = [[dom.read(k), min(n, BAD)] for k, n in v]
                elif s["op"] == "print" or s["op"] in ("cmp", "isid", "issym"):
                    ev["v"] = v
                else:
                    ev["v"] = pr(sn(v))
        out.append(ev)
    return out


def mantissa(x, bits):
    """x = m * 2^-k with m of exactly this many bits; no such m: (-1, 0)"""
    if x is None:
        return -1, 0
    if x == 0:
        return 0, bits
    f = Fraction(x)
    k = bits - 1 - (abs(f.numerator).bit_length() - f.denominator.bit_length())
    for k in (k, k + 1, k - 1):
        m = f * Fraction(2) ** k
        if m.denominator == 1 and abs(m.numerator).bit_length() == bits and k >= 0:
            return m.numerator, k
    return -1, 0


# ---------------------------------------------------------------------- build
class Build:
    def __init__(self, work, name="plain", flags=None, main="main.cpp", cxx="g++"):
        self.dir = os.path.join(work, "build-" + name)
        os.makedirs(self.dir, exist_ok=True)
        self.cxx, self.main = cxx, main
        self.flags = ["-std=c++14", "-w", "-I" + HARNESS, "-I" + os.path.join(REPO, "matrix")] + (
            flags if flags is not None else PLAIN)
        self.link = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=posix_memalign"]
        if any("VERIF_NO_ALLOC_HOOKS" in f for f in self.flags):
            self.link = []
        self.link.append("-Wl,--allow-multiple-definition")     # C23's business, nobody else's
        self.dropped = []
        self.broken = None            # (key, compiler output): a required instantiation does not compile

    def _cc(self, src, obj):
        r = subprocess.run([self.cxx] + self.flags + ["-c", src, "-o", obj], capture_output=True, text=True, timeout=600)
        return r.returncode, r.stderr

    def _tu(self, name, keys):
        src = os.path.join(self.dir, name + ".cpp")
        with open(src, "w") as f:
            f.write('#include "ops.hpp"\nstatic const Entry e[] = {\n')
            for k in keys:
                op, ty, dims = k.split("|")
                args = ",".join([ty] + [x for x in dims.split(",") if x])
                f.write('  {"%s", &op_%s<%s>},\n' % (k, op, args))
            f.write("};\nnamespace { struct Init { Init() { register_ops(e, sizeof e / sizeof *e); } } init; }\n")
        return src

    def _compile_keys(self, name, keys):
        """-> list of objects; drops optional keys that do not compile, records a broken required one"""
        src = self._tu(name, keys)
        obj = src[:-4] + ".o"
        rc, err = self._cc(src, obj)
        if rc == 0:
            return [obj]
        if len(keys) == 1:
            if keys[0].split("|")[1] in OPTIONAL_TYPES:
                self.dropped.append(keys[0])
            elif self.broken is None:
                self.broken = (keys[0], err)
            else:
                self.dropped.append(keys[0])
            return []
        h = len(keys) // 2
        objs = []
        for n, part in ((name + "a", keys[:h]), (name + "b", keys[h:])):
            if self.broken is not None:
                self.dropped.extend(part)
                continue
            objs += self._compile_keys(n, part)
        return objs

    def build(self, keys):
        keys = sorted(set(keys))
        # headers must at least parse
        probe = os.path.join(self.dir, "probe.cpp")
        with open(probe, "w") as f:
            f.write('#include "ops.hpp"\n')
        rc, err = self._cc(probe, probe[:-4] + ".o")
        if rc:
            raise CheckError("the library's headers do not compile:\n" + err[:3000])
        # bisecting within one type: a failing optional type is dropped quickly
        groups = {}
        for k in keys:
            groups.setdefault(k.split("|")[1], []).append(k)
        jobs = []
        per = max(12, (len(keys) + 2 * NCPU - 1) // (2 * NCPU))
        for ty, ks in sorted(groups.items()):
            ks.sort(key=lambda k: hashlib.md5(k.encode()).hexdigest())
            for n in range(0, len(ks), per):
                jobs.append(("tu_%s_%d" % (ty, n // per), sorted(ks[n:n + per])))
        objs = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            mainf = ex.submit(self._cc, os.path.join(HARNESS, self.main), os.path.join(self.dir, "main.o"))
            for o in ex.map(lambda j: self._compile_keys(*j), jobs):
                objs += o
            rc, err = mainf.result()
        if rc:
            raise CheckError("the driver does not compile:\n" + err[:3000])
        self.exe = os.path.join(self.dir, "driver")
        r = subprocess.run([self.cxx] + self.flags + [os.path.join(self.dir, "main.o")] + objs + ["-o", self.exe, "-lpthread"] + self.link,
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError("linking the driver failed:\n" + r.stderr[:3000])
        return self


def execute(build, progs, name="run", env=None, limit=600):
    """run all programs in one process; -> observations per program"""
    inp = os.path.join(build.dir, name + ".in")
    outp = os.path.join(build.dir, name + ".out")
    index = []                       # line number -> (prog, step)
    with open(inp, "w") as f:
        for pid, p in enumerate(progs):
            for n, line in enumerate(p.lines(pid)):
                f.write(line + "\n")
                index.append((pid, n - 1))
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run([build.exe, inp, outp], cwd=build.dir, env=e, capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        raise CheckError("driver did not finish")
    obs = [[None] * len(p.steps) for p in progs]
    done = set()
    ended = False
    with open(outp) as f:
        for line in f:
            try:
                o = json.loads(line)
            except ValueError:
                continue
            if o["n"] == -1:
                ended = True
                continue
            pid, st = index[o["n"] - 1]
            if st < 0 or progs[pid].steps[st]["k"] != "call":
                raise CheckError("driver stopped outside a call: %s %s" % (o, r.stderr[-2000:]))
            if (pid, st) in done:
                continue
            done.add((pid, st))
            obs[pid][st] = o
    if not ended:
        if r.returncode == 3:
            raise CheckError("driver refused its input: " + r.stderr[:2000])
        last = max(done) if done else (0, -1)
        if not done or obs[last[0]][last[1]]["st"] in ("ok", "overflow_error", "other_exception", "unknown_exception"):
            # died without a word (e.g. SIGKILL'ed or a sanitizer without callback)
            nxt = next(((p, s) for p, s in index if (p, s) > last and s >= 0 and progs[p].steps[s]["k"] == "call"), None)
            if nxt is None:
                raise CheckError("driver failed after the last call: " + r.stderr[-2000:])
            obs[nxt[0]][nxt[1]] = dict(st="crash", n=0)
            last = nxt
        obs_diag = r.stderr[-3000:]
        obs[last[0]][last[1]]["diag"] = obs_diag
        return obs, last[0]
    return obs, len(progs) - 1


# ---------------------------------------------------------------- concurrency
class ConcProg(Prog):
    """loads, calls, and groups of calls that are in progress together.
    groups: (mode, [args], [call indices])"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.groups = []

    def calls(self):
        return [s for s in self.steps if s["k"] == "call"]


def execute_conc(build, progs, name="conc", limit=700):
    """-> per program: {call index: {outcome json: group}}, {call index: points}"""
    inp, outp = os.path.join(build.dir, name + ".in"), os.path.join(build.dir, name + ".out")
    index = []
    with open(inp, "w") as f:
        def put(line, tag):
            f.write(line + "\n")
            index.append(tag)
        for pid, p in enumerate(progs):
            for line in p.lines(pid):
                if line.startswith(("prog", "load")):
                    put(line, None)
            cs = p.calls()
            for gi, (mode, args, idx) in enumerate(p.groups):
                put("group %s %s" % (mode, " ".join(map(str, args))), None)
                for ci in idx:
                    put(p.call_line(cs[ci]), (pid, gi, ci))
                put("go", (pid, gi, idx[0]))
    try:
        r = subprocess.run([build.exe, inp, outp], cwd=build.dir, capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        raise CheckError("concurrency driver did not finish")
    res = [{} for _ in progs]
    points = [{} for _ in progs]
    ended, runs, last = False, 0, 0
    with open(outp) as f:
        for line in f:
            try:
                o = json.loads(line)
            except ValueError:
                continue
            if o["n"] == -1:
                ended = True
                continue
            pid, gi, ci = index[o["n"] - 1]
            last = max(last, o["n"])
            del o["n"]
            if "points" in o:
                points[pid][ci] = o.pop("points")
            runs += 1
            res[pid].setdefault(ci, {}).setdefault(json.dumps(o, sort_keys=True), gi)
    if not ended:
        if r.returncode == 3:
            raise CheckError("driver refused its input: " + r.stderr[:2000])
        if not any("crash" in k or "hang" in k or "terminate" in k for d in res for c in d.values() for k in c):
            nxt = next((t for t in index[last:] if t), None)
            if nxt is None:
                raise CheckError("concurrency driver failed: " + r.stderr[-2000:])
            res[nxt[0]].setdefault(nxt[2], {})[json.dumps(dict(st="crash"))] = nxt[1]
    return res, points, runs


def conform_conc(outc, work, progs, res, tag):
    """every distinct outcome of every call becomes one trace event"""
    flat, obs = [], []
    for p, d in zip(progs, res):
        q = Prog(p.ty, doms=p.doms, mod=p.mod, note=p.note)
        q.steps = [s for s in p.steps if s["k"] == "load"]
        o = [None] * len(q.steps)
        for ci, s in enumerate(p.calls()):
            for out, gi in sorted(d.get(ci, {}).items()):
                # loads are repeated: an in-place operation would change them
                q.steps = q.steps + [x for x in p.steps if x["k"] == "load" and s["op"] in ("swapr", "swapc")]
                o = o + [None] * (len(q.steps) - len(o))
                q.steps.append(dict(s, group=p.groups[gi]))
                o.append(json.loads(out))
        flat.append(q)
        obs.append(o)
    validate(outc, work, flat, obs, tag)


# ------------------------------------------------------------------------ TLC
def tlc(module, cfg, work, env=None, workers=1, extra=(), heap="3g", timeout=800, gc="-XX:+UseSerialGC"):
    meta = os.path.join(work, "meta-%s-%s" % (os.path.basename(cfg), hashlib.md5((str(env) + str(time.time())).encode()).hexdigest()[:8]))
    cmd = ["java", gc, "-Xss64m", "-Xmx" + heap, "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = str(x.stdout), -1
    shutil.rmtree(meta, ignore_errors=True)
    g = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    st = tuple(int(x.replace(",", "")) for x in g[-1]) if g else (0, 0)
    return dict(rc=rc, out=out, generated=st[0], distinct=st[1], wall=time.time() - t0)


def validate_file(path, work, module="Trace"):
    """-> (matched, total, tlc result); retries once when TLC itself fails"""
    for attempt in (0, 1):
        r = tlc(module + ".tla", module + ".cfg", work, env={"TRACE": path})
        g = re.search(r'<<"MATCHED", (\d+), (\d+)>>', r["out"])
        if g and r["rc"] == 0:
            return int(g.group(1)), int(g.group(2)), r
        # a logged value of a kind no action can even be evaluated on: the last
        # state TLC reached names the line
        g = re.findall(r"^/\\ l = (\d+)", r["out"], re.M)
        if g and attempt and "Error: " in r["out"] and not re.search("StackOverflow|OutOfMemory", r["out"]) and r["rc"] in (10, 11, 12, 13, 75, 255, 150):
            with open(path) as f:
                return int(g[-1]) - 1, sum(1 for _ in f), r
    raise CheckError("TLC failed on %s (rc=%s):\n%s" % (path, r["rc"], r["out"][-3000:]))


def work_dir(name):
    d = os.path.join(os.environ.get("VERIF_WORK") or os.path.join(VERIF, ".work"), name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


class Outcome:
    def __init__(self):
        self.violations = []
        self.known = []
        self.states = self.transitions = 0
        self.traces = 0
        self.events = 0
        self.events_by_op = {}
        self.models = []
        self.samples = []
        self.distinct = set()
        self.dropped = []
        self.notes = []
        self.extra = {}


def conform(outc, work, progs, build_name="plain", flags=None, main="main.cpp", weight=None, builder=None):
    """build, execute and validate; appends to outc"""
    if builder is None:
        keys = [k for p in progs for k in p.keys()]
        builder = Build(work, build_name, flags, main)
        t0 = time.time()
        builder.build(keys)
        log("  built %d instantiations in %.1fs" % (len(set(keys)), time.time() - t0))
    if builder.broken:
        outc.violations.append(dict(kind="does-not-compile", what=builder.broken[0], detail=builder.broken[1][:4000]))
    if builder.dropped:
        gone = set(builder.dropped) | ({builder.broken[0]} if builder.broken else set())
        progs = [p for p in progs if not (set(p.keys()) & gone)]
        outc.dropped += sorted(gone)
    elif builder.broken:
        progs = [p for p in progs if builder.broken[0] not in p.keys()]
    if not progs:
        return builder
    obs, last = execute(builder, progs, build_name)
    progs_run = progs[:last + 1]
    validate(outc, work, progs_run, obs, build_name, builder)
    return builder


def cost(ev):
    op = ev["op"]
    r = ev.get("r") or [[0]]
    n = len(r) * len(r[0] if r else [0])
    if op in ("prog", "load"):
        return 2 + n * 0.05
    if op in ("inv", "pow", "lu", "mult", "mul", "chol", "pow~", "inv~", "det"):
        return 5 + n * 3
    return 3 + n * 0.5


def validate(outc, work, progs, obs, tag, builder=None):
    module = progs[0].doms[0].trace
    units = []                     # (prog index, dom index, lines)
    for pi, p in enumerate(progs):
        for di, d in enumerate(p.doms):
            units.append((pi, di, project(p, obs[pi], d)))
    for pi, di, lines in units:
        outc.events += sum(1 for e in lines if e["op"] not in ("prog", "load"))
        for e in lines:
            if e["op"] not in ("prog", "load"):
                outc.events_by_op[e["op"]] = outc.events_by_op.get(e["op"], 0) + 1
                outc.distinct.add(hashlib.md5(json.dumps([progs[pi].ty, progs[pi].mod, lines[1:lines.index(e) + 1] if len(lines) < 8 else e], sort_keys=True).encode()).hexdigest())
    for pi in sorted(random.Random(len(progs)).sample(range(len(progs)), min(2, len(progs)))):
        outc.samples.append(dict(program=progs[pi].describe()[:12], type=progs[pi].ty,
                                 observed=[{k: o[k] for k in ("st", "r", "v") if k in o} for o in obs[pi] if o][:3]))
    normal = [u for u in units if not progs[u[0]].known]
    special = [u for u in units if progs[u[0]].known]
    # shards balanced by estimated cost
    nsh = max(1, min(NCPU, len(normal) // (20 if module == "Trace" else 4) or 1))
    shards = [[] for _ in range(nsh)]
    load = [0.0] * nsh
    for u in sorted(normal, key=lambda u: -sum(cost(e) for e in u[2])):
        k = load.index(min(load))
        shards[k].append(u)
        load[k] += sum(cost(e) for e in u[2])
    files = []
    for k, sh in enumerate(shards):
        sh.sort(key=lambda u: (u[0], u[1]))
        path = os.path.join(work, "trace-%s-%d.ndjson" % (tag, k))
        with open(path, "w") as f:
            for u in sh:
                for e in u[2]:
                    f.write(json.dumps(e) + "\n")
        files.append((path, sh))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda x: validate_file(x[0], work, module), files))
    for (path, sh), (m, n, r) in zip(files, res):
        outc.states += r["distinct"]
        outc.transitions += max(0, r["generated"] - 1)
        if m >= n:
            outc.traces += len(sh)
            continue
        # find the unit in which line m+1 lies
        pos = 0
        for u in sh:
            if pos + len(u[2]) > m:
                break
            pos += len(u[2])
            outc.traces += 1
        ev = u[2][m - pos]
        if len(outc.violations) < 3:
            report(outc, work, progs, obs, u, m - pos, ev, tag, builder)
    for pi, di, lines in special:
        path = os.path.join(work, "trace-%s-known-%d-%d.ndjson" % (tag, pi, di))
        with open(path, "w") as f:
            for e in lines:
                f.write(json.dumps(e) + "\n")
        m, n, r = validate_file(path, work)
        if m < n:
            outc.known.append(progs[pi].known)
        else:
            outc.notes.append("known finding %s no longer occurs" % progs[pi].known)


def report(outc, work, progs, obs, u, k, ev, tag, builder):
    pi, di, lines = u
    p = progs[pi]
    # the rejection must repeat, on the program alone
    path = os.path.join(work, "reject-%s.ndjson" % tag)
    with open(path, "w") as f:
        for e in lines:
            f.write(json.dumps(e) + "\n")
    m, n, r = validate_file(path, work, p.doms[di].trace)
    if m >= n:
        raise CheckError("TLC rejected a program in a shard but accepts it alone: %s" % path)
    alone = None
    if builder is not None:
        try:
            o2, _ = execute(builder, [p], tag + "-alone")
            l2 = project(p, o2[0], p.doms[di])
            path2 = os.path.join(work, "again-%s.ndjson" % tag)
            with open(path2, "w") as f:
                for e in l2:
                    f.write(json.dumps(e) + "\n")
            m2, n2, _ = validate_file(path2, work, p.doms[di].trace)
            alone = m2 < n2
        except CheckError as x:
            alone = str(x)[:200]
    bad = lines[m]
    step = [s for s in p.steps if s["k"] != "fmt"][m - 1] if m else None
    si = next(x for x, s in enumerate(p.steps) if s is step) if step else None
    outc.violations.append(dict(
        kind="trace-rejected", program=p.describe(), type=p.ty, modulus=p.mod, domain=repr(p.doms[di]), note=p.note,
        rejected_call=describe_step(p, step), observed=obs[pi][si] if si is not None else None,
        trace_line=bad, trace=lines if len(lines) < 60 else lines[:60], about=p.about,
        reproduces_alone=alone, driver_input=p.lines(0)))


def describe_step(p, step):
    if step is None:
        return None
    q = Prog(p.ty, doms=p.doms, mod=p.mod)
    q.steps = [step]
    return q.describe()[0]


# --------------------------------------------------------------- model checks
def model(outc, work, module, cfg, workers=NCPU, expect="ok", min_states=1, timeout=800, extra=(), heap="6g"):
    """model-check the specification itself.  expect='violated': a deliberately
    broken variant, which TLC must refute (guards against vacuous invariants)"""
    r = None
    for attempt in (0, 1):
        r = tlc(module + ".tla", cfg + ".cfg", work, workers=workers, timeout=timeout, extra=extra, heap=heap, gc="-XX:+UseParallelGC")
        if r["rc"] == (0 if expect == "ok" else 12) or (expect != "ok" and r["rc"] == 13):
            break
    ok = r["rc"] == 0 if expect == "ok" else r["rc"] in (12, 13)
    if not ok:
        raise CheckError("model %s/%s: rc=%s\n%s" % (module, cfg, r["rc"], r["out"][-4000:]))
    if r["distinct"] < min_states:
        raise CheckError("model %s/%s: only %d states" % (module, cfg, r["distinct"]))
    if expect == "ok":
        outc.states += r["distinct"]
        outc.transitions += r["generated"]
    outc.models.append(dict(model=module, config=cfg, expect=expect, distinct=r["distinct"], generated=r["generated"], wall_s=round(r["wall"], 1)))
    log("  model %s/%s: %d distinct states, %.1fs" % (module, cfg, r["distinct"], r["wall"]))
    return r


# --------------------------------------------------------------------- random
def rng_for(prop, seed):
    return random.Random("%s/%s" % (prop, seed))
