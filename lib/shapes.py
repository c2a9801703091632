"""C24: which calls compile.  Every call is put to the compiler with operands of all small shapes and
some element types; spec/Shapes.tla decides from the actions of MatrixLib which ones have to be accepted."""
import concurrent.futures as cf
import json
import os
import subprocess

from vlib import NCPU, REPO, CheckError, log, validate_file

TYPES = dict(f64="double", i32="int", f32="float", i64="long long", u32="unsigned")
BINARY = dict(sum="mlib::sum(a, b)", add="a + b", sub="mlib::sub(a, b)", minus="a - b", mult="mlib::mult(a, b)", mul="a * b",
              strassen="mlib::strassen(a, b)", compare="mlib::compare(a, b, 0.5f)", conv="mlib::conv2(a, b)", convf="mlib::conv2_full(a, b)",
              convv="mlib::conv2_valid(a, b)", cat="mlib::concatenate(a, b)", catV="mlib::concatenateV(a, b)", catH="mlib::concatenateH(a, b)")
UNARY = dict(det="mlib::det(a)", inv="mlib::inv(a)", pow="mlib::pow(a, 2)", lu="mlib::lu(a)", chol="mlib::chol(a)", minor="mlib::getminor(a, 0u, 0u)",
             isid="mlib::isIdentity(a)", issym="mlib::isSymetric(a)", trans="mlib::trans(a)", swapr="mlib::swap_rows(w, 0u, 0u)", swapc="mlib::swap_cols(w, 0u, 0u)",
             mean="mlib::mean(a)", median="mlib::median(a)", var="mlib::var(a)", stddev="mlib::stddev(a)", hist="mlib::histogram(a)",
             cumhist="mlib::cumulative_histogram(a)", abs="mlib::abs(a)", inc="a++", dec="a--", print="mlib::print(a)")
SCALAR = dict(sums="mlib::sum(a, s)", adds="a + s", sadd="s + a", subs="mlib::sub(a, s)", minuss="a - s", mults="mlib::mult(a, s)", muls="a * s", smul="s * a",
              div="mlib::div(a, s)", divop="a / s")
ALL = dict(BINARY, **UNARY, **SCALAR)
HEAD = '#include "matrix.hpp"\n#include <cstdio>\n#include <utility>\nusing namespace mlib;\n'
NOT_UNSIGNED = ("abs", "compare")          # std::abs of an unsigned element is ambiguous, whatever the shape


def cases(T):
    """(ta, tb, a, b, ops)"""
    every = [(r, c) for r in range(1, 5) for c in range(1, 5)]
    some = [(1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (4, 4), (5, 2), (5, 5), (6, 3)]
    few = [(2, 2), (3, 3), (2, 3), (1, 1), (1, 4)]
    if T:
        every = [(r, c) for r in range(1, 7) for c in range(1, 7)] + [(9, 9), (1, 17), (12, 5)]
    out = []
    for ty, shapes in (("f64", every), ("i32", some), ("u32", few)) + ((("f32", some), ("i64", some)) if T else ()):
        for a in shapes:
            for b in shapes:
                out.append((ty, ty, a, b, [o for o in BINARY if (o != "convv" or min(a) >= 3) and not (ty == "u32" and o in NOT_UNSIGNED)]))
            out.append((ty, ty, a, a, [o for o in UNARY if (o != "minor" or a != (1, 1)) and not (ty == "u32" and o in NOT_UNSIGNED)]))
            out.append((ty, ty, a, (1, 1), list(SCALAR)))
    for ta, tb in (("f64", "i32"), ("i32", "f64"), ("f64", "f32"), ("f32", "f64"), ("i64", "i32"), ("i32", "u32")):
        for a in few:
            for b in few:
                out.append((ta, tb, a, b, [o for o in BINARY if o != "convv" or min(a) >= 3]))
            out.append((ta, tb, a, (1, 1), list(SCALAR)))
    return out


def compile_(work, name, text, exe=False):
    src = os.path.join(work, name + ".cpp")
    with open(src, "w") as f:
        f.write(text)
    cmd = ["g++", "-std=c++14", "-w", "-I" + os.path.join(REPO, "matrix"), src]
    r = subprocess.run(cmd + (["-o", src[:-4]] if exe else ["-fsyntax-only"]), capture_output=True, text=True, timeout=600)
    return r.returncode == 0, r.stderr


def declare(c):
    ta, tb, a, b, _ = c
    return "const Matrix<%s, %d, %d>& a, Matrix<%s, %d, %d>& w, const Matrix<%s, %d, %d>& b, const %s s" % (TYPES[ta], *a, TYPES[ta], *a, TYPES[tb], *b, TYPES[tb])


def resolves(work, op, cs):
    """does overload resolution find something, for each case -> list, or None when asking is an error already"""
    t = HEAD + """template<class A, class B, class S> struct Q {
  template<class U, class V, class W> static auto t(const U& a, U& w, const V& b, const W s) -> decltype(static_cast<void>(%s), char());
  template<class U, class V, class W> static long t(const U& a, const U& w, const V& b, const W& s, ...);
  static A& a_(); static const B& b_();
  static constexpr bool value = sizeof(t<A, B, S>(a_(), a_(), b_(), S())) == 1;
};
int main() {
""" % ALL[op]
    for ta, tb, a, b, _ in cs:
        t += "std::putchar('0' + Q<Matrix<%s, %d, %d>, Matrix<%s, %d, %d>, %s>::value);\n" % (TYPES[ta], *a, TYPES[tb], *b, TYPES[tb])
    ok, _ = compile_(work, "ask-" + op, t + "}\n", True)
    if not ok:
        return None
    r = subprocess.run([os.path.join(work, "ask-" + op)], capture_output=True, text=True, timeout=60)
    if r.returncode or len(r.stdout) != len(cs):
        return None
    return [x == "1" for x in r.stdout]


def body(op, n, c):
    return "void f%d(%s) { %s; }\n" % (n, declare(c), ALL[op])


def compiled(work, op, cs):
    """-> list of booleans: does the call compile, body included"""
    yes = resolves(work, op, cs)
    todo = [n for n in range(len(cs)) if yes is None or yes[n]]
    if yes is not None and compile_(work, "all-" + op, HEAD + "".join(body(op, n, cs[n]) for n in todo))[0]:
        return yes, None
    # one by one; the ones that overload resolution refuses are refused
    res = [False] * len(cs)
    err = None
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for n, (ok, e) in zip(todo, ex.map(lambda n: compile_(work, "one-%s-%d" % (op, n), HEAD + body(op, n, cs[n])), todo)):
            res[n] = ok
            err = err or e
    return res, err


def run(g, tier, outc, work):
    T = tier == "thorough"
    ok, e = compile_(work, "alone", HEAD + "int main() {}\n")
    if not ok:
        outc.violations.append(dict(kind="does-not-compile", what="matrix.hpp", detail=e[:4000]))
        return
    all_ = cases(T)
    by_op = {op: [c for c in all_ if op in c[4]] for op in ALL}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = dict(zip(by_op, ex.map(lambda op: compiled(work, op, by_op[op]), by_op)))
    said = {(op, c[:4]): v for op, cs in by_op.items() for c, v in zip(cs, res[op][0])}
    log("C24: %d calls put to the compiler, %d compile" % (len(said), sum(said.values())))
    lines, where = [], []
    for c in all_:
        lines.append(dict(op="operands", ta=c[0], tb=c[1], a=list(c[2]), b=list(c[3])))
        where.append((c, None))
        for op in c[4]:
            lines.append(dict(op=op, compiled=said[op, c[:4]]))
            where.append((c, op))
    start = 0
    size = 4000
    chunks = []
    while start < len(lines):
        end = start + size
        while end < len(lines) and lines[end]["op"] != "operands":
            end += 1
        chunks.append((start, lines[start:end]))
        start = end

    def check(k):
        at, part = chunks[k]
        path = os.path.join(work, "shapes-%d.ndjson" % k)
        bad = []
        while True:
            with open(path, "w") as f:
                for e in part:
                    f.write(json.dumps(e) + "\n")
            m, n, r = validate_file(path, work, "Shapes")
            if m >= n or len(bad) >= 3:
                return bad, r
            bad.append(at + m)
            part[m] = dict(part[m], compiled=not part[m]["compiled"])      # go on behind it

    with cf.ThreadPoolExecutor(NCPU) as ex:
        found = list(ex.map(check, range(len(chunks))))
    for (bad, r), (at, part) in zip(found, chunks):
        outc.states += r["distinct"]
        outc.transitions += max(0, r["generated"] - 1)
        outc.traces += 1
        for i in bad:
            c, op = where[i]
            s = said[op, c[:4]]
            if len(outc.violations) < 3:
                outc.violations.append(dict(kind="compiles" if s else "does-not-compile", what="%s with a %s %dx%d, b %s %dx%d" % (ALL[op], TYPES[c[0]], *c[2], TYPES[c[1]], *c[3]),
                                            rejected_call=ALL[op], source=HEAD + body(op, 0, c), detail=(res[op][1] or "")[:2000]))
    outc.events = len(said)
    for (op, c), v in said.items():
        outc.events_by_op[op] = outc.events_by_op.get(op, 0) + 1
        outc.distinct.add((op, c))
    outc.samples = [dict(call=ALL[op], operands=c, compiles=v) for (op, c), v in g.r.sample(sorted(said.items()), 6)]
    outc.extra = dict(accepted=sum(said.values()), refused=len(said) - sum(said.values()))
