"""C23: programs of several translation units, any compiler, language version and optimisation level.

TLC enumerates the programs (spec/Units.tla); each chosen one is built from the headers, linked and
run, and what it computes is validated as a behaviour of MatrixLib."""
import concurrent.futures as cf
import glob
import os
import re
import subprocess

import gens
from vlib import HARNESS, NCPU, PLAIN, REPO, Build, CheckError, execute, log, model, validate

CC = ("g++", "clang++")
SHAPES = ((2, 2), (3, 3), (2, 3), (4, 4), (3, 5), (5, 5), (1, 6), (7, 3), (6, 6), (9, 2), (8, 8), (1, 1))


class Units(Build):
    """a program whose units are compiled as the specification says"""

    def __init__(self, work, name, units, main_o):
        super().__init__(work, name)
        self.units, self.main_o = units, main_o

    def unit(self, n, keys):
        cc, std, opt, inc, quiet = self.units[n]
        src = self._tu("unit%d" % n, keys)
        with open(src) as f:
            body = f.read()
        head = ""
        if inc != 1:
            head = '#include "matrix.hpp"\n'
        if inc == 2:
            head += '#include "matrix.hpp"\n' + "".join('#include "%s"\n' % os.path.basename(p) for p in sorted(glob.glob(os.path.join(REPO, "matrix", "matrix_*.hpp")), reverse=True))
        with open(src, "w") as f:
            f.write(head + body)
        flags = ["-std=c++%d" % std, "-O%d" % opt, "-w", "-I" + HARNESS, "-I" + os.path.join(REPO, "matrix")] + (["-DNDEBUG"] if quiet else [])
        out = []
        for s, o, extra in ((src, src[:-4] + ".o", []),
                            (os.path.join(HARNESS, "bare.cpp"), os.path.join(self.dir, "bare%d.o" % n), ["-pedantic-errors", "-DBARE=bare_%d" % n] + (["-DBARE_TWICE"] if inc == 2 else []))):
            r = subprocess.run([CC[cc]] + flags + extra + ["-c", s, "-o", o], capture_output=True, text=True, timeout=600)
            if r.returncode:
                self.broken = ("%s -std=c++%d -O%d, %s" % (CC[cc], std, opt, ("matrix.hpp alone", "standard headers first", "matrix.hpp and its parts, twice")[inc]), r.stderr)
            out.append(o)
        return out

    def build(self, keys):
        keys = sorted(set(keys))
        k = len(self.units)
        # every unit has its share, and every third instantiation is in all of them
        parts = [[x for n, x in enumerate(keys) if n % k == u or n % 3 == 0] for u in range(k)]
        objs = [o for u in range(k) for o in self.unit(u, parts[u])]
        if self.broken:
            return self
        self.exe = os.path.join(self.dir, "driver")
        r = subprocess.run(["g++", self.main_o] + objs + ["-o", self.exe, "-lpthread"] + [x for x in self.link if "multiple" not in x], capture_output=True, text=True)
        if r.returncode:
            self.broken = ("linking " + " with ".join("%s -std=c++%d" % (CC[c], s) for c, s, _, _, _ in self.units), r.stderr)
        return self


def choose(g, progs, count):
    """a sample in which every compiler with every language version occurs, every level and every way to include"""
    about = lambda p: {x for u in p for x in ((u[0], u[1]), ("O", u[0], u[2]), ("I", u[0], u[3]), ("N", u[1], u[4]))}
    want = set().union(*map(about, progs))
    out = []
    while want or len(out) < count:
        p = max(g.r.sample(progs, 200), key=lambda p: len(about(p) & want))
        want -= about(p)
        out.append(p)
    return out


def run(g, tier, outc, work):
    T = tier == "thorough"
    r = model(outc, work, "Units", "Units", workers=2, min_states=10000)
    model(outc, work, "Units", "Units_3", workers=2, min_states=1000)
    model(outc, work, "Units", "Units_external", workers=1, expect="violated")
    every = [[tuple(int(x) for x in u) for u in re.findall(r"<<(\d+), (\d+), (\d+), (\d+), (\d+)>>", m.group(1))]
             for m in re.finditer(r'<<"PROGRAM", <<(.*?)>>>>\n', r["out"])]
    every = sorted(p for p in every if len(p) == 2)
    if len(every) < 1000:
        raise CheckError("no programs from Units")
    chosen = choose(g, every, 90 if T else 10)
    main_o = os.path.join(work, "main.o")
    r = subprocess.run(["g++", "-std=c++14", "-w", "-I" + HARNESS, "-I" + os.path.join(REPO, "matrix")] + PLAIN + ["-c", os.path.join(HARNESS, "main.cpp"), "-o", main_o], capture_output=True, text=True)
    if r.returncode:
        # the driver itself is C++14 with g++: so nothing can be included at all
        outc.violations.append(dict(kind="does-not-compile", what="matrix.hpp", detail=r.stderr[:4000]))
        return
    jobs = []
    for n, units in enumerate(chosen):
        progs = []
        for k, ty in enumerate(("f64", "i32", "f32")):
            for m, op in enumerate(gens.OPS[ty]):
                if (m + n) % 3 == 2 and not T:
                    continue
                R, C = gens.pick(SHAPES, n + m + k)
                if op in gens.SQUARE:
                    C = R
                if ty == "f32":
                    R, C = min(R, 3), min(C, 3)
                q = gens.start(g, op, ty, 0, pure=1)
                for _ in range(3):
                    gens.call_with(g, q, op, ty, R, C, 0)
                progs.append(q)
        jobs.append((Units(work, "u%d" % n, units, main_o), progs))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda j: j[0].build([k for p in j[1] for k in p.keys()]), jobs))
    for n, (b, progs) in enumerate(jobs):
        if len(outc.violations) >= 3:
            break
        if b.broken:
            outc.violations.append(dict(kind="does-not-compile", what=b.broken[0], detail=b.broken[1][:4000], units=b.units))
            continue
    if outc.violations:
        return
    # one validation for all of them: observations per program, then TLC
    allp, allo = [], []
    for n, (b, progs) in enumerate(jobs):
        obs, last = execute(b, progs, "run%d" % n)
        for p, o in list(zip(progs, obs))[:last + 1]:
            p.note = "units: " + "; ".join("%s -std=c++%d -O%d" % (CC[c], s, lv) for c, s, lv, _, _ in b.units)
            allp.append(p)
            allo.append(o)
    validate(outc, work, allp, allo, "units")
    outc.extra = dict(programs_enumerated=len(every), programs_built_and_run=len(jobs), units_compiled=2 * sum(len(b.units) for b, _ in jobs))
    log("  %d programs of two units built and run, of %d" % (len(jobs), len(every)))
