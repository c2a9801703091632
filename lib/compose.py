"""C21: behaviours of the specification, generated by TLC, replayed against the library."""
import concurrent.futures as cf
import json
import re

import gens
from vlib import NCPU, CheckError, Prog, Build, execute, log, tlc, untext, validate

ALSO = {"sum": ("sum", "add"), "sub": ("sub", "minus"), "sums": ("sums", "adds", "sadd"), "subs": ("subs", "minuss"),
        "mults": ("mults", "muls", "smul"), "mult": ("mult", "mul"), "div": ("div", "divop")}


def behaviours(outc, work, cfg, num, seed):
    r = tlc("Gen.tla", cfg + ".cfg", work, extra=["-simulate", "num=%d" % num, "-depth", "400", "-seed", str(seed)])
    out = []
    for line in r["out"].splitlines():
        if line.startswith('"BEHAVIOUR '):
            out.append(json.loads(json.loads(line)[len("BEHAVIOUR "):]))
    if len(out) < num // 2:
        raise CheckError("Gen/%s gave %d behaviours (rc=%s):\n%s" % (cfg, len(out), r["rc"], r["out"][-3000:]))
    g = re.search(r"The number of states generated: (\d+)", r["out"])
    n = int(g.group(1)) if g else 0
    outc.states += n
    outc.transitions += n
    outc.models.append(dict(model="Gen", config=cfg, expect="ok", behaviours=len(out), generated=n, wall_s=round(r["wall"], 1)))
    log("  Gen/%s: %d behaviours, %d states, %.1fs" % (cfg, len(out), n, r["wall"]))
    return out


def to_prog(g, b, ty):
    p = Prog(ty, mod=b["m"], pure=1, note="behaviour of Gen")
    p.expect = []
    for s in b["prog"]:
        if s["op"] == "load":
            p.load(s["d"], s["r"])
        else:
            op = g.r.choice(ALSO.get(s["op"], (s["op"],)))
            if op == "catv" and p.shape[s["a"]] == p.shape[s["b"]]:
                op = "catV"
            if op == "cath" and p.shape[s["a"]] == p.shape[s["b"]]:
                op = "catH"
            kw = dict(a=s["a"], b=s["b"], d=s["d"], d2=s["d2"], i=s["i"], j=s["j"], e=s["e"])
            if op in gens.SCALAR or op in ("div", "divop", "fill", "eyes"):
                kw["s"] = s["s"]
            if op in ("fill", "eyes"):
                kw["dims"] = [s["R"], s["C"]] if op == "fill" else [s["R"]]
            keep = dict(p.shape)
            p.call(op, **kw)
            if s["st"] != "ok":
                p.shape = keep
        p.expect.append(s)
    return p


def as_expected(s, o):
    """does what the call did agree with the step of the behaviour?"""
    if o is None or o["st"] != s["st"]:
        return False
    m = lambda M: [[untext(v) for v in row] for row in M]
    if s["st"] != "ok":
        return True
    if s["op"] in ("swapr", "swapc"):
        return m(o["pa"]) == s["r"]
    if s["op"] in ("det", "mean", "isid", "issym"):
        return untext(o["v"]) == s["v"]
    return m(o["r"]) == s["r"] and (not s["r2"] or m(o["r2"]) == s["r2"])


def run(g, tier, seed, outc, work):
    T = tier == "thorough"
    jobs = [("Gen", 6000 if T else 400, seed)] + [("Gen_big", 700 if T else 80, 1000 * seed + k) for k in (1, 2)] + [
        ("Gen_wide", 700 if T else 80, 1000 * seed + k) for k in (3, 4)]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        bs = [b for r in ex.map(lambda j: behaviours(outc, work, *j), jobs) for b in r]
    progs = []
    for b in bs:
        for ty in ("gf",) if b["m"] else ("i32", "f64", "i64", "f32"):
            progs.append(to_prog(g, b, ty))
    progs += laws(g, T)
    log("C21: %d programs, %d calls" % (len(progs), sum(len(p.keys()) for p in progs)))
    builder = Build(work, "plain")
    builder.build([k for p in progs for k in p.keys()])
    if builder.broken:
        outc.violations.append(dict(kind="does-not-compile", what=builder.broken[0], detail=builder.broken[1][:4000]))
    gone = set(builder.dropped) | ({builder.broken[0]} if builder.broken else set())
    outc.dropped += sorted(gone)
    progs = [p for p in progs if not set(p.keys()) & gone]
    if not progs:
        return
    obs, last = execute(builder, progs, "plain")
    replayed = 0
    for p, ob in zip(progs[:last + 1], obs):
        for k, (st, s, o) in enumerate(zip(p.steps, getattr(p, "expect", ()), ob)):
            if st["k"] == "load":
                continue
            replayed += 1
            if not as_expected(s, o):
                outc.violations.append(dict(kind="replay-differs", what=p.describe()[k], expected=s, observed=o, type=p.ty, modulus=p.mod,
                                            program=p.describe()[:k + 1], driver_input=p.lines(0)[:k + 2]))
                break
        if len(outc.violations) > 5:
            break
    outc.extra["calls_replayed_from_model_behaviours"] = replayed
    validate(outc, work, progs[:last + 1], obs, "plain", builder)


def laws(g, T):
    """both sides of the laws the statement names, computed by the library from the same operands"""
    out = []
    for rep in range(60 if T else 16):
        for ty in ("gf", "i32", "f64"):
            for n in (1, 2, 3, 4, 5, 6) if ty == "gf" else (1, 2, 3, 4):
                mod = g.prime() if ty == "gf" else 0
                sq = (lambda: gens.nonsingular_field(g, n, mod)) if ty == "gf" else (lambda: [[g.r.randrange(-2, 3) for _ in range(n)] for _ in range(n)])
                p = Prog(ty, mod=mod, pure=1, note="laws")
                p.load(0, sq()).load(1, sq()).load(2, sq())
                p.call("mult", a=0, b=1, d=3).call("mult", a=3, b=2, d=4)            # (AB)C
                p.call("mul", a=1, b=2, d=5).call("mul", a=0, b=5, d=6)              # A(BC)
                p.call("sum", a=1, b=2, d=7).call("mult", a=0, b=7, d=8)             # A(B+C)
                p.call("mult", a=0, b=2, d=9).call("add", a=3, b=9, d=10)            # AB+AC
                p.call("trans", a=3, d=11).call("trans", a=0, d=12).call("trans", a=1, d=13).call("mult", a=13, b=12, d=14)
                p.call("sub", a=11, b=14, d=15)
                if n <= 3 or ty == "gf":
                    p.call("det", a=0).call("det", a=1).call("det", a=3).call("det", a=11)
                if ty == "gf":
                    p.call("inv", a=0, d=4).call("inv", a=4, d=5).call("mult", a=4, b=0, d=6).call("isid", a=6)
                    p.call("inv", a=3, d=7).call("inv", a=1, d=8).call("mult", a=8, b=4, d=9).call("sub", a=7, b=9, d=10)
                    e, f = g.r.randrange(-5, 6), g.r.randrange(-5, 6)
                    p.call("pow", a=0, e=e, d=4).call("pow", a=0, e=f, d=5).call("mult", a=4, b=5, d=6).call("pow", a=0, e=e + f, d=7)
                    p.call("sub", a=6, b=7, d=8)
                    p.call("pow", a=4, e=f, d=9).call("pow", a=0, e=e * f, d=10).call("sub", a=9, b=10, d=11)
                else:
                    p.call("pow", a=0, e=2, d=4).call("pow", a=0, e=1, d=5).call("mult", a=4, b=5, d=6).call("pow", a=0, e=3, d=7).call("sub", a=6, b=7, d=8)
                out.append(p)
    return out
