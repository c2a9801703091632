"""C17: calls in progress at the same time."""
import os
import re

import gens
from vlib import CheckError, Build, conform_conc, execute_conc, log, model

COOP_OPS = tuple(o for o in gens.OPS["gf"] if o not in ("swapr", "swapc"))


def plans(outc, work, cfg):
    r = model(outc, work, "Conc", cfg, workers=4, min_states=100)
    out = []
    for m in re.finditer(r'<<"PLAN", <<(.*?)>>>>', r["out"]):
        out.append([tuple(int(x) for x in t) for t in re.findall(r"<<(\d+), (\d+)>>", "<<" + m.group(1) + ">>")])
    if len(out) < 50:
        raise CheckError("no schedules from " + cfg)
    return sorted(out)


def lifo(plan):
    """positions at which calls nest, if the schedule is properly nested (0 calls 1, ...)"""
    stack, pos, seen, used = [], [], [], {}
    for p, k in plan:
        if p not in seen:
            seen.append(p)
            if stack:
                pos.append((stack[-1], used[stack[-1]]))
            stack.append(p)
        elif not stack or stack[-1] != p:
            while stack and stack[-1] != p:
                if used[stack[-1]] != -1:
                    return None
                stack.pop()
            if not stack:
                return None
        used[p] = used.get(p, 0) + k
        if used[p] == plan_total(plan, p):
            used[p] = -1
    return seen, pos


def plan_total(plan, p):
    return sum(k for q, k in plan if q == p)


def build_programs(g, tier):
    T = tier == "thorough"
    same, mixed, free = [], [], []
    shapes = [(2, 2), (3, 3), (2, 3), (4, 4), (5, 5), (1, 4), (6, 6)]
    for n, op in enumerate(COOP_OPS):
        picks = shapes[:6] if T else [shapes[1] if op in gens.SQUARE else shapes[2], shapes[3]]
        if op in ("det", "inv", "lu", "pow", "chol") and not T:
            picks = [(2, 2), (3, 3), (4, 4), (5, 5)]
        if op == "inv" and not T:
            picks = [(1, 1), (2, 2), (3, 3), (4, 4)]
        if not T:
            picks = picks + [gens.pick([(6, 6), (1, 4), (7, 7), (5, 2), (8, 8), (3, 9)] if op not in ("inv", "pow") else [(5, 5), (6, 6)], n)]
        else:
            picks = picks + [(7, 7), (5, 2), (8, 8), (3, 9), (1, 16), (12, 12)][:2 if op in ("inv", "pow") else 6]
        for sh in picks:
            same.append(gens.conc_program(g, "coop", op, [sh], 3))
    for _ in range(120 if T else 30):
        op = g.r.choice([o for o in COOP_OPS if o not in ("chol", "stddev")])
        oth = [g.r.choice([o for o in COOP_OPS if o not in ("chol", "stddev")]) for _ in range(2)]
        mixed.append(gens.conc_program(g, "coop", op, [g.r.choice(shapes[:4]) for _ in range(3)], 3, oth))
    for ty in ("f64", "i32", "f32", "i64", "u8", "c64", "ld", "u32", "lng"):
        for op in gens.OPS[ty]:
            if op in ("swapr", "swapc", "print"):
                continue
            if not T and ty not in ("f64", "i32") and g.r.random() < 0.7:
                continue
            shs = [(8, 8), (3, 3)] if op not in ("inv", "pow", "det") else [(4, 4), (3, 3), (2, 2)] if ty in gens.FLOATS else [(3, 3), (2, 2)]
            if ty == "f32" and op in ("var", "mean"):
                shs = [(4, 4)]
            if ty in ("f64", "i32") or T:
                if op not in ("inv", "pow", "det", "lu", "chol") and not (ty == "f32" and op in ("var", "stddev", "mean")):
                    shs = shs + [gens.pick([(16, 16), (12, 5), (1, 20), (5, 17), (20, 3)], len(free))]
                elif op in ("lu", "chol") and ty == "f64":
                    shs = shs + [(6, 6)]
            for sh in shs:
                free.append(gens.conc_program(g, ty, op, [sh], 6))
    return same, mixed, free


def run(g, tier, outc, work):
    T = tier == "thorough"
    model(outc, work, "Conc", "Conc", min_states=1000)
    model(outc, work, "Conc", "Conc_shared", expect="violated", min_states=1)
    p2 = plans(outc, work, "Conc_gen2")
    p3 = plans(outc, work, "Conc_gen3")
    same, mixed, free = build_programs(g, tier)
    progs = same + mixed + free
    b = Build(work, "conc", main="conc.cpp")
    b.build([k for p in progs for k in p.keys()])
    if b.broken:
        outc.violations.append(dict(kind="does-not-compile", what=b.broken[0], detail=b.broken[1][:4000]))
        return
    if b.dropped:
        gone = set(b.dropped)
        outc.dropped += sorted(gone)
        same, mixed, free = ([p for p in ps if not set(p.keys()) & gone] for ps in (same, mixed, free))
    # how many element operations does each call perform?  (a process of its own: nothing is warmed up)
    for p in same + mixed:
        p.groups = [("count", [], [0, 1, 2])]
    res, points, _ = execute_conc(b, same + mixed, "count")
    conform_conc(outc, work, same + mixed, res, "count")
    if outc.violations:
        return
    total = 0
    for n, p in enumerate(same + mixed):
        pts = points[n]
        p.groups = []
        at = lambda c, k, m: max(1, min(pts[c], round(k * pts[c] / m))) if pts.get(c) else 0
        # nested, exhaustively over positions (up to a bound): call 0 interrupted by call 1
        lim = 400 if T else 90
        if pts.get(0):
            pos = range(1, pts[0] + 1)
            if len(pos) > lim:
                pos = sorted(g.r.sample(pos, lim))
            for x in pos:
                p.groups.append(("nested", [x], [0, 1]))
            for _ in range(60 if T else 10):
                if pts.get(1):
                    p.groups.append(("nested", [g.r.randrange(1, pts[0] + 1), g.r.randrange(1, pts[1] + 1)], [0, 1, 2]))
        # threads under TLC's schedules
        for plan in g.r.sample(p2, 300 if T else 24):
            if pts.get(0) and pts.get(1):
                done = {0: 0, 1: 0}
                args = []
                for c, k in plan:
                    upto = at(c, done[c] + k, 48)
                    q = upto - at(c, done[c], 48) if done[c] else upto
                    done[c] += k
                    if q > 0:
                        args.append("%d:%d" % (c, q))
                p.groups.append(("sched", args, [0, 1]))
        for plan in g.r.sample(p3, 200 if T else 12):
            if all(pts.get(c) for c in range(3)):
                args = ["%d:%d" % (c, max(1, round(k * pts[c] / 12))) for c, k in plan]
                p.groups.append(("sched", args, [0, 1, 2]))
        g.r.shuffle(p.groups)
        total += len(p.groups)
    coop = [p for p in same + mixed if p.groups]
    for p in free:
        p.groups = [("free", [20000 if T else 4000], list(range(len(p.calls()))))]
    res, _, runs = execute_conc(b, coop, "sched")
    conform_conc(outc, work, coop, res, "sched")
    res2, _, runs2 = execute_conc(b, free, "free")
    conform_conc(outc, work, free, res2, "free")
    outc.extra = dict(schedules_executed=total, concurrent_calls=runs, free_running_programs=len(free), free_running_threads=6)
    log("  %d schedules, %d calls in them, %d free-running groups" % (total, runs, len(free)))
    for p in coop[:2]:
        outc.samples.append(dict(calls=p.describe(), group=p.groups[0][:2]))
