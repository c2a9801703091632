"""What each property's check runs, and its evidence."""
import json
import os

import compose
import conc
import flt
import gens
import models
import shapes
import units
from vlib import ASAN, NOELIDE, VERIF, conform, log

PLAIN = {k: getattr(gens, "gen_" + k) for k in ["C%02d" % n for n in range(1, 16)] + ["C16", "C18", "C19", "C20"]}


def run(prop, tier, seed, outc, work):
    g = gens.G(prop, tier, seed)
    models.run(prop, tier, outc, work)
    if prop == "C17":
        return conc.run(g, tier, outc, work)
    if prop == "C22":
        return flt.run(g, tier, outc, work)
    if prop == "C24":
        return shapes.run(g, tier, outc, work)
    if prop == "C23":
        return units.run(g, tier, outc, work)
    if prop == "C21":
        return compose.run(g, tier, seed, outc, work)
    progs = PLAIN[prop](g)
    log("%s: %d programs, %d calls" % (prop, len(progs), sum(len(p.keys()) for p in progs)))
    if prop == "C18":
        return conform(outc, work, progs, "noelide", NOELIDE)
    conform(outc, work, progs)
    if prop == "C19":
        conform(outc, work, progs, "asan", ASAN)


def write_evidence(prop, tier, seed, outc, wall):
    d = os.path.join(os.environ.get("VERIF_WORK") or VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = dict(states=outc.states, transitions=outc.transitions, traces_validated_against_impl=outc.traces,
               calls=outc.events, distinct_calls=len(outc.distinct), calls_by_operation=outc.events_by_op,
               models=outc.models, samples=outc.samples, instantiations_left_out=outc.dropped, **outc.extra)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(wall, 1), violations=len(outc.violations))
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
