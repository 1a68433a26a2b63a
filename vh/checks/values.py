"""C01..C04, and C05 for answers that cannot be decoded: the value language (spec/Values.tla)."""
import json
import random

from .. import gen, pool, tlc, valgen
from ..batch import validate


def rename(e, pre):
    if isinstance(e, dict):
        return {k: (pre + v if k == "id" and isinstance(v, str) else rename(v, pre)) for k, v in e.items()}
    if isinstance(e, list):
        return [rename(x, pre) for x in e]
    return e


def model_items(rng, exprs, kinds=("cust", "rcomp", "custtr"), per=8):
    """Expressions of the specification, to be run against two custom resources."""
    items = []
    for k in range(0, len(exprs), per):
        dry = rng.random() < 0.6
        res = [gen.base("cust", "r1"), gen.base("cust", "r2")]
        ex = []
        for j, x in enumerate(exprs[k:k + per]):
            e = rename(x["x"], "m%d_%d_" % (k, j))
            ex.append({"e": e, "as": ["den"] + ([rng.choice(kinds)] if rng.random() < 0.6 else [])})
        items.append(({"dry": dry, "feats": rng.choice(valgen.FEATS), "res": res, "exprs": ex, "settled": rng.random() < 0.5}, rng.randrange(1 << 30)))
    return items


def run(rep):
    big = rep.thorough
    rng = random.Random(rep.seed * 104729 + 5)
    items = []
    if rep.prop in ("C01", "C02", "C03"):
        g = tlc.run("Gen_Values", constants={"Depth": 2, "Mode": '"gen"', "Wide": "TRUE" if big else "FALSE"}, timeout=3600)
        rep.tlc(g, "Gen_Values: every expression of depth 2, in every context: the guarantees hold of the meanings")
        g1 = tlc.run("Gen_Values", constants={"Depth": 1, "Mode": '"gen"', "Wide": "FALSE"})
        n = 30000 if big else 3600
        exprs = g1.lines + (g.lines if len(g.lines) <= n else rng.sample(g.lines, n))
        rng.shuffle(exprs)
        rep.notes["model_expressions_run"] = [len(exprs), len(g.lines) + len(g1.lines)]
        items += model_items(rng, exprs)
        for k in range(8000 if big else 700):
            items.append((valgen.item(rng, depth=4 if big and k % 4 == 0 else 3), rng.randrange(1 << 30)))
    if rep.prop in ("C03", "C04"):
        for k in range((10000 if big else 1100) if rep.prop == "C04" else 200):
            items.append((valgen.answers_item(rng), rng.randrange(1 << 30)))
    if rep.prop == "C05":
        for k in range(6000 if big else 500):
            items.append((valgen.answers_item(rng, 0.5), rng.randrange(1 << 30)))
    flat, org = [], []
    for it, r in zip(items, pool.pmap("vh.valrun.work", items, crash=rep.crash(items))):
        for x in r or []:
            if rep.prop == "C04" and x["mode"] not in ("prop", "id") or rep.prop == "C05" and x["mode"] != "settle":
                continue
            if rep.prop in ("C01", "C02") and x["mode"] != "den" or rep.prop == "C03" and x["mode"] != "ser":
                continue
            flat.append(x)
            org.append(it)
    rep.traces += len(flat)
    seen = {}
    for v in validate(rep, "Trace_Values", flat, chunk=2500, par=4, workers=2):
        x = flat[v["tid"] - 1]
        rep.violation(v["clause"], {"item": x, "from": org[v["tid"] - 1] if len(json.dumps(x)) < 100000 else None}, v["prop"])
    rep.add("observations", len(flat))
    if flat:
        rep.sample(flat[len(flat) // 2])
    rep.assumptions = (rep.assumptions or []) + [
        "in an update every value the engine or the program gives is known",
        "the stand-in for the engine answers every request, in any order"]
