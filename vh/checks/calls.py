"""C16, and C12 for the options of invocations: functions of providers (spec/Calls.tla)."""
import random

from .. import callgen, gen, pool, tlc
from ..batch import validate


def model_res(dry):
    """The five resources of Gen_Calls."""
    res = [gen.base("prov", "p1"), gen.base("prov", "p2", pk="pk2"), gen.base("comp", "c0", provs=[2]), gen.base("cust", "r1", par=3, version="1.0.0"),
           gen.base("cust", "r2", prov=1, url="http://u")]
    if dry:
        res[1]["engid"] = res[4]["engid"] = ""
    return res


def run(rep):
    big = rep.thorough
    rng = random.Random(rep.seed * 15485863 + 11)
    g = tlc.run("Gen_Calls")
    rep.tlc(g, "Gen_Calls: every single invocation and call over the alphabet; the guarantees hold of the meanings")
    n = len(g.lines) if big else 3000
    if rep.prop == "C12":  # only the options of invocations
        g.lines = [x for x in g.lines if x["o"]["k"] == "merge"]
        n = min(n, 800)
    lines = g.lines if len(g.lines) <= n else rng.sample(g.lines, n)
    rep.notes["model_calls_run"] = [len(lines), len(g.lines)]
    items = []
    from ..valgen import FEATS
    for x in lines:
        dry = rng.random() < .5
        items.append(({"dry": dry, "feats": rng.choice(FEATS), "res": model_res(dry), "calls": [x], "noref": False, "settled": rng.random() < .5},
                      rng.randrange(1 << 30)))
    for k in range(40000 if big else 800 if rep.prop == "C12" else 4000):
        items.append((callgen.item(rng, 6 if big and k % 3 == 0 else 4), rng.randrange(1 << 30)))
    rs = pool.pmap("vh.callrun.work", items, crash=rep.crash(items))
    flat = [r for r in rs if r is not None]
    org = [it for it, r in zip(items, rs) if r is not None]
    rep.traces += len(flat)
    for v in validate(rep, "Trace_Calls", flat, chunk=1500, par=4, workers=2):
        rep.violation(v["clause"], {"item": flat[v["tid"] - 1], "from": org[v["tid"] - 1]}, v["prop"])
    rep.add("calls_made", sum(1 for r in flat for g in r["got"] if g["made"]))
    if flat:
        rep.sample({"calls": flat[-1]["calls"][:1], "got": flat[-1]["got"][:1]})
    rep.assumptions += ["in an update every value the engine or the program gives is known",
                        "the engine reports failures in a list, whose first entry is the one shown"]
