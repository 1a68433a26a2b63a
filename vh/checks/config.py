"""C19 (configuration): spec/Config.tla."""
import random

from .. import cfggen, pool, tlc
from ..batch import validate


def run(rep):
    big = rep.thorough
    rng = random.Random(rep.seed * 15485863 + 19)
    g = tlc.run("Gen_Config", constants={"NOps": 4} if big else None)
    rep.tlc(g, "Gen_Config: every history of three (thorough: four) changes to what is set, secret, in the environment; lookups, defaults, missing keys and independence of keys")
    t = tlc.run("Gen_Texts", constants={"NT": 5} if big else None)
    rep.tlc(t, "Gen_Texts: every text of up to four (thorough: five) characters of nine; what the conversions accept and what they make of it")
    n = 30000 if big else 6000
    take = g.lines if len(g.lines) <= n else rng.sample(g.lines, n)
    rep.notes["model_histories_run"] = [len(take), len(g.lines)]
    rep.notes["texts_run"] = len(t.lines)
    items = [cfggen.model_item(x, rng) for x in take] + cfggen.text_items(sorted(t.lines), rng) + [cfggen.item(rng) for _ in range(40000 if big else 6000)]
    rs = pool.pmap("vh.cfgrun.work", items, crash=rep.crash(items))
    ok = [(r, it) for r, it in zip(rs, items) if r is not None]
    flat = [r for r, _ in ok]
    rep.traces += len(flat)
    for v in validate(rep, "Trace_Config", flat, chunk=1000, par=4, workers=2):
        rep.violation(v["clause"], {"history": flat[v["tid"] - 1], "at": v["l"], "from": ok[v["tid"] - 1][1]}, v["prop"])
    looks = [e for r in flat for e in r["ev"] if e["ev"] == "look"]
    rep.add("lookups", len(looks))
    for k in ("ok", "wrong", "missing"):
        rep.add("lookups_" + k, sum(e["got"]["t"] == k for e in looks))
    if looks:
        rep.sample(looks[-1])
