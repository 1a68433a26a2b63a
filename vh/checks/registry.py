"""C22 (references to resources of registered packages): spec/Registry.tla."""
import random

from .. import pool, reggen, tlc
from ..batch import validate


def run(rep):
    big = rep.thorough
    rng = random.Random(rep.seed * 1299709 + 22)
    g = tlc.run("Gen_Registry", constants={"NR": 4} if big else None)
    rep.tlc(g, "Gen_Registry: every history of three (thorough: four) registrations of eight versions of two packages; the best that fits is found whatever the order")
    n = 30000 if big else len(g.lines)
    take = g.lines if len(g.lines) <= n else rng.sample(g.lines, n)
    rep.notes["model_histories_run"] = [len(take), len(g.lines)]
    items = [reggen.model_item(x, rng) for x in take] + [reggen.item(rng) for _ in range(60000 if big else 8000)]
    rs = pool.pmap("vh.regrun.work", items, crash=rep.crash(items))
    ok = [(r, it) for r, it in zip(rs, items) if r is not None]
    flat = [r for r, _ in ok]
    rep.traces += len(flat)
    for v in validate(rep, "Trace_Registry", flat, chunk=1500, par=4, workers=2):
        rep.violation(v["clause"], {"history": flat[v["tid"] - 1], "at": v["l"], "from": ok[v["tid"] - 1][1]}, v["prop"])
    rep.add("registrations", sum(e["ev"] == "register" for r in flat for e in r["ev"]))
    rep.add("registrations_refused", sum(e["ev"] == "register" and not e["ok"] for r in flat for e in r["ev"]))
    rep.add("answers_decoded", sum(e["ev"] == "decode" for r in flat for e in r["ev"]))
    if flat:
        rep.sample(flat[-1]["ev"][-1])
