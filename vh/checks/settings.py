"""C25 (project and stack settings): spec/Settings.tla."""
import random

from .. import pool, setgen, tlc
from ..batch import validate


def run(rep):
    big = rep.thorough
    rng = random.Random(rep.seed * 15485863 + 25)
    g = tlc.run("Gen_Settings", constants={"NOps": 4} if big else None, heap="8g")
    rep.tlc(g, "Gen_Settings: every history of three (thorough: four) writes of project and stack settings, by the workspace and by others, over all file names")
    take = rng.sample(g.lines, min(len(g.lines), 20000 if big else 1000))
    rep.notes["model_histories_run"] = [len(take), len(g.lines)]
    items = setgen.model_items(take, rng) + [setgen.item(rng) for _ in range(12000 if big else 1200)]
    rs = pool.pmap("vh.setrun.work", items, procs=16, crash=rep.crash(items))
    ok = [(r, it) for r, it in zip(rs, items) if r is not None]
    flat = [r for r, _ in ok]
    rep.traces += len(flat)
    for v in validate(rep, "Trace_Settings", flat, chunk=300, par=4, workers=2):
        rep.violation(v["clause"], {"event": flat[v["tid"] - 1]["ev"][v["l"] - 1], "history": ok[v["tid"] - 1][1]["ops"]}, v["prop"])
    evs = [e for r in flat for e in r["ev"]]
    for e in evs:
        rep.add("events_" + e["ev"])
    if evs:
        rep.sample({k: evs[-1][k] for k in ("ev", "got") if k in evs[-1]})
