"""C24 (Automation API operations): spec/Automation.tla."""
import random

from .. import autgen, pool, tlc
from ..batch import confirmed, validate


def run(rep):
    big = rep.thorough
    rng = random.Random(rep.seed * 104651 + 24)
    g = tlc.run("Gen_Automation", constants={"NArgs": 3, "NFrag": 3} if big else None, heap="8g")
    rep.tlc(g, "Gen_Automation: every operation with every two (thorough: three) of its arguments, failing at each of its invocations; every failure text of two (thorough: three) fragments")
    n = 12000 if big else 1800
    texts = [x for x in g.lines if x["k"] == "text"]
    ops = [x for x in g.lines if x["k"] == "op"]
    few = [x for x in ops if len(x["o"]["args"]) <= 1]
    many = [x for x in ops if len(x["o"]["args"]) > 1]
    take = rng.sample(texts, min(len(texts), n // 3)) + rng.sample(few, min(len(few), n)) + rng.sample(many, min(len(many), n // 2))
    rep.notes["model_cases_run"] = [len(take), len(g.lines)]
    items = autgen.model_items(take, rng) + [autgen.item(rng) for _ in range(6000 if big else 700)]
    rs = pool.pmap("vh.autorun.work", items, procs=16, crash=rep.crash(items))
    ok = [(r, it) for r, it in zip(rs, items) if r is not None]
    flat = [r for r, _ in ok]
    rep.traces += len(flat)
    vs = validate(rep, "Trace_Automation", flat, chunk=200, par=4, workers=2)
    for v in confirmed(rep, "Trace_Automation", vs, "vh.autorun.work", [it for _, it in ok], lambda r, it: r, chunk=200, par=4, workers=2):
        rep.violation(v["clause"], {"operation": flat[v["tid"] - 1]["ev"][v["l"] - 1], "env": flat[v["tid"] - 1]["env"], "home": flat[v["tid"] - 1]["home"]}, v["prop"])
    evs = [e for r in flat for e in r["ev"]]
    rep.add("operations", len(evs))
    rep.add("cli_invocations", sum(len(e["runs"]) for e in evs))
    rep.add("events_delivered", sum(len(e["seen"]) for e in evs))
    for e in evs:
        rep.add("operations_" + (e["got"]["t"] if e["got"]["t"] == "ok" else e["got"]["c"]))
    if evs:
        rep.sample({k: evs[-1][k] for k in ("o", "got", "left")})
