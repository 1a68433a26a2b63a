"""C28 (programs under mocks): spec/Mocks.tla says what the mock is shown and what programs get; Gen_Mocks enumerates small programs."""
import random

from .. import mockgen, pool, tlc
from ..batch import validate


def run(rep):
    big = rep.thorough
    rng = random.Random(rep.seed * 533000401 + 28)
    g = tlc.run("Gen_Mocks", constants={"NR": 3, "NA": 1} if big else None)
    rep.tlc(g, "Gen_Mocks: every program of up to two (thorough: three) resources, and what is looked up and called afterwards")
    lines = g.lines
    n = 20000 if big else 1500
    take = lines if len(lines) <= n else rng.sample(lines, n)
    rep.notes["model_programs_run"] = [len(take), len(lines)]
    items = [(mockgen.model_item(x, rng), rng.randrange(1 << 30)) for x in take]
    items += [(mockgen.item(rng), rng.randrange(1 << 30)) for _ in range(30000 if big else 5000)]
    rs = pool.pmap("vh.mockrun.work", items, crash=rep.crash(items))
    ok = [(r, it) for r, it in zip(rs, items) if r is not None]
    flat = [r for r, _ in ok]
    rep.traces += len(flat)
    for v in validate(rep, "Trace_Mocks", flat, chunk=1000, par=4, workers=2):
        rep.violation(v["clause"], {"run": flat[v["tid"] - 1], "from": ok[v["tid"] - 1][1]}, v["prop"])
    rep.add("resources_shown", sum(len(r["seen"]) for r in flat))
    rep.add("calls_shown", sum(len(r["called"]) for r in flat))
    rep.add("outputs_compared", sum(len(p["props"]) for r in flat for p in r["props"]))
    rep.add("lookups", sum(len(r["gets"]) for r in flat))
    rep.add("failing_programs", sum(r["end"] == "error" for r in flat))
    if flat:
        rep.sample({k: flat[-1][k] for k in ("told", "seen", "called", "props", "end")})
    rep.assumptions += ["resources do not wait for themselves (KF-C08-1)"]
