"""C30 (the launcher of programs): spec/Launcher.tla."""
import random

from .. import langen, pool, tlc
from ..batch import confirmed, validate


def run(rep):
    big = rep.thorough
    rng = random.Random(rep.seed * 32452843 + 30)
    if big:
        rep.tlc(tlc.run("Gen_Launcher", constants={"N": 4, "Show": "FALSE"}, heap="8g", timeout=3000), "Gen_Launcher: every program of up to four actions")
    g = tlc.run("Gen_Launcher", heap="4g")
    rep.tlc(g, "Gen_Launcher: every program of up to two actions, for three environments")
    take = g.lines if big else rng.sample(g.lines, min(len(g.lines), 300))
    rep.notes["model_programs_run"] = [len(take), len(g.lines)]
    items = [dict(x, **langen.how(rng)) for x in take] + [langen.item(rng) for _ in range(4000 if big else 250)]
    rs = pool.pmap("vh.lanrun.work", items, procs=16, crash=rep.crash(items))
    flat = [(r, it) for r, it in zip(rs, items) if r is not None]
    rep.traces += len(flat)
    vs = validate(rep, "Trace_Launcher", [r for r, _ in flat], chunk=200, par=4, workers=2)
    for v in confirmed(rep, "Trace_Launcher", vs, "vh.lanrun.work", [it for _, it in flat], lambda r, it: r, chunk=200, par=4, workers=2):
        r, it = flat[v["tid"] - 1]
        rep.violation(v["clause"], {"item": it, "got": {k: x for k, x in r.items() if k not in ("e", "prog")}}, v["prop"])
    for r, it in flat:
        rep.add("exit_code_" + r["code"])
        rep.add("programs_given_as_" + it["form"])
    if flat:
        rep.sample({k: flat[-1][0][k] for k in ("code", "errors", "seen")})
