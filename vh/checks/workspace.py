"""C26 (workspace operations and inline programs): spec/Workspace.tla and spec/Inline.tla."""
import random

from .. import ingen, pool, tlc, wsgen
from ..batch import confirmed, validate


def run(rep):
    big = rep.thorough
    rng = random.Random(rep.seed * 15485863 + 26)
    if big:
        rep.tlc(tlc.run("Gen_Workspace", constants={"NOps": 3, "Show": "FALSE"}, heap="12g", timeout=3000), "Gen_Workspace: every history of three operations after each start")
    g = tlc.run("Gen_Workspace", heap="8g")
    rep.tlc(g, "Gen_Workspace: every history of two operations after each of three starts: configuration, stacks, outputs, state, plugins, environment, failing commands")
    take = rng.sample(g.lines, min(len(g.lines), 15000 if big else 450))
    rep.notes["model_histories_run"] = [len(take), len(g.lines)]
    items = wsgen.model_items(take, rng) + [wsgen.item(rng) for _ in range(8000 if big else 450)]
    rs = pool.pmap("vh.wsrun.work", items, procs=16, crash=rep.crash(items))
    ok = [(r, it) for r, it in zip(rs, items) if r is not None]
    flat = [r for r, _ in ok]
    rep.traces += len(flat)
    vs = validate(rep, "Trace_Workspace", flat, chunk=200, par=4, workers=2)
    for v in confirmed(rep, "Trace_Workspace", vs, "vh.wsrun.work", [it for _, it in ok], lambda r, it: r, chunk=200, par=4, workers=2):
        rep.violation(v["clause"], {"event": {k: x for k, x in flat[v["tid"] - 1]["ev"][v["l"] - 1].items() if k != "w"}, "history": ok[v["tid"] - 1][1]["ops"]}, v["prop"])
    evs = [e for r in flat for e in r["ev"]]
    for e in evs:
        rep.add("events_" + (e["o"]["op"] if e["ev"] == "op" else "version"))
    if evs:
        rep.sample({k: evs[-1][k] for k in ("ev", "r") if k in evs[-1]})
    inline(rep, rng)


def inline(rep, rng):
    big = rep.thorough
    if big:
        rep.tlc(tlc.run("Gen_Inline", constants={"Show": "FALSE", "Len1": 2, "Len2": 2}, heap="16g", timeout=3000), "Gen_Inline: two programs of two actions each")
    g = tlc.run("Gen_Inline", heap="6g")
    rep.tlc(g, "Gen_Inline: every two small inline programs, every order of their steps: each ends as it would alone, and the caller's settings stay")
    take = rng.sample(g.lines, min(len(g.lines), 4000 if big else 180))
    rep.notes["model_inline_programs_run"] = [len(take), len(g.lines)]
    items = take + [ingen.item(rng) for _ in range(4000 if big else 180)]
    rs = pool.pmap("vh.inrun.work", items, procs=16, crash=rep.crash(items))
    flat = [r for r in rs if r is not None]
    rep.traces += len(flat)
    vs = validate(rep, "Trace_Inline", flat, chunk=200, par=4, workers=2)
    for v in confirmed(rep, "Trace_Inline", vs, "vh.inrun.work", [it for r, it in zip(rs, items) if r is not None], lambda r, it: r, chunk=200, par=4, workers=2):
        rep.violation(v["clause"], {"event": flat[v["tid"] - 1]["ev"][v["l"] - 1]}, v["prop"])
    for r in flat:
        for e in r["ev"]:
            rep.add("inline_" + e["ev"] + ("s_that_failed" if e["ev"] == "run" and e["err"][0] != "none" else "s"))
