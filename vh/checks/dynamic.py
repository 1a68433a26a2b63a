"""C20 (dynamic providers): spec/Dynamic.tla."""
import random
from concurrent.futures import ThreadPoolExecutor

from .. import dyngen, pool, tlc
from ..batch import validate


def run(rep):
    big = rep.thorough
    rng = random.Random(rep.seed * 32452843 + 20)
    g = tlc.run("Gen_Dynamic", constants={"NReq": 7} if big else None)
    rep.tlc(g, "Gen_Dynamic: every deployment, refresh and destruction of five (thorough: seven) requests with two of six providers; a resource always carries the provider that goes on managing it")
    n = 20000 if big else 1200
    take = g.lines if len(g.lines) <= n else rng.sample(g.lines, n)
    rep.notes["model_histories_run"] = [len(take), len(g.lines)]
    items = [dyngen.model_item(x, rng) for x in take] + [dyngen.item(rng) for _ in range(20000 if big else 1500)]
    rs = pool.pmap("vh.dynrun.work", items, crash=rep.crash(items))
    ok = [(r, it) for r, it in zip(rs, items) if r is not None]
    flat = [(r, it) for r, it in ok]

    # encodings: one process for each order of hashes
    from .. import dynrun
    m = 2000 if big else 300
    some = [dict(it, extras=[dyngen.extra(rng) for _ in it["pvs"]]) for it in (dyngen.item(rng) for _ in range(m))]
    seeds = [0, 1, 2, 3, 4, 5, 6, 7] if big else [0, 1, 2, 3]
    with ThreadPoolExecutor(4) as ex:
        runs = list(ex.map(lambda s: dynrun.encodings(some, s, s), seeds))
    for k, it in enumerate(some):
        ev = []
        for i in range(1, len(it["pvs"]) + 1):
            got = [r[(k, i)] for r in runs]
            ev.append({"ev": "encode", "p": i, "fail": not all(x[0] for x in got), "msg": [x[1] for x in got if not x[0]][:1],
                       "distinct": len({x[1] for x in got}), "faithful": all(x[2] for x in got)})
        flat.append(({"pvs": it["pvs"], "ev": ev}, it))
    rep.traces += len(flat)
    traces = [r for r, _ in flat]
    for v in validate(rep, "Trace_Dynamic", traces, chunk=700, par=4, workers=2):
        r, it = flat[v["tid"] - 1]
        rep.violation(v["clause"], {"event": r["ev"][v["l"] - 1], "at": v["l"], "from": it}, v["prop"])
    rep.add("requests", sum(e["ev"] == "request" for r in traces for e in r["ev"]))
    rep.add("requests_failed", sum(e["ev"] == "request" and e["ans"]["fail"] for r in traces for e in r["ev"]))
    rep.add("resources_registered", sum(e["ev"] == "register" for r in traces for e in r["ev"]))
    rep.add("providers_encoded", sum(e["ev"] == "encode" for r in traces for e in r["ev"]) * len(seeds))
    if traces:
        rep.sample(ok[-1][0]["ev"][-1])
