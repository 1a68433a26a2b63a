"""C15 (component providers): spec/Provider.tla says what one request gives and answers, spec/ProviderServer.tla how requests are kept apart."""
import random

from .. import pool, provgen, tlc
from ..batch import validate


def run(rep):
    big = rep.thorough
    rng = random.Random(rep.seed * 982451653 + 15)
    for nq, nr in [(2, 2)] + [(3, 1), (2, 3)] * big:
        rep.tlc(tlc.run("MC_ProviderServer", constants={"NQ": nq, "NR": nr}, timeout=3000),
                "MC_ProviderServer: %d requests of up to %d resources, every interleaving; requests are kept apart and all are served" % (nq, nr))
    for off in ("Locked", "Forget", "Abandon", "AtOnce"):
        r = tlc.run("MC_ProviderServer", constants={off: "FALSE"}, check_ok=False)
        if r.ok or "is violated" not in r.out:
            raise tlc.TLCError("without %s, MC_ProviderServer should be violated" % off)
    g = tlc.run("Gen_ProviderServer", constants={"NQ": 2, "NR": 2})
    rep.tlc(g, "Gen_ProviderServer: every history of two requests of up to two resources")
    plans = list({repr(x["plan"]): x for x in g.lines}.values())
    rep.notes["model_histories_run"] = len(plans)
    items = [(provgen.plan_item(x, rng), rng.randrange(1 << 30)) for x in plans * (6 if big else 1)]
    items += [(provgen.item(rng), rng.randrange(1 << 30)) for _ in range(14000 if big else 1800)]
    rs = pool.pmap("vh.provrun.work", items, crash=rep.crash(items))
    ok = [(r, it) for r, it in zip(rs, items) if r is not None]
    flat = [(x, it) for r, it in ok for x in r["reqs"]]
    rep.traces += len(flat)
    for v in validate(rep, "Trace_Provider", [x for x, _ in flat], chunk=1000, par=4, workers=2):
        rep.violation(v["clause"], {"request": flat[v["tid"] - 1][0], "from": flat[v["tid"] - 1][1]}, v["prop"])
    for v in validate(rep, "Trace_ProviderServer", [r["hist"] for r, _ in ok], chunk=1500, par=4, workers=2):
        rep.violation(v["clause"], {"history": ok[v["tid"] - 1][0]["hist"], "at": v["l"], "from": ok[v["tid"] - 1][1]}, v["prop"])
    rep.add("requests_served", len(flat))
    rep.add("requests_failed", sum(x["ans"]["err"] for x, _ in flat))
    rep.add("inputs_seen", sum(len(x["seen"]) for x, _ in flat))
    rep.add("resources_made", sum(len(x["kids"]) for x, _ in flat))
    if flat:
        rep.sample({k: flat[-1][0][k] for k in ("kind", "inputs", "deps", "seen", "kids", "ans")})
    rep.assumptions += ["in an update every value the engine or the program gives is known",
                        "the provider's code makes its resources before it returns, not in callbacks of outputs"]
