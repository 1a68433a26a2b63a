"""C21 (typed inputs and outputs): spec/Types.tla."""
import random

from .. import pool, tlc, typgen
from ..batch import validate


def run(rep):
    big = rep.thorough
    rng = random.Random(rep.seed * 32452843 + 21)
    g = tlc.run("Gen_Types", constants={"Depth": 3} if big else None)
    rep.tlc(g, "Gen_Types: every small value of 22 (thorough: 23) types over two classes and an enumeration; nothing declared is lost, objects and dictionaries in their place are sent alike, what is sent and comes back is what it was")
    its = []
    take = g.lines if len(g.lines) <= 20000 else rng.sample(g.lines, 20000)
    for _ in range(3 if big else 1):
        its += typgen.model_items(take, rng)
    rep.notes["model_values_run"] = [len(take), len(g.lines)]
    its += [typgen.item(rng) for _ in range(30000 if big else 4000)]
    items = [(x, rng.randrange(1 << 30)) for x in its]
    rs = pool.pmap("vh.typrun.work", items, crash=rep.crash(items))
    ok = [(r, it) for r, it in zip(rs, items) if r is not None]
    flat = [r for r, _ in ok]
    rep.traces += len(flat)
    for v in validate(rep, "Trace_Types", flat, chunk=800, par=4, workers=2):
        rep.violation(v["clause"], {"schema": {k: flat[v["tid"] - 1][k] for k in ("cls", "enums")}, "event": flat[v["tid"] - 1]["ev"][v["l"] - 1],
                                    "source": ok[v["tid"] - 1][1][0]["src"]}, v["prop"])
    for k in ("reg", "invoke", "from", "map", "reads"):
        rep.add({"reg": "registrations", "invoke": "calls", "from": "from_input", "map": "mappings_read", "reads": "input_objects"}[k],
                sum(e["ev"] == k for r in flat for e in r["ev"]))
    rep.add("outputs_compared", sum(len(e["outs"]) for r in flat for e in r["ev"] if e["ev"] == "reg"))
    rep.add("misfits_refused", sum(e["fail"] for r in flat for e in r["ev"] if e["ev"] in ("reg", "invoke")))
    if flat:
        rep.sample(flat[-1]["ev"][-1])
