"""C10..C14: what a resource's options mean (spec/Requests.tla)."""
import json
import random

from .. import pool, reqgen, tlc
from ..batch import validate

FAMS = {"C10": ["merge"], "C11": ["merge"], "C12": ["merge"], "C13": ["alias"], "C14": ["tf"]}
FOCUS = {"C10": ["opts", "opts", "merge", "alias", "tf"], "C11": ["opts", "merge"], "C12": ["merge"], "C13": ["alias", "alias", "alias", "merge"],
         "C14": ["tf", "tf", "tf", "merge"]}


def run(rep):
    big = rep.thorough
    rng = random.Random(rep.seed * 7919 + 3)
    items = []
    for fam in FAMS[rep.prop]:
        g = tlc.run("Gen_Requests", constants={"Family": '"%s"' % fam})
        rep.tlc(g, "Gen_Requests %s: every program of the family; the guarantees hold of the meanings" % fam)
        n = len(g.lines) if big else (1800 if rep.prop == "C11" else 4200)
        lines = g.lines if len(g.lines) <= n else rng.sample(g.lines, n)
        rep.notes["model_programs_run"] = [len(lines), len(g.lines)]
        items += [(x, rng.randrange(1 << 30)) for x in lines]
    for k in range(30000 if big else 1500 if rep.prop == "C11" else 3000):
        items.append((reqgen.rand_program(rng, rng.choice(FOCUS[rep.prop]), 7 if big and k % 2 else 5), rng.randrange(1 << 30)))
    rs = pool.pmap("vh.reqrun.work", items, crash=rep.crash(items))
    flat = [{"p": it[0], "o": r} for it, r in zip(items, rs) if r is not None]
    rep.traces += len(flat)
    for v in validate(rep, "Trace_Requests", flat, chunk=1200, par=4, workers=2):
        rep.violation(v["clause"], flat[v["tid"] - 1], v["prop"])
    if flat:
        rep.sample({"program": json.loads(json.dumps(flat[-1]["p"])), "sends": flat[-1]["o"]["sends"][:2]})
    rep.assumptions += ["option values are drawn from a finite alphabet of names, versions, URLs, URNs and resources",
                        "aliases given as outputs have known values"]
