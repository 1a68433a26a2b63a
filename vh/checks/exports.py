"""C17 (stack outputs), C18 (stack references), C23 (optional engine features), C29 (log messages): spec/Exports.tla."""
import random

from .. import expgen, gen, pool, tlc
from ..batch import validate
from ..valgen import FEATS, S

PROP = {"C17": "exports", "C18": "sref", "C23": "features", "C29": "logs"}
SHARED = [{"e": "list", "l": [{"e": "str", "s": "p"}, {"e": "sh", "i": 1}, {"e": "sh", "i": 3}]},
          {"e": "dict", "k": ["a", "b", "_hid"], "l": [{"e": "sh", "i": 1}, {"e": "sh", "i": 3}, {"e": "str", "s": "S3"}]},
          {"e": "obj", "v": {"e": "list", "l": [{"e": "sh", "i": 2}, {"e": "res", "r": 1}]}}]


def model_item(x, rng):
    """What Gen_Exports emits, next to its three resources."""
    bag = {"t": "dict", "k": [], "l": []}
    r1 = gen.base("cust", "r1", props=[["p", {"e": "null"}]], outs={"t": "dict", "k": ["p"], "l": [{"t": "sec", "v": S("S1")}]})
    r2 = gen.base("comp", "r2")
    r2["attrs"] = [["peer", {"e": "res", "r": 1}], ["_priv", {"e": "str", "s": "S3"}], ["data", {"e": "list", "l": [{"e": "res", "r": 2}, {"e": "sh", "i": 1}]}]]
    res = [r1, r2]
    if x["get"]:
        r3 = expgen.sref(rng, x["dry"], 0)
        r3["outs"] = x["ans"]
        res.append(r3)
    for r in res:
        r.setdefault("par", 0)
    r2["outs"] = bag
    return {"dry": x["dry"] if x["get"] else rng.random() < .5, "feats": dict(rng.choice(FEATS)), "res": res, "shared": SHARED, "exports": x["exports"],
            "gets": [{"what": "get", "r": 3, "name": x["get"][0], "required": x["required"]}] if x["get"] else [], "regouts": [], "logs": [], "raise": False}


def run(rep):
    big = rep.thorough
    rng = random.Random(rep.seed * 472882049 + 29)
    focus = PROP[rep.prop]
    items = []
    if rep.prop in ("C17", "C18"):
        g = tlc.run("Gen_Exports")
        rep.tlc(g, "Gen_Exports: every sequence of two exports and every read of a stack reference over the alphabet; the guarantees hold of the meanings")
        lines = [x for x in g.lines if bool(x["get"]) == (rep.prop == "C18")]
        n = len(lines) if big else 1500
        take = lines if len(lines) <= n else rng.sample(lines, n)
        rep.notes["model_programs_run"] = [len(take), len(lines)]
        items += [(model_item(x, rng), rng.randrange(1 << 30)) for x in take]
    for k in range(24000 if big else 3500):
        items.append((expgen.item(rng, focus), rng.randrange(1 << 30)))
    rs = pool.pmap("vh.exprun.work", items, crash=rep.crash(items))
    flat = [r for r in rs if r is not None]
    org = [it for it, r in zip(items, rs) if r is not None]
    rep.traces += len(flat)
    for v in validate(rep, "Trace_Exports", flat, chunk=1000, par=4, workers=2):
        rep.violation(v["clause"], {"item": flat[v["tid"] - 1], "from": org[v["tid"] - 1]}, v["prop"])
    rep.add("outputs_sent", sum(len(r["outputs"]) for r in flat))
    rep.add("reads_of_references", sum(len(r["gets"]) for r in flat))
    rep.add("messages_logged", sum(len(r["logged"]) for r in flat))
    rep.add("features_asked", sum(len(r["asked"]) for r in flat))
    if flat:
        rep.sample({k: flat[-1][k] for k in ("exports", "outputs", "gets", "logged", "asked", "end")})
    rep.assumptions += ["in an update every value the engine or the program gives is known"]
