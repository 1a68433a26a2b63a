"""C05..C09, C11: the deployment family (spec/Deployment*.tla)."""
import random
import zlib

from .. import deploy, gen, pool, progrun, tlc
from ..batch import validate

KINDS = '{"cust", "comp", "rcomp"}'


def canonical_input_cycle():
    """KF-C08-1: comp A; B depends on A; C is a child of A and takes an output of B."""
    b = gen.base
    return {"res": [b("comp", "r1"), b("cust", "r2", deps=[1], props=[["p", gen.num(1)]]),
                    b("cust", "r3", par=1, props=[["p", gen.num(1)], ["in2", {"e": "out", "r": 2, "p": "p"}]])]}


def run(rep):
    big = rep.thorough
    rng = random.Random(rep.seed * 7919 + 11)
    # 1. the specification itself
    mc = [("plain", '{"cust", "comp"}', 3, 2), ("faults", '{"cust", "comp"}', 3, 1)]
    if big:
        mc = [("plain", KINDS, 3, 3), ("faults", '{"cust", "comp"}', 3, 2), ("plain", '{"cust", "comp"}', 4, 1)]
    for mode, kinds, n, md in mc:
        r = tlc.run("MC_Deployment", constants={"N": n, "Kinds": kinds, "Mode": '"%s"' % mode, "MaxDeps": md}, timeout=3600)
        rep.tlc(r, "MC_Deployment N=%d %s MaxDeps=%d %s" % (n, mode, md, kinds))
    # 2. every program of the model, run against the SDK under every order of answers
    g = tlc.run("Gen_Deployment", constants={"N": 3, "Kinds": KINDS if big else '{"cust", "comp"}', "MaxDeps": 2})
    progs = [x for x in g.lines]
    if big:
        g4 = tlc.run("Gen_Deployment", constants={"N": 4, "Kinds": '{"cust", "comp"}', "MaxDeps": 2}, timeout=1800)
        progs += rng.sample(g4.lines, min(len(g4.lines), 6000))
    items = []
    for x in progs:
        items.append((gen.concretize(x["p"]), 24))
        if big or zlib.crc32(repr((rep.seed, x)).encode()) % 4 == 0:
            items.append((gen.concretize(x["p"], faults=(1 + rng.randrange(len(x["p"])),), dry=rng.random() < 0.5), 24))
    rep.notes["model_programs_run"] = len(items)
    # rings of waits, and every placement of providers
    shaped = []
    want = {"rings3": 700, "rings4": 500, "provs": 500}
    if rep.prop == "C08":
        want.update(rings3=1400, rings4=1500)
    if rep.prop == "C11":
        want.update(provs=3000)
    for name, shape, k, m in (("rings3", "rings", 3, 3 if big else 2), ("rings4", "rings", 4, 1), ("provs", "provs", 3, 1)):
        g = tlc.run("Gen_Shapes", constants={"Shape": '"%s"' % shape, "K": k, "MaxOut": m})
        ps = g.lines if big or len(g.lines) <= want[name] else rng.sample(g.lines, want[name])
        rep.notes["shape_" + name] = [len(ps), len(g.lines)]
        for x in ps:
            for _ in range(4 if big else 1):
                shaped.append((gen.concretize(x["p"], dry=rng.random() < 0.3), rng.randrange(1 << 30)))
    traces, origin, seen = [], [], set()
    for it, runs in zip(items, pool.pmap("vh.deploy.work_explore", items, crash=rep.crash(items))):
        for pre, tr in runs or []:
            rep.add("schedules_explored")
            key = repr((tr["prog"], tr["ev"]))
            if key in seen:
                continue
            seen.add(key)
            traces.append(tr)
            origin.append({"prog": it[0], "choices": pre})
    # 3. random larger programs (all kinds of resources, providers, callbacks, failures) under random schedules
    ritems = [(gen.rand_program(rng, 10 if big and k % 3 == 0 else 7), rng.randrange(1 << 30)) for k in range(40000 if big else 4000)]
    for it, tr in zip(ritems, pool.pmap("vh.deploy.work_random", ritems, crash=rep.crash(ritems))):
        if tr is None:
            continue
        traces.append(tr)
        origin.append({"prog": it[0], "seed": it[1]})
    rep.add("random_programs", len(ritems))
    for it, tr in zip(shaped, pool.pmap("vh.deploy.work_random", shaped, crash=rep.crash(shaped))):
        if tr is None:
            continue
        traces.append(tr)
        origin.append({"prog": it[0], "seed": it[1]})
    rep.traces += len(traces)
    for v in validate(rep, "Trace_Deployment", traces):
        if v["clause"] == "nested-failure-surfaces" and rep.finding("KF-C09-1"):
            rep.add("nested_failures_lost")
            continue
        rep.violation(v["clause"], {"origin": origin[v["tid"] - 1], "line": v["l"], "events": traces[v["tid"] - 1]["ev"]}, v["prop"])
    rep.sample({"program": origin[len(items) // 2]["prog"]["res"], "events": traces[len(items) // 2]["ev"]})
    rep.sample({"random": origin[-1], "events": traces[-1]["ev"]})
    # 4. the known finding
    if rep.prop == "C08":
        kprog = canonical_input_cycle()
        (tr,) = pool.pmap("vh.deploy.work_random", [(kprog, 1)])
        hang = any(e["ev"] == "end" and e["out"] == "hang" for e in tr["ev"])
        cyc = [t for t in traces if any(e["ev"] == "end" and e["out"] == "hang" for e in t["ev"])]
        rep.notes["input_cycle_hangs"] = len(cyc)
        if hang and not rep.finding("KF-C08-1"):
            rep.violation("hang", {"origin": {"prog": kprog, "seed": 1}, "events": tr["ev"]})
    rep.assumptions = [
        "the engine stand-in answers every request eventually, in any order; it computes URNs as the engine does",
        "in programs with an input cycle (DESIGN.md, KF-C08-1) termination is not claimed"]
