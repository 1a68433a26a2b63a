"""Values family: builds expressions over outputs with the real SDK, under the deterministic loop, and observes what
they resolve to, what their callbacks saw, and what is sent when they are given as inputs. No stack: only values."""
import asyncio
import contextvars
import random

import pulumi
from pulumi.runtime import rpc_manager
from pulumi.runtime import settings as rt_settings

from . import progrun as PR
from . import values as V
from .detloop import DetLoop, Hang, drain
from .fakes import FakeEngine, FakeMonitor

KEYS = ["ab_cd", "x_y"]  # keys with underscores are the ones a translating resource renames
TR = [[k, PR.camel(k)] for k in KEYS]


def run(item, seed):
    return contextvars.Context().run(_run, item, seed)


def idle(loop):
    """Lets everything that can still happen happen, in random order."""
    try:
        loop.run_until_complete(loop.create_future())
    except Hang:
        pass


def _run(item, seed):
    """item: {dry, feats, res: [resource records], exprs: [{e, modes: [..]}]} -> list of Trace_Values items"""
    rng = random.Random(seed)
    loop = DetLoop(PR.make_chooser(None, rng))
    loop.set_exception_handler(lambda *a: None)
    asyncio.set_event_loop(loop)
    env = PR.Env(loop)
    trace = []
    res = list(item["res"])
    nbase = len(res)
    xs = {}
    for j, x in enumerate(item["exprs"]):
        for kind in x["as"]:
            if kind == "den":
                continue
            r = {"kind": kind[0:4] if kind == "custtr" else kind, "type": "pk:m:X", "pkg": "pk", "name": "x%d_%s" % (j, kind), "par": 0, "deps": [],
                 "prov": 0, "provs": [], "props": [["x", x["e"]]], "outs": {"t": "dict", "k": [], "l": []}, "engid": "i",
                 "tr": kind == "custtr", "id": {"e": "str", "s": "i"}}
            res.append(r)
            xs[(j, kind)] = len(res)
    prog = {"res": res, "dry": item["dry"]}
    model = PR.Model(prog, trace, env)
    monitor = FakeMonitor(loop, model, item["feats"])
    rpc_manager.RPC_MANAGER.clear()
    rt_settings.reset_options()
    rt_settings.configure(rt_settings.Settings(project="prj", stack="stk", monitor=monitor, engine=FakeEngine(),
                                               dry_run=bool(item["dry"]), parallel=4))
    env.res[0] = None
    calls = {}
    built = {}
    late = []  # things built only once the base resources are there / in the middle of everything

    async def setup():
        for i, r in enumerate(res[:nbase], 1):
            env.res[i] = PR.construct(i, r, env, prog)

    async def one(j, x):
        env.leaves = {}
        if "den" in x["as"]:
            built[j] = PR.build(x["e"], env)
        for kind in x["as"]:
            if kind != "den":
                env.leaves = {}
                i = xs[(j, kind)]
                env.res[i] = PR.construct(i, res[i - 1], env, prog)

    out = []
    try:
        loop.run_until_complete(setup())
        if item.get("settled"):
            idle(loop)
        for j, x in enumerate(item["exprs"]):
            loop.run_until_complete(one(j, x))
            if rng.random() < 0.3:
                idle(loop)
        idle(loop)
    except Hang:
        pass
    quiet = list(env.calls)
    got = {j: PR.project_output(o, loop, env, model) for j, o in built.items()}
    idle(loop)
    sends = {e["r"]: e for e in trace if e["ev"] == "send"}

    def names(xs):
        return sorted(str(x) for x in xs)

    def fix(w):
        if w["t"] == "outv":
            w = dict(w, deps=names(model.index_of(u) for u in w["deps"]), v=fix(w["v"]))
        elif "l" in w:
            w = dict(w, l=[fix(y) for y in w["l"]])
        elif "v" in w:
            w = dict(w, v=fix(w["v"]))
        return w

    def base(i):
        r = res[i - 1]
        s = sends.get(i)
        urn = next((u for u, k in model.urns.items() if k == i), "")
        if s is not None and s["rpc"] == "get":
            s["id"] = r.get("engid", "")
        return {"r": str(i), "urn": urn, "rpc": s["rpc"] if s else "register",
                "id": V.tag(s["id"] if s and s["rpc"] == "read" else r["engid"]), "custom": r["kind"] != "comp" and r["kind"] != "rcomp",
                "sent": r["kind"] != "comp", "ins": s["object"] if s and "object" in s else V.mkdict({}), "outs": r["outs"],
                "deps": [[k, ["?" + model.dep_urn(u) for u in us]] for k, us in r.get("rpcdeps", [])],
                "tr": TR if r.get("tr") else []}

    bases = [base(i) for i in range(1, nbase + 1)]
    internal = sorted({k for r in res[:nbase] for k in all_keys(r["outs"]) if k.startswith("__") and k != "__provider"})
    f = item["feats"]
    c = {"dry": bool(item["dry"]), "sec": bool(f.get("secrets")), "ref": bool(f.get("resourceReferences")),
         "outv": bool(f.get("outputValues")), "res": bases, "tr": [], "internal": internal}
    dens = {}
    for j, x in enumerate(item["exprs"]):
        if "den" in x["as"]:
            ids = fids(x["e"])
            out.append({"mode": "den", "c": c, "e": x["e"], "got": norm(got[j]), "calls": [y for y in quiet if y["f"] in ids] if x["as"] == ["den"] else []})
            if x["as"] != ["den"]:
                # the callbacks were also run for the resources: every copy must have been run the same number of times
                n = len(x["as"])
                mine = [y for y in env.calls if y["f"] in ids]
                out[-1]["calls"] = collapse(mine, n)
        for kind in x["as"]:
            if kind == "den":
                continue
            i = xs[(j, kind)]
            s = sends.get(i)
            g = {"sent": s is not None, "x": {"t": "none"}, "deps": []}
            if s is not None:
                if "x" in s["object"]["k"]:
                    g["x"] = fix(s["object"]["l"][s["object"]["k"].index("x")])
                pd = dict((k, v) for k, v in s.get("pdeps", []))
                g["deps"] = names(pd.get("x", [])) if kind != "read" else []
            it = {"mode": "ser", "c": dict(c, tr=TR if kind == "custtr" else []), "e": x["e"], "keep": kind == "rcomp", "got": g, "kind": kind}
            out.append(it)
    for i in range(1, nbase + 1):
        x = env.res[i]
        names_ = [n for n, _ in res[i - 1].get("props", [])]
        if res[i - 1].get("malformed"):
            for n in names_ + ["id", "urn"]:
                o = x.__dict__.get(n) if n not in ("id", "urn") else getattr(x, n, None)
                if isinstance(o, pulumi.Output):
                    out.append({"mode": "settle", "hang": bool(PR.project_output(o, loop, env, model).get("hang")), "x": bases[i - 1], "p": n})
            continue
        for n in names_:
            o = x.__dict__.get(n)
            if isinstance(o, pulumi.Output):
                out.append({"mode": "prop", "c": c, "x": bases[i - 1], "p": n, "got": norm(PR.project_output(o, loop, env, model))})
        if isinstance(x, pulumi.CustomResource):
            out.append({"mode": "id", "x": bases[i - 1], "got": norm(PR.project_output(x.id, loop, env, model)),
                        "goturn": norm(PR.project_output(x.urn, loop, env, model))})
    drain(loop)
    rpc_manager.RPC_MANAGER.clear()
    return out


def collapse(calls, n):
    """calls of n equal copies of an expression: one record per callback if each ran n times with the same argument."""
    out, groups = [], {}
    for y in calls:
        groups.setdefault(y["f"], []).append(y)
    for f, ys in groups.items():
        if len(ys) == n and all(y["arg"] == ys[0]["arg"] for y in ys):
            out.append(ys[0])
        else:
            out += ys
    return out


def norm(g):
    return {"hang": bool(g.get("hang")), "fail": bool(g.get("fail")), "v": g.get("v", V.NULL), "known": bool(g.get("known")),
            "secret": bool(g.get("secret")), "deps": g.get("deps", [])}


def all_keys(t):
    ks = list(t.get("k", [])) if t["t"] == "dict" else []
    for y in t.get("l", []):
        ks += all_keys(y)
    for f in ("v", "id", "urn"):
        if isinstance(t.get(f), dict):
            ks += all_keys(t[f])
    return ks


def fids(e):
    s = set()
    if e["e"] == "apply":
        s.add(e["id"])
    for f in ("v", "w"):
        if isinstance(e.get(f), dict):
            s |= fids(e[f])
    for y in e.get("l", []):
        s |= fids(y)
    return s


def work(item):
    return run(item[0], item[1])
