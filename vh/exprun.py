"""Exports family (spec/Exports.tla): whole programs, run in a stack, that export things, read other stacks, log messages and
depend on what the engine can do."""
import asyncio
import json
import contextvars
import random
import types

import grpc
import pulumi
from pulumi.runtime import rpc_manager
from pulumi.runtime import settings as rt_settings
from pulumi.runtime import stack as rt_stack

from . import progrun as PR
from . import values as V
from .detloop import DetLoop, Gate, Hang, drain
from .fakes import FakeEngine, FakeMonitor, FakeRpcError
from .valrun import TR, all_keys, norm

SREF_TR = [["secret_output_names", "secretOutputNames"]]


class Monitor(FakeMonitor):
    """Features: True, False, "unimplemented" or "error"; questions are answered when the scheduler says so."""

    def __init__(self, *a):
        super().__init__(*a)
        self.asked, self.answered, self.reasked = set(), {}, 0

    def SupportsFeature(self, req, *a, **k):
        self.asked.add(req.id)
        # the answer is there once the loop has gone idle again after giving it
        if req.id in self.answered and self.loop.steps > self.answered[req.id]:
            self.reasked += 1
        self.loop.park(Gate("f:" + req.id, req, "feature"))
        self.answered.setdefault(req.id, self.loop.steps)
        v = self.features.get(req.id, False)
        if v == "unimplemented":
            raise FakeRpcError(grpc.StatusCode.UNIMPLEMENTED, "no SupportsFeature")
        if v == "error":
            raise FakeRpcError(grpc.StatusCode.INTERNAL, "feature question failed")
        return types.SimpleNamespace(hasSupport=bool(v))


class Model(PR.Model):
    def arrive(self, kind, req):
        key = super().arrive(kind, req)
        return key

    def answer(self, kind, req, key, outcome):
        return super().answer(kind, req, key, outcome)


def work(a):
    return contextvars.Context().run(_run, a[0], a[1])


def make_shared(xs, env):
    env.shared = []
    for x in xs:
        env.shared.append({"list": list, "dict": dict, "obj": types.SimpleNamespace}[x["e"]]())

    def fill():
        for x, o in zip(xs, env.shared):
            if x["e"] == "list":
                o.extend(PR.build(y, env) for y in x["l"])
            elif x["e"] == "dict":
                o.update({k: PR.build(y, env) for k, y in zip(x["k"], x["l"])})
            else:
                o.a = PR.build(x["v"], env)
    return fill


LOGS = {"debug": 0, "info": 1, "warn": 2, "error": 3}


def _run(item, seed):
    rng = random.Random(seed)
    loop = DetLoop(PR.make_chooser(None, rng))
    loop.set_exception_handler(lambda *a: None)
    asyncio.set_event_loop(loop)
    env = PR.Env(loop)
    trace = []
    res = item["res"]
    prog = {"res": res, "dry": item["dry"]}
    model = Model(prog, trace, env)
    engine = FakeEngine()
    monitor = Monitor(loop, model, item["feats"])
    rpc_manager.RPC_MANAGER.clear()
    rt_settings.reset_options()
    rt_settings.configure(rt_settings.Settings(project="prj", stack="stk", monitor=monitor, engine=engine, dry_run=bool(item["dry"]), parallel=4))
    gets = []

    def log(l):
        kw = {}
        if l["res"]:
            kw["resource"] = env.res[l["res"]]
        if l["stream"] is not None:
            kw["stream_id"] = l["stream"]
        if l["eph"] is not None:
            kw["ephemeral"] = l["eph"]
        n = len(engine.logs)
        getattr(pulumi.log, l["fn"])(l["msg"], **kw)
        l["now"] = len(engine.logs) == n + 1

    def program():
        env.res[0] = rt_settings.get_root_resource()
        fill = make_shared(item["shared"], env)
        for i, r in enumerate(res, 1):
            for l in item["logs"]:
                if l["at"] == i:
                    log(l)
            if r["kind"] == "sref":
                opts = pulumi.ResourceOptions(parent=env.res[r["par"]]) if r["par"] else None
                env.res[i] = pulumi.StackReference(r["name"], r["target"], opts) if r["target"] else pulumi.StackReference(r["name"], opts=opts)
            else:
                env.res[i] = PR.construct(i, r, env, prog)
        for i, r in enumerate(res, 1):
            for n, x in r.get("attrs", []):
                setattr(env.res[i], n, PR.build(x, env))
        fill()
        for l in item["logs"]:
            if l["at"] == 0:
                log(l)
        for i, xs in item["regouts"]:
            env.leaves = {}
            env.res[i].register_outputs({n: PR.build(x, env) for n, x in xs})
        for g in item["gets"]:
            env.leaves = {}
            x = env.res[g["r"]]
            if g["what"] == "get":
                o = (x.require_output if g["required"] else x.get_output)(PR.build(g["name"], env))
            else:
                o = getattr(x, g["what"])
            gets.append(o)
        for n, x in item["exports"]:
            env.leaves = {}
            pulumi.export(n, PR.build(x, env))
        if item["raise"]:
            raise PR.Boom("program")

    end = {}
    try:
        loop.run_until_complete(rt_stack.run_in_stack(program))
        end = {"out": "ok", "msg": ""}
    except Hang:
        end = {"out": "hang", "msg": ""}
    except Exception as ex:  # noqa
        end = {"out": "error", "msg": str(ex)}
    logs = [l for l in engine.logs if l["msg"].startswith("L:")]
    outputs = [e for e in trace if e["ev"] == "outputs"]
    sends = {e["r"]: e for e in trace if e["ev"] == "send"}
    ran = end["out"] == "ok" or item["raise"] and end["msg"] == "program"

    def settled(o):  # a failed run cancels what is under way
        fs = [o._future, o._is_known, o._is_secret, o._resources]
        return ran or all(f.done() and not f.cancelled() and not isinstance(f.exception(), asyncio.CancelledError) for f in fs)
    gets = [(g, o) for g, o in zip(item["gets"], gets) if settled(o)]
    got = [norm(PR.project_output(o, loop, env, model)) for _, o in gets]

    def base(i):
        r = res[i - 1]
        s = sends.get(i)
        urn = next((u for u, k in model.urns.items() if k == i), "")
        rid = s["id"] if s and s["rpc"] == "read" else r.get("engid", "")
        return {"r": str(i), "urn": urn, "rpc": s["rpc"] if s else "register", "id": V.tag(rid),
                "custom": r["kind"] not in ("comp", "rcomp"), "sent": r["kind"] != "comp", "ins": s["object"] if s and "object" in s else V.mkdict({}),
                "outs": r["outs"], "deps": [], "tr": TR if r.get("tr") else SREF_TR if r["kind"] == "sref" else [], "under": []}

    def members(i):
        r = res[i - 1]
        ns = ["urn"] + ([] if r["kind"] in ("comp", "rcomp") else ["id"]) + ([] if r["kind"] == "comp" else [n for n, _ in r.get("props", [])])
        m = [[n, {"e": "out", "r": i, "p": n}] for n in ns]
        if r["kind"] in ("comp", "rcomp"):
            m.append(["id", {"e": "null"}])
        if r["kind"] == "prov":
            m.append(["package", {"e": "str", "s": r["pkg"]}])
        return [x for x in m if x[0] not in [a for a, _ in r.get("attrs", [])]] + r.get("attrs", [])

    f = item["feats"]
    internal = sorted({k for x in [r["outs"] for r in res] for k in all_keys(x) if k.startswith("__") and k != "__provider"})
    c = {"dry": bool(item["dry"]), "sec": f.get("secrets") is True, "ref": f.get("resourceReferences") is True, "outv": f.get("outputValues") is True,
         "res": [base(i) for i in range(1, len(res) + 1)], "tr": [], "internal": internal, "shared": item["shared"],
         "members": [members(i) for i in range(1, len(res) + 1)]}
    failed = {i for i, r in enumerate(res, 1) if r.get("fail")}
    out = {"c": c, "end": end, "raised": bool(item["raise"]), "outputs": outputs, "exports": item["exports"], "regouts": item["regouts"],
           "regs": [{"e": r["props"][0][1], "keep": r["kind"] == "rcomp", "w": sends[i]["object"]} for i, r in enumerate(res, 1)
                    if r["name"].startswith("u") and i in sends],
           "gets": [dict(g, got=q) for (g, _), q in zip(gets, got)],
           "srefs": [{"id": sends[i].get("id", ""), "want": r["target"] or r["name"]} for i, r in enumerate(res, 1) if r["kind"] == "sref" and i in sends],
           "asked": sorted(monitor.asked), "reasked": monitor.reasked, "featfails": any(f.get(k) == "error" for k in monitor.asked),
           "logs": logs, "logged": [{"msg": l["msg"], "sev": LOGS[l["fn"]], "res": l["res"], "stream": l["stream"] or 0, "eph": bool(l["eph"]), "now": bool(l.get("now"))}
                                    for l in item["logs"] if l["at"] <= len(res)], "failed": sorted(failed),
           "allsent": all(i in sends for i, r in enumerate(res, 1) if r["name"].startswith("u")) and len(gets) == len(item["gets"]),
           "canfail": any(x in json.dumps([item[k] for k in ("res", "exports", "regouts", "shared")]) for x in ('"fail"', "raise"))}
    drain(loop)
    rpc_manager.RPC_MANAGER.clear()
    return out
