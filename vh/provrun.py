"""Component providers (spec/Provider.tla): sends histories of Construct and Call requests to the real ProviderServicer, whose
provider does what the items say, and records what it was given, what it registered and what it answered."""
import asyncio
import contextvars
import random
import types

import grpc
import pulumi
from pulumi.provider import server as prov_server
from pulumi.provider.provider import CallResult, CheckFailure, ConstructResult, Provider
from pulumi.runtime import config as rt_config
from pulumi.runtime import rpc_manager, proto
from pulumi.runtime import settings as rt_settings

from . import progrun as PR
from . import values as V
from .detloop import DetLoop, Hang, drain
from .fakes import FakeEngine, FakeMonitor, FakeRpcError
from .valrun import all_keys, norm

KEYS = ["prj:a", "prj:b", "other:a"]


class Model(PR.Model):
    def urn(self, parent, typ, name):
        return "urn:pulumi:s::p::%s::%s" % (typ, name)

    hist = None  # what happened to all requests, in order; m: the request the monitor is of

    def arrive(self, kind, req):
        key = super().arrive(kind, req)
        if kind == "register":
            q, r = self.whose(req)
            self.hist.append({"ev": "send", "q": q, "r": r, "m": self.m, "err": False})
            # what names things of other programs is kept as it is
            self.trace[-1].update(rawparent=req.parent, rawdeps=sorted(req.dependencies), rawaliases=list(req.aliases), rawprotect=req.protect,
                                  rawprovider=req.provider)
        return key

    def whose(self, req):
        q = int(req.name[1:].split("-")[0])
        return q + 1, next((i for i, r in enumerate(self.plans[q]["res"], 1) if r["name"] == req.name), 99)

    def answer(self, kind, req, key, outcome):
        if kind != "register":
            return super().answer(kind, req, key, outcome)
        q, r = self.whose(req)
        try:
            a = super().answer(kind, req, key, outcome)
        except FakeRpcError:
            self.hist.append({"ev": "nack", "q": q, "r": r, "m": self.m, "err": False})
            raise
        self.hist.append({"ev": "ack", "q": q, "r": r, "m": self.m, "err": False})
        return a


def work(a):
    return contextvars.Context().run(_run, a[0], a[1])


class Prov(Provider):
    def __init__(self, run):
        super().__init__("1.2.3", run["schema"])
        self.run = run

    def look(self, rec, args):
        rec["began"] = True
        self.run["hist"].append({"ev": "begin", "q": rec["model"].m, "r": 0, "m": 0, "err": False})
        rec["settings"] = {"project": pulumi.get_project() or "", "stack": pulumi.get_stack() or "", "dry": pulumi.runtime.is_dry_run(),
                           "config": [[k, rt_config.get_config(k) or ""] for k in KEYS], "secretkeys": [k for k in KEYS if rt_config.is_config_secret(k)]}
        rec["args"] = args
        rec["running"] = self.run["active"]
        self.run["active"] += 1

    def body(self, rec, parent):
        x, env = rec["x"], rec["env"]
        env.inputs = rec["args"]
        n0 = len(env.res)
        for j in range(n0 + 1, len(x["res"]) + 1):
            if x["raise"] == "mid" and j > n0 + 1:
                raise PR.Boom("body")
            env.leaves = {}
            r = x["res"][j - 1]
            env.res[j] = PR.Cust(r["type"], r["name"], {n: PR.build(e, env) for n, e in r["props"]}, pulumi.ResourceOptions(parent=parent) if parent else None)
        if x["raise"] == "mid":
            raise PR.Boom("body")
        if x["raise"] == "late":
            raise PR.Boom("body")
        env.leaves = {}
        return {k: PR.build(e, env) for k, e in x["state"]}

    def construct(self, name, resource_type, inputs, options=None):
        rec = self.run["byname"][name]
        rec["calledtype"] = resource_type
        self.look(rec, inputs)
        try:
            if rec["x"]["raise"] == "early":
                raise PR.Boom("body")
            comp = PR.Comp(resource_type, name, {}, options)
            rec["env"].res[1] = comp
            state = self.body(rec, comp)
            return ConstructResult(urn=comp.urn, state=state)
        finally:
            self.run["active"] -= 1

    def call(self, token, args):
        rec = self.run["byname"][token.split("/")[1]]
        rec["calledtype"] = token
        self.look(rec, args)
        try:
            if rec["x"]["raise"] == "early":
                raise PR.Boom("body")
            out = self.body(rec, None)
            return CallResult(out, [CheckFailure(p, r) for p, r in rec["x"]["failures"]] or None)
        finally:
            self.run["active"] -= 1


def request(x):
    common = dict(project=x["project"], stack=x["stack"], config=dict(x["config"]), dryRun=bool(x["dry"]), parallel=x["parallel"],
                  monitorEndpoint=x["name"], configSecretKeys=x["secretkeys"])
    if x["kind"] == "construct":
        r = proto.ConstructRequest(type=x["type"], name=x["name"], parent=x["parent"], inputs=V.unwire_props(x["inputs"]), protect=x["protect"],
                                   providers=dict(x["providers"]), aliases=x["aliases"], dependencies=x["dependencies"], **common)
        for k, us in x["deps"]:
            r.inputDependencies[k].urns.extend(us)
    else:
        r = proto.CallRequest(tok="pk:m:C/%s" % x["name"], args=V.unwire_props(x["inputs"]), **common)
        for k, us in x["deps"]:
            r.argDependencies[k].urns.extend(us)
    return r


def _run(item, seed):
    rng = random.Random(seed)
    loop = DetLoop(PR.make_chooser(None, rng))
    loop.set_exception_handler(lambda *a: None)
    asyncio.set_event_loop(loop)
    rpc_manager.RPC_MANAGER.clear()
    rt_settings.reset_options()
    run = {"byname": {}, "active": 0, "schema": item["schema"], "hist": []}
    recs = []
    monitors = {}
    for x in item["reqs"]:
        env = PR.Env(loop)
        trace = []
        model = Model({"res": x["res"], "dry": x["dry"]}, trace, env)
        model.hist, model.plans, model.m = run["hist"], item["reqs"], len(recs) + 1
        rec = {"x": x, "env": env, "trace": trace, "model": model, "began": False, "args": None, "answer": None}
        monitors[x["name"]] = FakeMonitor(loop, model, x["feats"])
        run["byname"][x["name"]] = rec
        recs.append(rec)
    engine = FakeEngine()
    # the gRPC boundary: a channel is its address, a stub the stand-in that is there
    undo = [(m, n, getattr(m, n)) for m, n in ((rt_settings.grpc, "insecure_channel"), (rt_settings.resource_pb2_grpc, "ResourceMonitorStub"),
                                               (rt_settings.engine_pb2_grpc, "EngineStub"))]
    rt_settings.grpc.insecure_channel = lambda addr, *a, **k: addr
    rt_settings.resource_pb2_grpc.ResourceMonitorStub = lambda addr: monitors.get(addr)
    rt_settings.engine_pb2_grpc.EngineStub = lambda addr: engine
    ctx = types.SimpleNamespace()
    extra = {}

    async def one(rec):
        x = rec["x"]
        f = servicer.Construct if x["kind"] == "construct" else servicer.Call
        try:
            a = await f(request(x), ctx)
        except (Exception, asyncio.CancelledError) as ex:  # noqa
            rec["answer"] = {"err": True, "msg": str(ex)}
        else:
            rec["answer"] = {"err": False, "a": a}
        run["hist"].append({"ev": "answer", "q": rec["model"].m, "r": 0, "m": 0, "err": rec["answer"]["err"]})
        rec["pending"] = [e["r"] for e in rec["trace"] if e["ev"] == "send" and not any(f["ev"] in ("ack", "nack") and f["r"] == e["r"] for f in rec["trace"])]
        rec["registered"] = sorted(e["r"] for e in rec["trace"] if e["ev"] == "ack")

    async def main():
        info = await servicer.GetPluginInfo(None, ctx)
        schema = await servicer.GetSchema(proto.GetSchemaRequest(version=0), ctx)
        conf = await servicer.Configure(None, ctx)
        try:
            await servicer.GetSchema(proto.GetSchemaRequest(version=1), ctx)
            refused = False
        except Exception:  # noqa
            refused = True
        extra.update(version=info.version, schema=schema.schema, accepts=bool(conf.acceptSecrets and conf.acceptResources and conf.acceptOutputs),
                     refused=refused)
        tasks = []
        for rec in recs:
            tasks.append(contextvars.Context().run(loop.create_task, one(rec)))
            if not rec["x"]["together"]:
                await asyncio.wait(tasks)
            else:
                for _ in range(rng.choice([0, 1, 3, 30])):
                    await asyncio.sleep(0)
        await asyncio.wait(tasks)

    hang = False
    try:
        async def boot():
            return prov_server.ProviderServicer(Prov(run), [], "engine")
        servicer = loop.run_until_complete(boot())
        loop.run_until_complete(main())
    except Hang:
        hang = True
    out = [finish(rec, loop, hang, extra, item) for rec in recs]
    hist = list(run["hist"])
    drain(loop)
    for m, n, f in undo:
        setattr(m, n, f)
    rpc_manager.RPC_MANAGER.clear()
    plan = [{"n": len(x["res"]), "refused": [i for i, r in enumerate(x["res"], 1) if r.get("fail")], "broken": x.get("broken", []),
             "raises": x["raise"] != "", "mayfail": "broken" not in x} for x in item["reqs"]]
    return {"reqs": out, "hist": {"plan": plan, "ev": hist}}


def fixw(w):
    """URNs of other programs get a name"""
    if w["t"] == "outv":
        return dict(w, deps=["?" + u for u in w["deps"]], v=fixw(w["v"]))
    if "l" in w:
        return dict(w, l=[fixw(y) for y in w["l"]])
    if isinstance(w.get("v"), dict):
        return dict(w, v=fixw(w["v"]))
    return w


def finish(rec, loop, hang, extra, item):
    x, env, model = rec["x"], rec["env"], rec["model"]
    res = x["res"]
    sends = {e["r"]: e for e in rec["trace"] if e["ev"] == "send"}
    seen = []
    if rec["args"] is not None:
        for k in sorted(rec["args"]):
            v = rec["args"][k]
            o = isinstance(v, pulumi.Output)
            seen.append({"k": k, "out": o, "q": norm(PR.project_output(v, loop, env, model)) if o else norm({}),
                         "v": V.NULL if o else V.tag(v, env.name_of), "inner": [] if o else inner(v, loop, env, model)})

    def base(i):
        r = res[i - 1]
        s = sends.get(i)
        return {"r": str(i), "urn": next((u for u, k in model.urns.items() if k == i), ""), "rpc": "register", "id": V.tag(r["engid"]),
                "custom": r["kind"] != "comp", "sent": r["kind"] != "comp", "ins": s["object"] if s else V.mkdict({}), "outs": r["outs"],
                "deps": [], "tr": [], "under": []}

    f = x["feats"]
    internal = sorted({k for y in [r["outs"] for r in res] + [x["inputs"]] for k in all_keys(y) if k.startswith("__") and k != "__provider"})
    # top-level names of a method's arguments are kept whatever they are
    c = {"dry": bool(x["dry"]), "sec": bool(f.get("secrets")), "ref": bool(f.get("resourceReferences")), "outv": bool(f.get("outputValues")),
         "res": [base(i) for i in range(1, len(res) + 1)], "tr": [], "internal": internal}
    a = rec["answer"] or {"err": False, "none": True}
    ans = {"none": bool(a.get("none")), "err": a["err"], "msg": a.get("msg", ""), "urn": "", "state": V.mkdict({}), "deps": [], "failures": []}
    if not a["err"] and not ans["none"]:
        g = a["a"]
        if x["kind"] == "construct":
            ans["urn"] = g.urn
            ans["state"], pd = V.wire_props(g.state), g.stateDependencies
        else:
            ans["state"], pd = V.wire_props(getattr(g, "return")), g.returnDependencies
            ans["failures"] = [[y.property, y.reason] for y in g.failures]
        ans["deps"] = [[k, sorted({str(model.index_of(u)) for u in v.urns})] for k, v in sorted(pd.items())]
    comp = sends.get(1) if x["kind"] == "construct" else None
    kids = [{"r": i, "e": dict(e="dict", k=[n for n, _ in r["props"]], l=[y for _, y in r["props"]]), "w": sends[i]["object"],
             "pdeps": [[k, [str(d) for d in v]] for k, v in sends[i]["pdeps"]],
             "parent": sends[i]["rawparent"], "provider": sends[i]["rawprovider"], "pkg": r["type"].split(":")[0]}
            for i, r in enumerate(res, 1) if r["kind"] != "comp" and i in sends]
    return {"kind": x["kind"], "c": c, "hang": hang, "inputs": fixw(x["inputs"]), "deps": [[k, ["?" + u for u in us]] for k, us in x["deps"]],
            "began": rec["began"], "alone": rec.get("running", 0) == 0, "seen": seen,
            "settings": rec.get("settings", {"project": "", "stack": "", "dry": False, "config": [], "secretkeys": []}),
            "want": {"project": x["project"], "stack": x["stack"], "dry": bool(x["dry"]), "config": [[k, dict(x["config"]).get(k, "")] for k in KEYS],
                     "secretkeys": [k for k in KEYS if k in x["secretkeys"]]},
            "asked": [x["type"] if x["kind"] == "construct" else "pk:m:C/%s" % x["name"], rec.get("calledtype", "")],
            "comp": [{"parent": comp["rawparent"], "deps": comp["rawdeps"], "aliases": comp["rawaliases"], "protect": comp["rawprotect"], "type": comp["type"],
                      "providers": []}] if comp else [],
            "reqopts": {"parent": x["parent"], "deps": sorted(set(x["dependencies"])), "aliases": x["aliases"], "protect": x["protect"],
                        "type": x["type"], "providers": x["providers"]},
            "kids": kids, "kidexprs": [dict(e="dict", k=[n for n, _ in r["props"]], l=[y for _, y in r["props"]]) for r in res if r["kind"] != "comp"], "refused": [i for i, r in enumerate(res, 1) if r.get("fail")], "raise": x["raise"], "state": x["state"],
            "failures": x["failures"], "ans": ans, "pending": rec.get("pending", []), "registered": rec.get("registered", []), "nres": len(res),
            "extra": dict({"version": "", "schema": "", "accepts": False, "refused": False}, **extra), "schema": item["schema"] or "{}"}


def inner(v, loop, env, model):
    """the outputs inside a plain value, in order"""
    if isinstance(v, pulumi.Output):
        return [norm(PR.project_output(v, loop, env, model))]
    if isinstance(v, (list, tuple)):
        return [q for y in v for q in inner(y, loop, env, model)]
    if isinstance(v, dict):
        return [q for k in sorted(v) for q in inner(v[k], loop, env, model)]
    return []
