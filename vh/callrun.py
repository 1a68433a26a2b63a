"""Calls family: invocations and calls (spec/Calls.tla) made with the real SDK next to resources whose registrations are
in flight, at the top level of the program or from inside callbacks (so that several are under way at once)."""
import asyncio
import contextvars
import os
import random

import grpc
import pulumi
from pulumi.runtime import rpc_manager
from pulumi.runtime import settings as rt_settings
from pulumi.runtime.proto import provider_pb2

from . import progrun as PR
from . import values as V
from .detloop import DetLoop, Hang, drain
from .fakes import FakeEngine, FakeMonitor, FakeRpcError
from .valrun import all_keys, idle, norm


class CallModel(PR.Model):
    def arrive(self, kind, req):
        if kind in ("invoke", "call") and req.tok != "pulumi:pulumi:getResource":
            j = next((j for j, x in enumerate(self.prog["calls"]) if x["tok"] == req.tok and x["kind"] == kind), -1)
            ev = {"ev": "req", "c": j, "args": V.wire_props(req.args), "provider": self.ref(req.provider), "version": req.version,
                  "url": req.pluginDownloadURL, "acked": sorted(str(e["r"]) for e in self.trace if e["ev"] == "ack")}
            if kind == "invoke":
                ev["acceptRes"] = req.acceptResources
            else:
                ev["argdeps"] = [[k, sorted(str(self.index_of(u)) for u in v.urns)] for k, v in sorted(req.argDependencies.items())]
            self.trace.append(ev)
            return "c%d" % j
        return super().arrive(kind, req)

    def answer(self, kind, req, key, outcome):
        if key.startswith("c") and not (outcome and outcome[0] == "abandon"):
            j = int(key[1:])
            if j < 0:
                raise FakeRpcError(grpc.StatusCode.UNIMPLEMENTED, "what?")
            a = self.prog["calls"][j]["ans"]
            if a["err"]:
                raise FakeRpcError(grpc.StatusCode.UNKNOWN, a["err"])
            resp = provider_pb2.InvokeResponse() if kind == "invoke" else provider_pb2.CallResponse()
            for p, why in a["failures"]:
                resp.failures.add(property=p, reason=why)
            if not a["failures"]:
                getattr(resp, "return").CopyFrom(V.unwire_props(a["ret"]))
                if kind == "call":
                    for p, us in a["rdeps"]:
                        resp.returnDependencies[p].urns.extend(self.dep_urn(u) for u in us)
            return resp
        return super().answer(kind, req, key, outcome)


def work(a):
    return contextvars.Context().run(_run, a[0], a[1])


def _run(item, seed):
    rng = random.Random(seed)
    loop = DetLoop(PR.make_chooser(None, rng))
    loop.set_exception_handler(lambda *a: None)
    asyncio.set_event_loop(loop)
    env = PR.Env(loop)
    trace = []
    res, calls = item["res"], item["calls"]
    prog = {"res": res, "calls": calls, "dry": item["dry"]}
    model = CallModel(prog, trace, env)
    monitor = FakeMonitor(loop, model, item["feats"])
    rpc_manager.RPC_MANAGER.clear()
    rt_settings.reset_options()
    rt_settings.configure(rt_settings.Settings(project="prj", stack="stk", monitor=monitor, engine=FakeEngine(),
                                               dry_run=bool(item["dry"]), parallel=4))
    env.res[0] = None
    got = [{"made": False, "hang": True, "raised": False, "exc": "", "v": V.NULL} for _ in calls]
    outs, optobjs, merged, kept = {}, {}, [], []

    def facts(o):
        def ix(x):
            return next((i for i, y in env.res.items() if y is x), -1) if x is not None else 0
        return {"par": ix(o.parent), "prov": ix(o.provider), "version": o.version or "", "url": o.plugin_download_url or ""}

    def opts(o):
        if o["k"] == "none":
            return None
        if o["k"] == "same":
            if o["j"] - 1 not in optobjs:
                optobjs[o["j"] - 1] = opts(calls[o["j"] - 1]["o"])
            return optobjs[o["j"] - 1]
        if o["k"] == "opts":
            kw = {}
            if o["par"]:
                kw["parent"] = env.res[o["par"]]
            if o["prov"]:
                kw["provider"] = env.res[o["prov"]]
            if o["version"]:
                kw["version"] = o["version"]
            if o["url"]:
                kw["plugin_download_url"] = o["url"]
            r = pulumi.InvokeOptions(**kw)
        else:
            a, b = opts(o["a"]), opts(o["b"])
            r = a.merge(b) if o["form"] and a is not None and b is not None else pulumi.InvokeOptions.merge(a, b)
            merged.append({"e": o, "got": facts(r)})
        kept.append((r, facts(r)))
        return r

    def make(j):
        x, g = calls[j], got[j]
        g["made"] = True
        args = {k: PR.build(y, env) for k, y in zip(x["args"]["k"], x["args"]["l"])}
        if x["kind"] == "call":
            outs[j] = pulumi.runtime.call(x["tok"], args, env.res[x["self"]] if x["self"] else None)
            return
        if j not in optobjs:
            optobjs[j] = opts(x["o"])
        try:
            r = pulumi.runtime.invoke(x["tok"], args, optobjs[j])
        except Hang:
            raise
        except Exception as ex:  # noqa
            g["hang"], g["raised"], g["exc"] = False, True, str(ex)
            return
        g["hang"] = False
        g["v"] = V.tag(r.value, env.name_of)

    async def setup():
        for i, r in enumerate(res, 1):
            env.res[i] = PR.construct(i, r, env, prog)

    # everything happens inside one run of the loop: an invocation pumps it while it waits
    async def program():
        for j, x in enumerate(calls):
            env.leaves = {}
            if x["at"]:
                env.res[x["at"]].urn.apply(lambda _, j=j: make(j))
            else:
                make(j)
            for _ in range(rng.choice([0, 0, 1, 5, 40])):
                await asyncio.sleep(0)
        await loop.create_future()

    old = os.environ.pop("PULUMI_DISABLE_RESOURCE_REFERENCES", None)
    if item["noref"]:
        os.environ["PULUMI_DISABLE_RESOURCE_REFERENCES"] = "true"
    try:
        try:
            loop.run_until_complete(setup())
            if item["settled"]:
                idle(loop)
            loop.run_until_complete(program())
        except Hang:
            pass
        for j, o in outs.items():
            q = PR.project_output(o, loop, env, model)
            exc = ""
            if q.get("fail"):
                try:
                    loop.run_until_complete(o.future(with_unknowns=True))
                except (Exception, asyncio.CancelledError) as ex:  # noqa
                    exc = str(ex)
            got[j].update(hang=bool(q.get("hang")), raised=bool(q.get("fail")), exc=exc, q=norm(q))
    finally:
        os.environ.pop("PULUMI_DISABLE_RESOURCE_REFERENCES", None)
        if old is not None:
            os.environ["PULUMI_DISABLE_RESOURCE_REFERENCES"] = old
    same = all(facts(o) == f for o, f in kept)
    reqs = [e for e in trace if e["ev"] == "req"]

    def fix(w):
        if w["t"] == "outv":
            return dict(w, deps=sorted(str(model.index_of(u)) for u in w["deps"]), v=fix(w["v"]))
        if "l" in w:
            return dict(w, l=[fix(y) for y in w["l"]])
        if "v" in w:
            return dict(w, v=fix(w["v"]))
        return w

    for e in reqs:
        e["args"] = fix(e["args"])
    for j, g in enumerate(got):
        g["reqs"] = [e for e in reqs if e["c"] == j]
    sends = {e["r"]: e for e in trace if e["ev"] == "send"}

    def under(i):
        out = []
        for k, r in enumerate(res, 1):
            if r["par"] == i:
                out += [str(k)] if r["kind"] != "comp" else under(k)
        return sorted(out)

    def base(i):
        r = res[i - 1]
        s = sends.get(i)
        urn = next((u for u, k in model.urns.items() if k == i), "")
        return {"r": str(i), "urn": urn, "rpc": "register", "id": V.tag(r["engid"]), "custom": r["kind"] not in ("comp", "rcomp"),
                "sent": r["kind"] != "comp", "ins": s["object"] if s and "object" in s else V.mkdict({}), "outs": r["outs"], "deps": [], "tr": [],
                "under": under(i) if r["kind"] == "comp" else []}

    f = item["feats"]
    internal = sorted({k for x in [r["outs"] for r in res] + [x["ans"]["ret"] for x in calls] for k in all_keys(x)
                       if k.startswith("__") and k != "__provider"})
    c = {"dry": bool(item["dry"]), "sec": bool(f.get("secrets")), "ref": bool(f.get("resourceReferences")), "outv": bool(f.get("outputValues")),
         "res": [base(i) for i in range(1, len(res) + 1)], "tr": [], "internal": internal, "noref": bool(item["noref"]),
         "ps": [{"kind": r["kind"], "pkg": r["pkg"], "tpkg": "pulumi" if r["kind"] == "prov" else r["pkg"], "par": r["par"], "prov": r["prov"],
                 "provs": r["provs"], "version": r.get("version", ""), "url": r.get("url", ""), "id": r["engid"], "fail": bool(r.get("fail"))}
                for r in res]}
    cs = [dict(x, ans=dict(x["ans"], rdeps=[[p, ["?" + model.dep_urn(u) for u in us]] for p, us in x["ans"]["rdeps"]])) for x in calls]
    drain(loop)
    rpc_manager.RPC_MANAGER.clear()
    return {"c": c, "calls": cs, "same": same, "merged": merged, "extra": len([e for e in reqs if e["c"] < 0]), "got": got}
