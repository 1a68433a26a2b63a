"""Mocks (spec/Mocks.tla): runs programs the way unit tests of programs do - set_mocks and the `test` decorator, with the SDK's own
MockMonitor - and records what the mock was shown, and what the program got."""
import asyncio
import contextvars
import logging
import random

import pulumi
from pulumi import runtime
from pulumi.runtime import mocks as rt_mocks
from pulumi.runtime import rpc_manager
from pulumi.runtime import settings as rt_settings

from . import progrun as PR
from . import values as V
from .detloop import DetLoop, Gate, Hang, drain
from .valrun import idle, norm


def work(a):
    return contextvars.copy_context().run(_run, a[0], a[1])


class ParkMonitor(rt_mocks.MockMonitor):
    """answers come in any order"""

    loop = None

    def _park(self, key):
        if self.loop is not None:
            self.loop.park(Gate(key))

    def RegisterResource(self, request):
        self._park(request.name)
        r = super().RegisterResource(request)
        self._park(request.name)
        return r

    def ReadResource(self, request):
        self._park(request.name)
        r = super().ReadResource(request)
        self._park(request.name)
        return r


class Model:
    """names of resources"""

    def __init__(self):
        self.urns = {}

    def index_of(self, urn):
        return self.urns.get(urn, "?" + urn)


class Keep(logging.Logger):
    """a logger that only remembers"""

    def __init__(self, to):
        super().__init__("vh.mock", logging.DEBUG)
        self.to = to

    def isEnabledFor(self, level):
        return True

    def handle(self, record):
        if record.getMessage().startswith("vh:"):
            self.to.append([record.levelname, record.getMessage()[3:]])


class Earlier(runtime.Mocks):
    """the mocks of a test that ran before"""

    def __init__(self, how):
        self.how = how

    def new_resource(self, args):
        if self.how["fails"] and args.name == "b0":
            raise PR.Boom("earlier")
        return args.name + "-earlier", {"p": "earlier", **args.inputs}

    def call(self, args):
        return {"x": "earlier"}


def before(how, log):
    runtime.set_mocks(Earlier(how), "before", "earlier", preview=how["dry"], logger=log)

    @runtime.test
    def fn():
        for i in range(how["n"]):
            pulumi.CustomResource("pk:m:A" if i % 2 else "no:m:T", "b%d" % i, {"p": i})
        if how["fails"] and how["n"] == 0:
            raise PR.Boom("earlier")

    try:
        fn()
    except PR.Boom:
        pass


class Mocks(runtime.Mocks):
    def __init__(self, item, env):
        self.item, self.env = item, env
        self.seen, self.called = [], []

    def new_resource(self, args):
        it = self.item
        self.seen.append({"name": args.name, "typ": args.typ, "inputs": V.tag(args.inputs, self.env.name_of), "provider": args.provider or "",
                          "rid": args.resource_id or "", "custom": {None: "none", True: "yes", False: "no"}[args.custom]})
        r = next((x for x in it["res"] if x["name"] == args.name), None)
        if r is None:
            return "?", {}
        if r.get("mockfail"):
            raise PR.Boom("mock refused " + args.name)
        state = dict(args.inputs) if r["echo"] else {}
        e = PR.Env(None)
        state.update({k: PR.build(x, e) for k, x in r["state"]})
        return r["engid"] or None, state

    def call(self, args):
        self.called.append({"token": args.token, "args": V.tag(args.args, self.env.name_of), "provider": args.provider or ""})
        x = next((y for y in self.item["calls"] if y["tok"] == args.token), None)
        if x is None:
            return {}
        if x["raises"]:
            raise PR.Boom("mock refused " + args.token)
        e = PR.Env(None)
        ret = {k: PR.build(y, e) for k, y in x["ret"]}
        if x["form"] == "dict":
            return ret
        return ret, ([tuple(f) for f in x["failures"]] or (None if x["form"] == "none" else []))


def _run(item, seed):
    rng = random.Random(seed)
    loop = DetLoop(PR.make_chooser(None, rng))
    loop.set_exception_handler(lambda *a: None)
    asyncio.set_event_loop(loop)
    rpc_manager.RPC_MANAGER.clear()
    rt_settings.ROOT.set(None)
    env = PR.Env(loop)
    mocks = Mocks(item, env)
    monitor = None
    if item["park"]:
        monitor = ParkMonitor(mocks)
        monitor.loop = loop
    said = []
    log = Keep(said)
    if item["before"]:
        before(item["before"], log)
    runtime.set_mocks(mocks, *item["names"], **({"preview": item["dry"]} if item["dry"] is not None else {}), logger=log, monitor=monitor)
    out = {"end": "ok", "msg": "", "told": []}
    prog = {"res": item["res"]}
    n1 = len(item["res"])
    results = []

    def second(_):
        for j, g in enumerate(item["gets"]):
            u = urns[g["of"]] if g["of"] else "urn:pulumi:stack::project::no:m:T::body"
            r = {"kind": "get", "type": item["res"][g["of"] - 1]["type"] if g["of"] else "no:m:T", "name": "g%d" % j, "urn": u, "par": 0, "deps": [],
                 "props": [[p, {"e": "null"}] for p in g["props"]]}
            env.res[n1 + 1 + j] = PR.construct(n1 + 1 + j, r, env, prog)
        for x in item["calls"]:
            env.leaves = {}
            try:
                v = runtime.invoke(x["tok"], {k: PR.build(e, env) for k, e in x["args"]}).value
                results.append({"fail": False, "msg": "", "v": V.tag(v, env.name_of)})
            except Exception as ex:  # noqa
                results.append({"fail": True, "msg": str(ex), "v": V.NULL})
        return "done"

    urns = {}

    @runtime.test
    def fn():
        out["told"] = [pulumi.get_project(), pulumi.get_stack(), pulumi.runtime.is_dry_run()]
        env.res[0] = rt_settings.get_root_resource()
        for sev, msg in item["logs"]:
            getattr(pulumi.log, sev)("vh:" + msg)
        for i, r in enumerate(item["res"], 1):
            env.leaves = {}
            env.res[i] = PR.construct(i, r, env, prog)

        def keep(us):
            for i, u in enumerate(us, 1):
                urns[i] = u
            return us
        return pulumi.Output.all(*[env.res[i].urn for i in range(1, n1 + 1)]).apply(keep).apply(second)

    try:
        fn()
    except Hang:
        out["end"] = "hang"
    except Exception as ex:  # noqa
        out["end"], out["msg"] = "error", str(ex)
    ndone = len(results)
    model = Model()
    if out["end"] == "ok":
        for i in range(1, n1 + 1):
            model.urns[urns.get(i, "")] = i
    props = []
    if out["end"] == "ok":
        for i in range(1, n1 + len(item["gets"]) + 1):
            x = env.res[i]
            names = [n for n, _ in item["res"][i - 1]["props"]] if i <= n1 else item["gets"][i - n1 - 1]["props"]
            ps = [[n, norm(PR.project_output(x.__dict__[n], loop, env, model))] for n in names if isinstance(x.__dict__.get(n), pulumi.Output)]
            props.append({"urn": norm(PR.project_output(x.urn, loop, env, model)), "props": ps,
                          "id": [norm(PR.project_output(x.id, loop, env, model))] if isinstance(x, pulumi.CustomResource) else []})
    drain(loop)
    rpc_manager.RPC_MANAGER.clear()
    rt_settings.ROOT.set(None)
    names = dict(zip(("project", "stack"), item["names"]))
    return {"dry": bool(item["dry"]), "project": names.get("project") or "project", "stack": names.get("stack") or "stack", "told": out["told"] or ["", "", False],
            "end": out["end"], "msg": out["msg"], "seen": mocks.seen, "called": mocks.called, "logs": item["logs"], "said": said, "results": results, "props": props,
            "urns": [urns[i] for i in range(1, n1 + 1)] if urns else [],
            "res": [{"kind": r["kind"], "name": r["name"], "type": r["type"], "par": r["par"], "prov": r["prov"], "engid": r["engid"], "rid": r.get("id", {}).get("s", ""),
                     "ins": dict(e="dict", k=[n for n, _ in r["props"]], l=[e for _, e in r["props"]]), "echo": r["echo"], "mockfail": bool(r.get("mockfail")),
                     "state": dict(e="dict", k=[n for n, _ in r["state"]], l=[e for _, e in r["state"]])} for r in item["res"]],
            "gets": item["gets"], "ndone": ndone,
            "calls": [{"tok": x["tok"], "args": dict(e="dict", k=[n for n, _ in x["args"]], l=[e for _, e in x["args"]]), "raises": x["raises"],
                       "ret": dict(e="dict", k=[n for n, _ in x["ret"]], l=[e for _, e in x["ret"]]), "failures": x["failures"] if x["form"] == "tuple" else []}
                      for x in item["calls"]]}
