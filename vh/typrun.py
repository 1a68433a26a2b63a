"""Typed data (spec/Types.tla): declares classes as SDKs do, registers resources and calls functions with them, and records what was
sent, what was read from outputs, and what Output.from_input made of inputs."""
import asyncio
import contextvars
import enum
import itertools
import os
import random
import sys
import types
import typing

import pulumi
from pulumi import _types
from pulumi.runtime import rpc_manager
from pulumi.runtime import settings as rt_settings
from pulumi.runtime.proto import provider_pb2, resource_pb2

from . import progrun as PR
from . import values as V
from .detloop import DetLoop, Hang, drain
from .fakes import FakeEngine, FakeMonitor
from .typgen import text
from .valrun import idle

FRESH = itertools.count()


def work(a):
    return contextvars.Context().run(_run, a[0], a[1])


def nums(w):
    """wire values: numbers as text"""
    if w["t"] in ("num", "flt"):
        return {"t": "num", "s": text(w["n"] if w["t"] == "num" else w["s"])}
    w = dict(w)
    if isinstance(w.get("v"), dict):
        w["v"] = nums(w["v"])
    if "l" in w:
        w["l"] = [nums(x) for x in w["l"]]
    return w


def unnums(w):
    if w["t"] == "num":
        return V.num(float(w["s"]))
    w = dict(w)
    if isinstance(w.get("v"), dict):
        w["v"] = unnums(w["v"])
    if "l" in w:
        w["l"] = [unnums(x) for x in w["l"]]
    return w


class Model:
    """the engine"""

    def __init__(self, item):
        self.item, self.sent = item, {}

    def feature(self, _):
        pass

    def arrive(self, kind, req):
        return None

    def answer(self, kind, req, key, outcome):
        if kind == "register":
            self.sent[req.name] = nums(V.wire_props(req.object))
            st = self.item["ops"][int(req.name[1:])]["state"]
            return resource_pb2.RegisterResourceResponse(urn="urn:pulumi:s::p::pk:m:R::" + req.name, id="i", object=V.unwire_props(unnums(st)))
        resp = provider_pb2.InvokeResponse() if kind == "invoke" else provider_pb2.CallResponse()
        self.sent[req.tok] = nums(V.wire_props(req.args))
        getattr(resp, "return").CopyFrom(V.unwire_props(unnums(self.item["ops"][int(req.tok.split("o")[-1])]["ret"])))
        return resp


class Bad(Exception):
    pass


def _run(item, seed):
    rng = random.Random(seed)
    loop = DetLoop(PR.make_chooser(None, rng))
    loop.set_exception_handler(lambda *a: None)
    asyncio.set_event_loop(loop)
    model = Model(item)
    monitor = FakeMonitor(loop, model, {"secrets": True, "resourceReferences": True})
    rpc_manager.RPC_MANAGER.clear()
    rt_settings.reset_options()
    rt_settings.configure(rt_settings.Settings(project="p", stack="s", monitor=monitor, engine=FakeEngine(), dry_run=item["dry"], parallel=4))
    for clear in typing._cleanups:  # CPython's cache of subscripted types now and then answers with another entry when names recur
        clear()
    name = "vhtypes_%d_%d" % (os.getpid(), next(FRESH))
    mod = types.ModuleType(name)
    sys.modules[name] = mod
    cls = {c["name"]: c for c in item["cls"]}
    ev = []
    drop = []
    try:
        exec(compile(item["src"], name + ".py", "exec"), mod.__dict__)
        _ops(item, rng, loop, model, mod, cls, ev, drop)
    finally:
        del sys.modules[name]
        drain(loop)
        rpc_manager.RPC_MANAGER.clear()
    pick = lambda f: {"py": f["py"], "wire": f["wire"], "ty": f["ty"], "dk": f["dk"]}
    return {"cls": [{"name": c["name"], "fields": [pick(f) for f in c["fields"]]} for c in item["cls"]],
            "enums": [{"name": e["name"], "vals": e["vals"]} for e in item["enums"]], "ev": ev}


def _ops(item, rng, loop, model, mod, cls, ev, drop):
    dry = item["dry"]

    def build(v):
        """an input"""
        k = v["t"]
        if k == "null":
            return None
        if k == "str":
            return v["s"]
        if k == "bool":
            return v["b"]
        if k == "int":
            return int(v["s"])
        if k == "flt":
            return float(v["s"])
        if k == "num":
            return float(v["s"])
        if k == "enum":
            e = getattr(mod, v["en"])
            return e(v["v"]["s"] if v["v"]["t"] == "str" else float(v["v"]["s"]))
        if k == "list":
            return [build(x) for x in v["l"]]
        if k == "dict":
            return {n: build(x) for n, x in zip(v["k"], v["l"])}
        if k == "aw":
            x = build(v["v"])

            async def later():
                await asyncio.sleep(0)
                return x
            f = later()
            drop.append(f)
            return f
        if k == "out":
            x = build(v["v"])
            f = [loop.create_future() for _ in range(3)]

            def go():
                f[0].set_result(x)
                f[1].set_result(v["known"])
                f[2].set_result(v["secret"])
            if rng.random() < .5:
                go()
            else:
                loop.call_soon(go)
            return pulumi.Output(set(), f[0], f[1], f[2])
        return obj(v)

    def obj(v):
        c = cls[v["cl"]]
        k = getattr(mod, v["cl"] + "Args")
        fs = [(f, build(x)) for f, x in zip(c["fields"], v["l"])]
        now, later = {}, []
        for f, x in fs:
            if f["opt"] and rng.random() < .4:
                later.append((f["py"], x))  # set afterwards
                if rng.random() < .3:
                    now[f["py"]] = "overwritten"
            elif x is not None or not f["opt"] or rng.random() < .5:
                now[f["py"]] = x
        o = k(**now)
        for p, x in later:
            if x is not None or p in now:
                setattr(o, p, x)
        ev.append(dict(base, ev="reads", ok=[getattr(o, f["py"]) is x for f, x in fs]))
        return o

    def tag(x):
        t = type(x)
        if x is None:
            return {"t": "null"}
        if pulumi.runtime.rpc.known_types.is_unknown(x):
            return {"t": "unk"}
        if isinstance(x, enum.Enum):
            return {"t": "enum", "en": t.__name__, "v": {"t": "str", "s": x.value} if isinstance(x.value, str) else {"t": "num", "s": text(x.value)}}
        if isinstance(x, bool):
            return {"t": "bool", "b": x}
        if t is int:
            return {"t": "int", "s": text(x)}
        if t is float:
            return {"t": "flt", "s": text(x)}
        if t is str:
            return {"t": "str", "s": x}
        if t is list:
            return {"t": "list", "l": [tag(y) for y in x]}
        if t is dict:
            return {"t": "dict", "k": list(x), "l": [tag(y) for y in x.values()]}
        if _types.is_output_type(t) or _types.is_input_type(t):
            n = t.__name__[:-4] if _types.is_input_type(t) else t.__name__
            v = {"t": "obj", "cl": n, "l": [tag(getattr(x, f["py"])) for f in cls[n]["fields"]]}
            if _types.is_output_type(t) and issubclass(t, dict):
                m = {k: dict.__getitem__(x, k) for k in dict.keys(x)}
                ev.append(dict(base, ev="map", m={"t": "dict", "k": list(m), "l": [tag(y) for y in m.values()]}, v=v))
            return v
        return {"t": "bad", "s": t.__name__}

    def quad(o):
        async def get():
            v = await o.future(with_unknowns=True)
            return {"v": tag(v), "known": await o.is_known(), "secret": await o.is_secret()}
        try:
            return loop.run_until_complete(get())
        except Hang:
            return {"v": {"t": "hang"}, "known": True, "secret": False}
        except (Exception, asyncio.CancelledError) as ex:  # noqa
            return {"v": {"t": "fail", "s": repr(ex)[:200]}, "known": True, "secret": False}

    base = {"keys": item["keys"], "inkeys": item["inkeys"], "dry": dry}
    for j, o in enumerate(item["ops"]):
        base["keys"], base["inkeys"] = (item["keys"], item["inkeys"]) if o["op"] == "reg" else ([], [])
        if o["op"] == "reg":
            made = {}

            async def go():
                made["r"] = mod.R("o%d" % j, build(o["args"]))
            try:
                loop.run_until_complete(go())
                idle(loop)
            except Hang:
                pass
            r = made["r"]
            top = cls["R"]
            outs, fail, missing = [], False, []
            ks = {f["py"]: i for i, f in enumerate(top["fields"], 1)}
            have = [f["py"] for f in top["fields"]] if item["mode"] == "meta" and item["copy"] and not top["dict_in"] else o["args"].get("k", []) if item["mode"] == "over" else \
                [f["py"] for f, x in zip(top["fields"], o["args"]["l"]) if x["t"] != "null"]
            for p in have:
                x = getattr(r, p, None)
                if not isinstance(x, pulumi.Output):
                    missing.append(p)
                    continue
                q = quad(x)
                fail = fail or q["v"]["t"] in ("fail", "hang")
                lifts = []
                T = top["fields"][ks[p] - 1]["ty"]
                if o["lift"] and q["v"]["t"] == "obj":
                    c = cls[T["cl"]]
                    for i, f in enumerate(c["fields"], 1):
                        if not hasattr(pulumi.Output, f["py"]) and not f["py"].startswith("_"):
                            lifts.append({"f": i, "q": quad(getattr(x, f["py"]))})
                outs.append({"f": ks[p], "q": q, "lifts": lifts})
            sent = model.sent.get("o%d" % j, {"t": "none"})
            ev.append(dict(base, ev="reg", args=o["args"], sent=sent, state=o["state"], fail=fail, outs=outs, missing=missing,
                           fields=[{"wire": f["wire"], "ty": f["ty"]} for f in top["fields"]]))
            if not have:
                ev.pop()
        elif o["op"] == "invoke":
            tok = "pk:m:o%d" % j
            got = {}

            async def go():
                args = build(o["args"])
                t = getattr(mod, o["cl"])
                if o["iscall"]:
                    got["q"] = pulumi.runtime.call(tok, args, typ=t)
                    return
                try:
                    got["v"] = pulumi.runtime.invoke(tok, args, typ=t).value
                except Hang:
                    raise
                except Exception as ex:  # noqa
                    got["ex"] = repr(ex)
            try:
                loop.run_until_complete(go())
                idle(loop)
            except Hang:
                pass
            if o["iscall"]:
                q = quad(got["q"])
            else:
                q = {"v": {"t": "fail", "s": got["ex"][:200]} if "ex" in got else tag(got["v"]) if "v" in got else {"t": "hang"}, "known": True, "secret": False}
            ev.append(dict(base, ev="invoke", cl=o["cl"], iscall=o["iscall"], args=o["args"], sent=model.sent.get(tok, {"t": "none"}), ret=o["ret"],
                           fail=q["v"]["t"] in ("fail", "hang"), q=q))
        else:
            made = {}

            async def go():
                made["o"] = pulumi.Output.from_input(build(o["x"]))
            try:
                loop.run_until_complete(go())
                idle(loop)
                q = quad(made["o"])
            except Exception as ex:  # noqa
                q = {"v": {"t": "fail", "s": repr(ex)[:200]}, "known": True, "secret": False}
            ev.append(dict(base, ev="from", x=o["x"], q=q, fail=q["v"]["t"] in ("fail", "hang")))
