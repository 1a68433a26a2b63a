"""Runs a small Pulumi program against an in-process stand-in for the engine (used by the demonstrations)."""
import asyncio
import logging
import sys
import threading
import types

sys.dont_write_bytecode = True
sys.path.insert(0, "/repo/sdk/python/lib")
logging.disable(logging.CRITICAL)
import grpc  # noqa: E402
import pulumi  # noqa: E402
from google.protobuf import empty_pb2  # noqa: E402
from pulumi.runtime import rpc_manager, settings  # noqa: E402
from pulumi.runtime.proto import engine_pb2, provider_pb2, resource_pb2  # noqa: E402
from pulumi.runtime.stack import run_in_stack  # noqa: E402


class RpcError(grpc.RpcError):
    def __init__(self, details):
        super().__init__()
        self._d = details

    def code(self):
        return grpc.StatusCode.UNKNOWN

    def details(self):
        return self._d


class Monitor:
    """fail: names that are refused; after: {name: other}: the answer for name waits until other was answered."""

    def __init__(self, fail=(), after=None, outs=None, invoke=None, features=None, deps=None, ids=None):
        self.fail, self.after, self.outs = set(fail), after or {}, outs or {}
        self.invoke, self.features, self.deps = invoke, features, deps or {}
        self.ids = ids or {}
        self.reqs, self.outputs, self.order, self.invokes = {}, [], [], []
        self.done, self.lock = {}, threading.Lock()

    def ev(self, name):
        with self.lock:
            return self.done.setdefault(name, threading.Event())

    def SupportsFeature(self, req, *a, **k):
        ok = True if self.features is None else self.features.get(req.id, False)
        return types.SimpleNamespace(hasSupport=ok)

    def _answer(self, req):
        with self.lock:
            self.reqs[req.name] = req
            self.order.append("send " + req.name)
        if req.name in self.after:
            self.ev(self.after[req.name]).wait(5)
        with self.lock:
            self.order.append("answer " + req.name)
        self.ev(req.name).set()
        if req.name in self.fail:
            raise RpcError("refused " + req.name)
        return "urn:pulumi:stk::prj::%s::%s" % (req.type, req.name)

    def RegisterResource(self, req, *a, **k):
        urn = self._answer(req)
        o = self.outs.get(req.name, req.object)
        return resource_pb2.RegisterResourceResponse(urn=urn, id=self.ids.get(req.name, req.name + "-id") if req.custom else "", object=o)

    def ReadResource(self, req, *a, **k):
        return resource_pb2.ReadResourceResponse(urn=self._answer(req), properties=self.outs.get(req.name, req.properties))

    def RegisterResourceOutputs(self, req, *a, **k):
        self.outputs.append(req)
        return empty_pb2.Empty()

    def Invoke(self, req, *a, **k):
        self.invokes.append(req)
        return self.invoke(req)

    def Call(self, req, *a, **k):
        self.invokes.append(req)
        return self.invoke(req)


class Engine:
    def __init__(self):
        self.logs = []

    def Log(self, req, *a, **k):
        self.logs.append(req)
        return empty_pb2.Empty()

    def SetRootResource(self, req, *a, **k):
        return engine_pb2.SetRootResourceResponse()

    def GetRootResource(self, req, *a, **k):
        return engine_pb2.GetRootResourceResponse(urn="")


def run(program, monitor=None, dry=False, timeout=20, after=None):
    """Returns (outcome, monitor): outcome is "ok", "hang" or the exception; after(): awaited in the loop afterwards."""
    monitor = monitor or Monitor()
    loop = asyncio.new_event_loop()
    loop.set_exception_handler(lambda *a: None)
    asyncio.set_event_loop(loop)
    rpc_manager.RPC_MANAGER.clear()
    settings.reset_options()
    engine = Engine()
    monitor.logs = engine.logs
    settings.configure(settings.Settings(project="prj", stack="stk", monitor=monitor, engine=engine, dry_run=dry))

    async def main():
        try:
            await asyncio.wait_for(run_in_stack(program), timeout)
            r = "ok"
        except asyncio.TimeoutError:
            r = "hang"
        except Exception as e:  # noqa
            r = e
        if after is not None:
            await after()
        return r

    return loop.run_until_complete(main()), monitor


async def settled(o, timeout=5):
    """value of an output, or ("pending",) or ("failed", exception)"""
    try:
        return await asyncio.wait_for(asyncio.shield(o.future(with_unknowns=True)), timeout)
    except asyncio.TimeoutError:
        return ("pending",)
    except Exception as e:  # noqa
        return ("failed", e)


class R(pulumi.CustomResource):
    def __init__(self, name, props=None, opts=None, typ="pk:m:R"):
        super().__init__(typ, name, props or {}, opts)


class C(pulumi.ComponentResource):
    def __init__(self, name, props=None, opts=None, remote=False, typ="pk:m:C"):
        super().__init__(typ, name, props, opts, remote)


def finish(ok, msg=""):
    import os
    if not ok:
        print("FAILED", msg)
    sys.stdout.flush()
    os._exit(0 if ok else 1)
