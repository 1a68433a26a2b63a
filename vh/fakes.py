"""In-process stand-ins for the engine's two gRPC services, at the public boundary of the SDK."""
import threading
import types

import grpc
from google.protobuf import empty_pb2

from pulumi.runtime.proto import engine_pb2, provider_pb2, resource_pb2

from .detloop import Gate


class FakeRpcError(grpc.RpcError):
    def __init__(self, code, details):
        super().__init__()
        self._code, self._details = code, details

    def code(self):
        return self._code

    def details(self):
        return self._details


class Recorder:
    def __init__(self):
        self.events = []
        self.lock = threading.Lock()

    def add(self, ev):
        with self.lock:
            self.events.append(ev)


class FakeMonitor:
    """Every call goes through `self.on(kind, req)` when it arrives, parks in the deterministic loop, and is answered by
    `self.answer(kind, req, outcome)` when the scheduler releases it."""

    def __init__(self, loop, model, features=None, park_features=False):
        self.loop = loop
        self.model = model
        self.features = features or {}
        self.park_features = park_features

    def _call(self, kind, req, park=True):
        key = self.model.arrive(kind, req)
        outcome = None
        if park and key is not None:
            g = Gate(key, req, kind)
            if self.loop is not None and self.loop.park(g):
                outcome = g.outcome
        return self.model.answer(kind, req, key, outcome)

    def RegisterResource(self, req, *a, **k):
        return self._call("register", req)

    def ReadResource(self, req, *a, **k):
        return self._call("read", req)

    def Invoke(self, req, *a, **k):
        return self._call("invoke", req)

    def Call(self, req, *a, **k):
        return self._call("call", req)

    def RegisterResourceOutputs(self, req, *a, **k):
        return self._call("outputs", req)

    def SupportsFeature(self, req, *a, **k):
        self.model.feature(req.id)
        v = self.features.get(req.id, False)
        if v == "unimplemented":
            raise FakeRpcError(grpc.StatusCode.UNIMPLEMENTED, "no SupportsFeature")
        return types.SimpleNamespace(hasSupport=bool(v))


class FakeEngine:
    def __init__(self):
        self.logs = []
        self.lock = threading.Lock()

    def Log(self, req, *a, **k):
        with self.lock:
            self.logs.append({"sev": int(req.severity), "msg": req.message, "urn": req.urn, "stream": req.streamId,
                              "eph": req.ephemeral})
        return empty_pb2.Empty()

    def SetRootResource(self, req, *a, **k):
        return engine_pb2.SetRootResourceResponse()

    def GetRootResource(self, req, *a, **k):
        return engine_pb2.GetRootResourceResponse(urn="")
