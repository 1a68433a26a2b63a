"""Dynamic providers (spec/Dynamic.tla): registers dynamic resources as programs do, sends the engine's requests to the real plugin
(python -m pulumi.dynamic, over gRPC), and records which provider ran with what, and what it answered."""
import atexit
import contextvars
import ctypes
import json
import os
import shutil
import subprocess
import sys
import tempfile

import grpc
import pulumi
from google.protobuf import struct_pb2
from pulumi.runtime import proto
from pulumi.runtime.proto import provider_pb2_grpc

from . import dyngen, dynprog
from . import values as V

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLUGIN = {}


def plugin():
    if "stub" not in PLUGIN:
        work = tempfile.mkdtemp(prefix="dyn-")
        atexit.register(shutil.rmtree, work, ignore_errors=True)
        PLUGIN["log"] = os.path.join(work, "log")
        env = {k: v for k, v in os.environ.items() if not k.startswith("PULUMI")}
        lib = os.path.dirname(os.path.dirname(os.path.abspath(pulumi.__file__)))
        env.update(VLOG=PLUGIN["log"], PYTHONPATH=lib, PYTHONDONTWRITEBYTECODE="1", HOME=work, TMPDIR=work)
        for k in ("http_proxy", "https_proxy", "grpc_proxy"):
            env.pop(k, None)
        # the plugin ends with the process that started it
        libc = ctypes.CDLL("libc.so.6")
        proc = subprocess.Popen([sys.executable, "-B", "-u", "-m", "pulumi.dynamic"], cwd=work, env=env, stdin=subprocess.DEVNULL,
                                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=lambda: libc.prctl(1, 9))
        atexit.register(proc.kill)
        port = int(proc.stdout.readline())
        ch = grpc.insecure_channel("127.0.0.1:%d" % port, options=[("grpc.max_receive_message_length", 1 << 28)])
        PLUGIN.update(stub=provider_pb2_grpc.ResourceProviderStub(ch), proc=proc, ch=ch)
    return PLUGIN["stub"]


def work(item):
    return contextvars.Context().run(_run, item)


def ran():
    try:
        with open(PLUGIN["log"]) as fh:
            return [json.loads(ln) for ln in fh]
    except FileNotFoundError:
        return []


def _run(item):
    n = len(item["pvs"])
    text = "".join(dyngen.source(i + 1, pv, pl) for i, (pv, pl) in enumerate(zip(item["pvs"], item["places"])))
    ns = dynprog.build(text)
    made = [ns["make%d" % i]() for i in range(1, n + 1)]
    encs = []
    ev = []
    for i, got in enumerate(dynprog.register([(p, "first%d" % i, {}, "", "Resource") for i, p in enumerate(made)])):
        e = {"ev": "register", "p": i + 1, "module": "", "name": "Resource", "fail": isinstance(got, str)}
        if e["fail"]:
            return {"pvs": item["pvs"], "ev": [dict(e, msg=got)]}
        encs.append(got[1].get("__provider"))
    no = lambda s: {"t": "prov", "n": encs.index(s) + 1} if s in encs else None

    def mark(t):
        """the encodings of providers by their numbers"""
        if t["t"] == "str" and no(t["s"]):
            return no(t["s"])
        t = dict(t)
        if isinstance(t.get("v"), dict):
            t["v"] = mark(t["v"])
        if "l" in t:
            t["l"] = [mark(x) for x in t["l"]]
        return t

    def wire_of(w):
        """a tagged bag as the engine sends it"""
        def put(x):
            x = dict(x)
            if x["t"] == "prov":
                return {"t": "str", "s": encs[x["n"] - 1]}
            if "l" in x:
                x["l"] = [put(y) for y in x["l"]]
            return x
        return V.unwire_props(put(w))

    bags = [dynplain(b) for b in item["bags"]]
    todo = [(made[r["p"] - 1], "r%d" % k, bags[r["props"]], r["module"], r["name"]) for k, r in enumerate(item["regs"])]
    for r, got in zip(item["regs"], dynprog.register(todo) if todo else []):
        e = {"ev": "register", "p": r["p"], "module": r["module"], "name": r["name"], "fail": isinstance(got, str), "props": item["bags"][r["props"]],
             "after": mark(V.tag(bags[r["props"]]))}
        e.update({"msg": got} if e["fail"] else {"type": got[0], "sent": mark(V.tag(dict(got[1])))})
        ev.append(e)

    stub = plugin()
    untag = lambda x: mark(V.tag(plain_unk(x)))
    for q in item["reqs"]:
        op, r = q["op"], q["r"]
        try:
            os.unlink(PLUGIN["log"])
        except FileNotFoundError:
            pass
        urn = "urn:pulumi:s::p::pulumi-python:dynamic:Resource::r"
        ans = {"fail": False}
        try:
            if op == "check":
                a = stub.Check(proto.CheckRequest(urn=urn, olds=wire_of(r["olds"]), news=wire_of(r["news"])), timeout=60)
                ans.update(inputs=mark(V.wire_props(a.inputs)), failures=[{"p": f.property, "r": f.reason} for f in a.failures])
            elif op == "diff":
                a = stub.Diff(proto.DiffRequest(id=r["id"], urn=urn, olds=wire_of(r["olds"]), news=wire_of(r["news"])), timeout=60)
                ans.update(changes={0: "unknown", 1: "none", 2: "some"}[a.changes], replaces=list(a.replaces), dbr=a.deleteBeforeReplace, stables=list(a.stables))
            elif op == "create":
                a = stub.Create(proto.CreateRequest(urn=urn, properties=wire_of(r["props"])), timeout=60)
                ans.update(id=a.id, props=mark(V.wire_props(a.properties)))
            elif op == "update":
                a = stub.Update(proto.UpdateRequest(id=r["id"], urn=urn, olds=wire_of(r["olds"]), news=wire_of(r["news"])), timeout=60)
                ans.update(props=mark(V.wire_props(a.properties)))
            elif op == "read":
                a = stub.Read(proto.ReadRequest(id=r["id"], urn=urn, properties=wire_of(r["props"])), timeout=60)
                ans.update(id=a.id, props=mark(V.wire_props(a.properties)))
            else:
                stub.Delete(proto.DeleteRequest(id=r["id"], urn=urn, properties=wire_of(r["props"])), timeout=60)
        except grpc.RpcError as ex:
            ans = {"fail": True, "why": "boom %s" % op in (ex.details() or ""), "msg": (ex.details() or "")[:200]}
        calls = [{"p": c["p"], "op": c["op"], "args": {k: v if k == "id" else untag(v) for k, v in c["args"].items()}} for c in ran()]
        ev.append({"ev": "request", "op": op, "r": r, "ran": calls, "ans": ans})
    return {"pvs": item["pvs"], "ev": ev}


def plain_unk(x):
    if isinstance(x, dict):
        return V.UNK if x == {"$unk": 1} else {k: plain_unk(v) for k, v in x.items()}
    return [plain_unk(v) for v in x] if isinstance(x, list) else x


def dynplain(w):
    t = w["t"]
    if t == "list":
        return [dynplain(x) for x in w["l"]]
    if t == "dict":
        return {k: dynplain(v) for k, v in zip(w["k"], w["l"])}
    return {"null": lambda: None, "bool": lambda: w["b"], "num": lambda: w["n"], "str": lambda: w["s"]}[t]()


def encodings(items, seed, order):
    """the encodings of all providers, in a process of its own"""
    todo = [["".join(dyngen.source(i + 1, pv, pl) for i, (pv, pl) in enumerate(zip(it["pvs"], it["places"]))), len(it["pvs"]), it["extras"]] for it in items]
    lib = os.path.dirname(os.path.dirname(os.path.abspath(pulumi.__file__)))
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=lib, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-B", os.path.join(HERE, "vh", "dynprog.py"), str(order)], input=json.dumps(todo), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, env=env, timeout=600)
    if p.returncode:
        raise RuntimeError("encoding process failed: " + p.stderr[-500:])
    return {(k, i): (ok, enc, same) for k, i, ok, enc, same in json.loads(p.stdout.rsplit("\n", 1)[1])}
