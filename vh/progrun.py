"""Runs one program (JSON) against the real SDK, under the deterministic loop, and returns its trace (JSON).

The engine stand-in answers RegisterResource with the URN the real engine would compute (parent's qualified type, own
type, name), with the id / outputs the program record says, or with the failure it says.
"""
import asyncio
import collections
import contextvars
import gc
import os
import random
import types

import grpc
import pulumi
from pulumi import runtime
from pulumi.runtime import settings as rt_settings
from pulumi.runtime import stack as rt_stack
from pulumi.runtime import rpc as rt_rpc
from pulumi.runtime import rpc_manager
from pulumi.runtime.proto import provider_pb2, resource_pb2
from google.protobuf import empty_pb2, struct_pb2

from . import values as V
from .detloop import DetLoop, Deferred, Hang, drain
from .fakes import FakeEngine, FakeMonitor, FakeRpcError

STACK_TYPE = "pulumi:pulumi:Stack"


def snake(s):
    if s.startswith("_"):
        return s
    return "".join("_" + c.lower() if c.isupper() else c for c in s)


def camel(s):
    if s.startswith("_"):
        return s
    p = s.split("_")
    return p[0] + "".join(x.capitalize() for x in p[1:])


class Cust(pulumi.CustomResource):
    def __init__(self, typ, name, props=None, opts=None):
        super().__init__(typ, name, props, opts)


class CustTr(Cust):
    def translate_input_property(self, prop):
        return camel(prop)

    def translate_output_property(self, prop):
        return snake(prop)


class Comp(pulumi.ComponentResource):
    def __init__(self, typ, name, props=None, opts=None, remote=False):
        super().__init__(typ, name, props, opts, remote)


class Prov(pulumi.ProviderResource):
    def __init__(self, pkg, name, props=None, opts=None):
        super().__init__(pkg, name, props, opts)


class Env:
    """What an expression may refer to."""

    def __init__(self, loop):
        self.loop = loop
        self.res = {}  # index -> Resource
        self.leaves = {}  # leaf id -> spec
        self.calls = []

    def name_of(self, r):
        for i, x in self.res.items():
            if x is r:
                return str(i)
        return "?" + getattr(r, "_vh_dep_urn", "")


class Rebuilt(pulumi.Resource):
    """what a registered module makes of a reference to a resource"""

    def __init__(self, urn):
        super().__init__("reg:m:T", "rebuilt", False, dependency=True)
        self._vh_dep_urn = urn
        self.__dict__["urn"] = pulumi.Output({self}, resolved_now(urn), resolved_now(True), resolved_now(False))


def resolved_now(v):
    f = asyncio.get_event_loop().create_future()
    f.set_result(v)
    return f


class Module(rt_rpc.ResourceModule):
    def version(self):
        return None

    def construct(self, name, typ, urn):
        return Rebuilt(urn)


rt_rpc.register_resource_module("reg", "m", Module())


class Boom(Exception):
    pass


def resolved(loop, value):
    f = loop.create_future()
    f.set_result(value)
    return f


def build(e, env):
    """Expression -> the SDK input value it denotes."""
    k = e["e"]
    if k == "null":
        return None
    if k == "bool":
        return e["b"]
    if k == "num":
        return e["n"]
    if k == "flt":
        return float(e["s"])
    if k == "str":
        return e["s"]
    if k == "list":
        return (collections.UserList if e.get("form") else list)([build(x, env) for x in e["l"]])
    if k == "dict":
        d = {n: build(x, env) for n, x in zip(e["k"], e["l"])}
        return types.MappingProxyType(d) if e.get("form") else d
    if k == "in":
        return env.inputs.get(e["k"])
    if k == "sh":
        return env.shared[e["i"] - 1]
    if k == "rawunk":
        return pulumi.output.UNKNOWN
    if k == "res":
        return env.res[e["r"]]
    if k == "out":
        r = env.res[e["r"]]
        return getattr(r, e["p"])
    if k == "leaf":
        return leaf(e, env)
    if k == "secret":
        return pulumi.Output.secret(build(e["v"], env))
    if k == "unsecret":
        return pulumi.Output.unsecret(build(e["v"], env))
    if k == "from":
        return pulumi.Output.from_input(build(e["v"], env))
    if k == "all":
        return pulumi.Output.all(*[build(x, env) for x in e["l"]])
    if k == "alln":
        return pulumi.Output.all(**{n: build(x, env) for n, x in zip(e["k"], e["l"])})
    if k == "concat":
        return pulumi.Output.concat(*[build(x, env) for x in e["l"]])
    if k == "idx":
        return build(e["v"], env)[e["n"] if "n" in e else e["i"]]
    if k == "attr":
        return getattr(build(e["v"], env), e["i"])
    if k == "apply":
        return apply_(e, env)
    if k == "aw":
        return awaitable(e, env)
    if k == "obj":
        return types.SimpleNamespace(a=build(e["v"], env))
    if k == "asset":
        cls = {"path": pulumi.FileAsset, "text": pulumi.StringAsset, "uri": pulumi.RemoteAsset}[e["a"]]
        return cls(build(e["v"], env))
    if k == "arch":
        if e["a"] == "assets":
            return pulumi.AssetArchive(build(e["v"], env))
        cls = {"path": pulumi.FileArchive, "uri": pulumi.RemoteArchive}[e["a"]]
        return cls(build(e["v"], env))
    raise ValueError(e)


def awaitable(e, env):
    loop = env.loop
    inner = build(e["v"], env)
    if e.get("now"):
        fut = resolved(loop, inner)
    else:
        fut = loop.create_future()
        loop.deferred.append(Deferred("aw%s" % e["id"], lambda: fut.done() or fut.set_result(inner)))
    if e.get("coro"):
        async def coro():
            return await fut
        return coro()
    return fut


def leaf(e, env):
    """A primitive Output: value, known and secret futures resolve when the scheduler says so, each on its own."""
    key = e["id"]
    if key in env.leaves:
        return env.leaves[key]
    loop = env.loop
    deps = {env.res[i] for i in e.get("deps", [])}
    vf, kf, sf, df = (loop.create_future() for _ in range(4))
    val = build(e["v"], env) if not e.get("fail") and (e["known"] or e.get("v")) else None

    def fire(f, x):  # a failed run may have cancelled it
        if f.done():
            return
        if isinstance(x, Boom):
            f.set_exception(x)
        else:
            f.set_result(x)
    todo = [("v", lambda: fire(vf, Boom("leaf%s" % key) if e.get("fail") else val)), ("k", lambda: fire(kf, e["known"])),
            ("s", lambda: fire(sf, e["secret"])), ("d", lambda: fire(df, deps))]
    if e.get("now"):
        for _, f in todo:
            f()
    else:
        for n, f in todo:
            loop.deferred.append(Deferred("leaf%s.%s" % (key, n), f))
    o = pulumi.Output(df, vf, kf, sf)
    env.leaves[key] = o
    return o


def apply_(e, env):
    src = build(e["v"], env)
    fid = e["id"]

    def f(v):
        env.calls.append({"f": fid, "arg": V.tag(v, env.name_of)})
        kind = e["f"]
        if kind == "ident":
            return v
        if kind == "wrap":
            return [v]
        if kind == "const":
            return build(e["w"], env)
        if kind == "nested":
            return build(e["w"], env)
        if kind == "pair":  # returns an Output built from another expression
            return build(e["w"], env)
        if kind == "raise":
            raise Boom("apply%s" % fid)
        if kind == "await":
            if e.get("later"):
                fut = env.loop.create_future()
                env.loop.deferred.append(Deferred("later%s" % fid, lambda: fut.done() or fut.set_result(v)))
                return fut
            return resolved(env.loop, v)
        if kind == "awraise":
            async def fails():
                raise Boom("apply%s" % fid)
            return fails()
        if kind == "outof":
            return pulumi.Output.from_input(v)
        raise ValueError(kind)

    if e.get("rwu"):
        return src.apply(f, True)
    return src.apply(f)


# --------------------------------------------------------------------------------------------------- engine model
class Model:
    def __init__(self, prog, trace, env):
        self.prog = prog
        self.trace = trace
        self.env = env
        self.byname = {}
        for i, r in enumerate(prog["res"], 1):
            self.byname[r["name"]] = i
        self.urns = {}
        self.features_asked = []
        self.outputs_seen = []

    def feature(self, fid):
        self.features_asked.append(fid)

    def rec(self, i):
        return self.prog["res"][i - 1]

    def urn(self, parent, typ, name):
        stk, prj = self.prog.get("stack", "stk"), self.prog.get("project", "prj")
        q = typ
        if parent:
            ptype = parent.split("::")[2]
            if ptype != STACK_TYPE:
                q = ptype + "$" + typ
        return "urn:pulumi:%s::%s::%s::%s" % (stk, prj, q, name)

    def index_of(self, urn):
        return self.urns.get(urn, "?" + urn)

    def ref(self, s):
        """provider reference urn::id -> [index, id]"""
        if not s:
            return []
        u, i = s.rsplit("::", 1)
        return [{"p": self.index_of(u), "id": i}]

    # ---- requests
    def arrive(self, kind, req):
        T = self.trace
        ix = self.index_of
        if kind == "register":
            if req.type == STACK_TYPE:
                T.append({"ev": "send", "r": 0, "name": req.name, "parent": req.parent})
                return "r0"
            i = self.byname.get(req.name, 900)
            ct = req.customTimeouts
            T.append({
                "ev": "send", "r": i, "rpc": "register", "type": req.type, "name": req.name,
                "parent": ix(req.parent) if req.parent else "", "custom": req.custom, "object": V.wire_props(req.object),
                "protect": req.protect, "provider": self.ref(req.provider),
                "providers": [[k, self.ref(v)] for k, v in sorted(req.providers.items())],
                "deps": sorted_ix(ix(u) for u in req.dependencies), "ndeps": len(req.dependencies),
                "pdeps": [[k, sorted_ix(ix(u) for u in v.urns)] for k, v in sorted(req.propertyDependencies.items())],
                "dbr": req.deleteBeforeReplace, "dbrDefined": req.deleteBeforeReplaceDefined,
                "ignoreChanges": list(req.ignoreChanges), "version": req.version, "url": req.pluginDownloadURL,
                "acceptSecrets": req.acceptSecrets, "acceptResources": req.acceptResources,
                "aso": list(req.additionalSecretOutputs), "import": req.importId,
                "timeouts": [ct.create, ct.update, ct.delete] if req.HasField("customTimeouts") else [],
                "aliases": list(req.aliases), "partial": req.supportsPartialValues, "remote": req.remote,
                "roc": list(req.replaceOnChanges), "retain": req.retainOnDelete})
            return "r%s" % i
        if kind == "read":
            i = self.byname.get(req.name, 900)
            T.append({
                "ev": "send", "r": i, "rpc": "read", "type": req.type, "name": req.name, "id": req.id,
                "parent": ix(req.parent) if req.parent else "", "object": V.wire_props(req.properties),
                "provider": self.ref(req.provider), "deps": sorted_ix(ix(u) for u in req.dependencies), "pdeps": [],
                "ndeps": len(req.dependencies), "version": req.version, "url": req.pluginDownloadURL,
                "acceptSecrets": req.acceptSecrets, "acceptResources": req.acceptResources,
                "aso": list(req.additionalSecretOutputs)})
            return "r%s" % i
        if kind == "invoke" and req.tok == "pulumi:pulumi:getResource":
            u = req.args.fields["urn"].string_value
            i = self.byname.get(u.rsplit("::", 1)[1], 900)
            T.append({"ev": "send", "r": i, "rpc": "get", "urn": u, "deps": [], "pdeps": [], "ndeps": 0, "parent": 0})
            return "r%s" % i
        if kind == "outputs":
            T.append({"ev": "outputs", "r": ix(req.urn), "object": V.wire_props(req.outputs)})
            return "o%s" % ix(req.urn)
        T.append({"ev": "other", "kind": kind})
        return kind

    # ---- answers
    def answer(self, kind, req, key, outcome):
        T = self.trace
        if outcome and outcome[0] == "abandon":
            raise FakeRpcError(grpc.StatusCode.CANCELLED, "abandoned")
        if kind == "register" and req.type == STACK_TYPE:
            urn = self.urn("", req.type, req.name)
            self.urns[urn] = 0
            T.append({"ev": "ack", "r": 0})
            return resource_pb2.RegisterResourceResponse(urn=urn)
        if kind in ("register", "read") or (kind == "invoke" and key.startswith("r")):
            i = self.byname.get(req.name if kind != "invoke" else req.args.fields["urn"].string_value.rsplit("::", 1)[1], 900)
            if i == 900:
                raise FakeRpcError(grpc.StatusCode.UNKNOWN, "who?")
            r = self.rec(i)
            if r.get("fail"):
                T.append({"ev": "nack", "r": i})
                code = grpc.StatusCode.UNAVAILABLE if r["fail"] == "unavailable" else grpc.StatusCode.UNKNOWN
                raise FakeRpcError(code, "engine refused %s" % r["name"])
            T.append({"ev": "ack", "r": i})
            if kind == "invoke":
                u = req.args.fields["urn"].string_value
                self.urns[u] = i
                st = struct_pb2.Struct()
                st.fields["urn"].string_value = u
                st.fields["id"].string_value = r.get("engid", "")
                st.fields["state"].struct_value.CopyFrom(V.unwire_props(r["outs"]))
                for f in r.get("badget", []):
                    del st.fields[f]
                resp = provider_pb2.InvokeResponse()
                getattr(resp, "return").CopyFrom(st)
                return resp
            urn = self.urn(req.parent, req.type, req.name)
            self.urns[urn] = i
            if kind == "read":
                return resource_pb2.ReadResourceResponse(urn=urn, properties=V.unwire_props(r["outs"]))
            resp = resource_pb2.RegisterResourceResponse(urn=urn, id=r.get("engid", ""), object=V.unwire_props(r["outs"]))
            for k, us in r.get("rpcdeps", []):
                resp.propertyDependencies[k].urns.extend(self.dep_urn(u) for u in us)
            return resp
        if kind == "outputs":
            T.append({"ev": "outack", "r": self.index_of(req.urn)})
            return empty_pb2.Empty()
        raise FakeRpcError(grpc.StatusCode.UNIMPLEMENTED, kind)

    def dep_urn(self, name):
        return "urn:pulumi:stk::prj::ext:m:T::%s" % name


def sorted_ix(xs):
    return sorted(xs, key=lambda x: (isinstance(x, str), x))


TRI = {"T": True, "F": False, "N": None}


def make_opts(r, env, prog):
    res = env.res
    kw = {}
    if r["par"]:
        kw["parent"] = res[r["par"]]
    form = r.get("depform", "list")
    if r["deps"]:
        ds = [res[d] for d in r["deps"]]
        if form == "single":
            kw["depends_on"] = ds[0] if len(ds) == 1 else ds
        elif form == "outlist":
            kw["depends_on"] = pulumi.Output.from_input(ds)
        elif form == "listout":
            kw["depends_on"] = [pulumi.Output.from_input(d) for d in ds]
        elif form == "awlist":
            kw["depends_on"] = resolved(env.loop, ds)
        elif form == "urnapply":
            # an Output of the resources that itself depends on them
            kw["depends_on"] = [d.urn.apply(lambda _, d=d: d) for d in ds]
        else:
            kw["depends_on"] = ds
    if r.get("prov"):
        kw["provider"] = res[r["prov"]]
    if r.get("provs"):
        ps = [res[p] for p in r["provs"]]
        kw["providers"] = ps if r.get("provform") != "dict" else {p.package: p for p in ps}
    for key, arg in (("protect", "protect"), ("dbr", "delete_before_replace"), ("retain", "retain_on_delete")):
        if r.get(key, "N") != "N":
            kw[arg] = TRI[r[key]]
    for key, arg in (("ignore", "ignore_changes"), ("roc", "replace_on_changes"), ("aso", "additional_secret_outputs")):
        if r.get(key) is not None:
            kw[arg] = list(r[key])
    for key, arg in (("version", "version"), ("url", "plugin_download_url"), ("import", "import_")):
        if r.get(key):
            kw[arg] = r[key]
    if r.get("ct"):
        a, b, c = r["ct"]["v"]
        if r["ct"]["form"] == "dict":
            kw["custom_timeouts"] = {k: v for k, v in zip(("create", "update", "delete"), (a, b, c)) if v}
        else:
            kw["custom_timeouts"] = pulumi.CustomTimeouts(a or None, b or None, c or None)
    if r.get("aliases"):
        kw["aliases"] = [make_alias(a, env) for a in r["aliases"]]
    if r.get("tf"):
        kw["transformations"] = [make_tf(t, env) for t in r["tf"]]
    if r["kind"] == "read":
        kw["id"] = build(r["id"], env)
    if r["kind"] == "get":
        kw["urn"] = r["urn"]
    return pulumi.ResourceOptions(**kw)


def make_alias(a, env):
    if a["k"] == "urn":
        return a["s"]
    if a["k"] == "ourn":
        return pulumi.Output.from_input(a["s"])
    kw = {}
    for f in ("name", "type_", "stack", "project"):
        if a.get(f):
            kw[f] = a[f]
    p = a.get("parent")
    if p is not None:
        kw["parent"] = None if p == "root" else (env.res[p] if isinstance(p, int) else p)
    return pulumi.Alias(**kw)


def make_tf(t, env):
    def tf(args):
        env.calls.append({"f": "tf%s" % t["id"], "name": args.name, "type": args.type_})
        if t["do"] == "none":
            return None
        props, opts = dict(args.props), args.opts
        if t["do"] == "addprop":
            props[t["p"]] = (props.get(t["p"]) or "") + t["s"]
        elif t["do"] == "protect":
            opts = pulumi.ResourceOptions.merge(opts, pulumi.ResourceOptions(protect=True))
        elif t["do"] == "ignore":
            opts = pulumi.ResourceOptions.merge(opts, pulumi.ResourceOptions(ignore_changes=[t["s"]]))
        elif t["do"] == "reparent":
            opts = pulumi.ResourceOptions.merge(opts, pulumi.ResourceOptions(parent=env.res[t["r"]]))
        return pulumi.ResourceTransformationResult(props, opts)

    return tf


def construct(i, r, env, prog):
    opts = make_opts(r, env, prog)
    props = {n: build(x, env) for n, x in r.get("props", [])}
    k = r["kind"]
    if k in ("cust", "read", "get"):
        cls = CustTr if r.get("tr") else Cust
        return cls(r["type"], r["name"], props, opts)
    if k == "prov":
        return Prov(r["pkg"], r["name"], props, opts)
    if k in ("comp", "rcomp"):
        return Comp(r["type"], r["name"], props, opts, remote=(k == "rcomp"))
    raise ValueError(k)


def project_output(o, loop, env, model):
    """value/known/secret/deps of an Output, or how it failed, or that it never settles."""
    async def get():
        try:
            v = await o.future(with_unknowns=True)
        except (Exception, asyncio.CancelledError) as ex:  # noqa
            return {"fail": True, "exc": type(ex).__name__}
        k = await o.is_known()
        s = await o.is_secret()
        rs = await o.resources()
        names = []
        for x in rs:
            nm = env.name_of(x)
            if nm == "?":
                nm = model.index_of(await x.urn.future())
            names.append(str(nm))
        return {"fail": False, "v": V.tag(v, env.name_of), "known": k, "secret": s, "deps": sorted(names)}

    try:
        return loop.run_until_complete(get())
    except Hang:
        return {"hang": True, "fail": False}


class RunResult:
    pass


def make_chooser(sched, rng):
    """sched: a list of keys in the order they must complete, or None: seeded random."""
    order = list(sched) if sched else None

    def choose(cands):
        if order:
            for k in order:
                for i, c in enumerate(cands):
                    if c.key == k:
                        order.remove(k)
                        return i, None
        return rng.randrange(len(cands)), None

    return choose


def run(prog, seed=0, sched=None, observe=True, exports=None, before=None, chooser=None):
    """Runs the program in a fresh context and returns a dict: events, end, outputs, calls."""
    return contextvars.Context().run(_run, prog, seed, sched, observe, before, chooser)


def _run(prog, seed, sched, observe, before, chooser=None):
    rng = random.Random(seed)
    loop = DetLoop(chooser or make_chooser(sched, rng))
    loop.set_exception_handler(lambda *a: None)
    asyncio.set_event_loop(loop)
    env = Env(loop)
    trace = []
    model = Model(prog, trace, env)
    engine = FakeEngine()
    feats = prog.get("features", {"secrets": True, "resourceReferences": True, "outputValues": True})
    monitor = FakeMonitor(loop, model, feats)
    rpc_manager.RPC_MANAGER.clear()
    rt_settings.reset_options()
    rt_settings.configure(rt_settings.Settings(project=prog.get("project", "prj"), stack=prog.get("stack", "stk"), monitor=monitor,
                                               engine=engine, dry_run=bool(prog.get("dry")), parallel=4))
    errors = []

    def attach(i, cb):
        """a callback on an output of resource i that (maybe later) fails, or does nothing"""
        x = env.res.get(i)
        if x is None:
            return
        out = x.urn if cb["p"] == "urn" else getattr(x, cb["p"])

        def boom():
            trace.append({"ev": "cbfail", "r": i, "id": cb["id"], "nested": cb["do"] in ("nest", "chain")})
            raise Boom("callback%s!" % cb["id"])

        def slow(v, then=boom):
            fut = loop.create_future()
            loop.deferred.append(Deferred("cb%s" % cb["id"], lambda: fut.done() or fut.set_result(v)))

            async def wait():
                await fut
                then()
            return wait()

        def f(v):
            do = cb["do"]
            if do == "raise":
                boom()
            if do == "slow":
                return slow(v)
            if do == "nest":
                pulumi.Output.from_input(v).apply(slow)
            if do == "chain":  # three generations
                def again():
                    pulumi.Output.from_input(v).apply(slow)
                pulumi.Output.from_input(v).apply(lambda w: slow(w, again))
            if do == "nestres":
                return env.res[i].urn.apply(slow)
            return v

        out.apply(f, True) if cb["p"] != "urn" else out.apply(f)

    def program():
        env.res[0] = rt_settings.get_root_resource()
        for i, r in enumerate(prog["res"], 1):
            for t in prog.get("stacktf", []):
                if t["at"] == i:
                    pulumi.runtime.register_stack_transformation(make_tf(t, env))
            if r.get("late"):
                def later(_, i=i, r=r):
                    env.res[i] = construct(i, r, env, prog)
                env.res[r["late"]].urn.apply(later)
                continue
            try:
                env.res[i] = construct(i, r, env, prog)
            except Exception as ex:  # noqa
                if not prog.get("catch"):
                    raise
                env.res[i] = None
                errors.append([i, type(ex).__name__, str(ex)])
                trace.append({"ev": "ctorfail", "r": i})
            for cb in r.get("cbs", []):
                attach(i, cb)
            if r.get("regouts"):
                env.res[i].register_outputs({n: build(x, env) for n, x in r["regouts"]})
        if before:
            before(env)
        for n, x in prog.get("exports", []):
            pulumi.export(n, build(x, env))
        if prog.get("raise"):
            raise Boom("program")

    end = {"ev": "end"}
    try:
        loop.run_until_complete(rt_stack.run_in_stack(program))
        end["out"] = "ok"
    except Hang:
        end["out"] = "hang"
    except Exception as ex:  # noqa
        end["out"] = "error"
        end["exc"] = type(ex).__name__
        end["msg"] = str(ex)
    end["inflight"] = sorted([g.key for g in loop.parked] + [g.key for g in loop.deferred if g.key.startswith("cb")])
    trace.append(end)
    res = {"events": trace, "calls": list(env.calls), "errors": errors, "logs": [l for l in engine.logs if l["sev"] > 0],
           "features": model.features_asked}
    if observe and end["out"] != "hang":
        outs = []
        loop.choose = make_chooser(None, rng)
        for i, r in enumerate(prog["res"], 1):
            x = env.res.get(i)
            if x is None:
                continue
            o = {"r": i, "urn": project_output(x.urn, loop, env, model), "props": []}
            if isinstance(x, pulumi.CustomResource):
                o["id"] = project_output(x.id, loop, env, model)
            for n, _ in r.get("props", []):
                if n in x.__dict__ and isinstance(x.__dict__[n], pulumi.Output):
                    o["props"].append([n, project_output(x.__dict__[n], loop, env, model)])
            outs.append(o)
        res["outs"] = outs
    res["urns"] = {str(i): u for u, i in model.urns.items()}
    drain(loop)
    rpc_manager.RPC_MANAGER.clear()
    return res
