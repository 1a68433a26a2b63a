"""Requests family: programs whose resources have arbitrary options (vh/optx.py), run with the real SDK; observes what
each request said, what merges gave, what transformations saw, and which constructions were refused."""
import asyncio
import contextvars
import os
import random
import warnings
from typing import Optional

import pulumi
from pulumi.runtime import rpc_manager
from pulumi.runtime import settings as rt_settings
from pulumi.runtime import stack as rt_stack

from . import optx
from . import progrun as PR
from .detloop import DetLoop, Hang, drain
from .fakes import FakeEngine, FakeMonitor


@pulumi.input_type
class TyArgs:
    def __init__(self, *, foo_bar=None, odd=None, plain=None):
        if foo_bar is not None:
            pulumi.set(self, "foo_bar", foo_bar)
        if odd is not None:
            pulumi.set(self, "odd", odd)
        if plain is not None:
            pulumi.set(self, "plain", plain)

    @property
    @pulumi.getter(name="fooBar")
    def foo_bar(self) -> Optional[pulumi.Input[str]]:
        return pulumi.get(self, "foo_bar")

    @property
    @pulumi.getter(name="strangeName")
    def odd(self) -> Optional[pulumi.Input[str]]:
        return pulumi.get(self, "odd")

    @property
    @pulumi.getter
    def plain(self) -> Optional[pulumi.Input[str]]:
        return pulumi.get(self, "plain")


class Typed(pulumi.CustomResource):
    def __init__(self, typ, name, props, opts):
        super().__init__(typ, name, TyArgs(**props), opts)

    @property
    @pulumi.getter(name="fooBar")
    def foo_bar(self) -> pulumi.Output[str]:
        return pulumi.get(self, "foo_bar")

    @property
    @pulumi.getter(name="weirdOut")
    def odd(self) -> pulumi.Output[str]:
        return pulumi.get(self, "odd")


def work(a):
    prog, seed = a
    return contextvars.Context().run(_run, prog, seed)


class ReqModel(PR.Model):
    def arrive(self, kind, req):
        k = super().arrive(kind, req)
        ev = self.trace[-1]
        if ev.get("ev") == "send" and "object" in ev:
            # properties are strings here
            ev["object"] = [[n, v.get("s", "?")] for n, v in zip(ev["object"]["k"], ev["object"]["l"])]
        return k


def _run(prog, seed):
    rng = random.Random(seed)
    loop = DetLoop(PR.make_chooser(None, rng))
    loop.set_exception_handler(lambda *a: None)
    asyncio.set_event_loop(loop)
    warnings.simplefilter("ignore")
    env = PR.Env(loop)
    env.building = 0
    env.mutated = False
    trace = []
    model = ReqModel(prog, trace, env)
    monitor = FakeMonitor(loop, model, {"secrets": True, "resourceReferences": True, "outputValues": True})
    rpc_manager.RPC_MANAGER.clear()
    rt_settings.reset_options()
    rt_settings.configure(rt_settings.Settings(project="prj", stack="stk", monitor=monitor, engine=FakeEngine(),
                                               dry_run=bool(prog.get("dry")), parallel=4))
    ox = optx.Opts(env, prog)
    refused = []
    merged = []

    def construct(i, r):
        opts = ox.build(r["o"])
        props = {n: v for n, v in r["props"]}
        env.building = i
        if r["kind"] == "prov":
            return PR.Prov(r["pkg"], r["name"], props, opts)
        if r["kind"] in ("comp", "rcomp"):
            return PR.Comp(r["type"], r["name"], props, opts, remote=r["kind"] == "rcomp")
        cls = {"": PR.Cust, "camel": PR.CustTr, "typed": Typed}[r["tr"]]
        return cls(r["type"], r["name"], props, opts)

    def program():
        env.res[0] = rt_settings.get_root_resource()
        for i, r in enumerate(prog["res"], 1):
            for t in prog.get("stacktf", []):
                if t["at"] == i:
                    pulumi.runtime.register_stack_transformation(optx.make_tf(t, env, ox.tfs))
            try:
                env.res[i] = construct(i, r)
            except Exception as ex:  # noqa
                env.res[i] = None
                refused.append({"r": i, "exc": type(ex).__name__, "msg": str(ex)})

    async def projections():
        for e, o, got in ox.merges:
            try:
                merged.append({"e": e, "got": got if "exc" in got else dict(got, deps=await ox.deps(o.depends_on))})
            except Exception as ex:  # noqa
                merged.append({"e": e, "got": {"exc": repr(ex)}})

    old = os.environ.get("PULUMI_DISABLE_RESOURCE_REFERENCES")
    if prog.get("noref"):
        os.environ["PULUMI_DISABLE_RESOURCE_REFERENCES"] = prog["noref"]
    end = {}
    try:
        loop.run_until_complete(rt_stack.run_in_stack(program))
        end["out"] = "ok"
    except Hang:
        end["out"] = "hang"
    except Exception as ex:  # noqa
        end = {"out": "error", "exc": type(ex).__name__, "msg": str(ex)[:300]}
    finally:
        if prog.get("noref"):
            os.environ.pop("PULUMI_DISABLE_RESOURCE_REFERENCES")
            if old is not None:
                os.environ["PULUMI_DISABLE_RESOURCE_REFERENCES"] = old
    same = env.mutated or all(ox.unchanged())
    try:
        loop.run_until_complete(projections())
    except Hang:
        merged.append({"e": {"k": "none"}, "got": {"hang": True}})
    drain(loop)
    rpc_manager.RPC_MANAGER.clear()
    sends = [e for e in trace if e["ev"] == "send" and e["r"] != 0]
    for e in sends:
        e.pop("ev")
        e.pop("pdeps", None)
        if "import" in e:
            e["importId"] = e.pop("import")
    return {"sends": sends, "calls": ox.tfs, "merged": merged, "same": same, "refused": refused, "end": end}
