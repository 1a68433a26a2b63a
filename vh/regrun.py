"""Registries of packages and modules (spec/Registry.tla): registers them as SDKs do, decodes answers with references to resources, and
records which of them rebuilt what."""
import asyncio
import contextvars
import itertools
import json
import os

import pulumi
from pulumi.runtime import rpc as rt_rpc
from pulumi.runtime import settings as rt_settings
from semver import VersionInfo

from . import values as V

FRESH = itertools.count()


def work(item):
    return contextvars.Context().run(_run, item)


class Made(pulumi.Resource):
    def __init__(self, by, name, typ, urn):
        super().__init__(typ, name, False, dependency=True)
        self.made = {"t": "made", "by": by, "name": name, "type": typ, "urn": urn}


class Package(rt_rpc.ResourcePackage):
    def __init__(self, no, v):
        self.no, self.v = no, v

    def version(self):
        return VersionInfo.parse(self.v) if self.v else None

    def construct_provider(self, name, typ, urn):
        return Made(self.no, name, typ, urn)


class Module(rt_rpc.ResourceModule):
    def __init__(self, no, v):
        self.no, self.v = no, v

    def version(self):
        return VersionInfo.parse(self.v) if self.v else None

    def construct(self, name, typ, urn):
        return Made(self.no, name, typ, urn)


def _run(item):
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    rt_settings.configure(rt_settings.Settings(project="p", stack="s", dry_run=item["dry"]))
    mark = "x%dx%d" % (os.getpid(), next(FRESH))  # registries live as long as the process: each item has packages of its own
    real = lambda s: s.replace("@", mark)
    back = lambda v: json.loads(json.dumps(v).replace(mark, "@"))

    def struct(w):
        """the wire form, with the references put in"""
        if w["t"] == "refno":
            r = item["refs"][w["n"] - 1]
            return {"t": "res", "urn": {"t": "str", "s": real(r["urn"])}, "id": r["id"], "ver": r["ver"]}
        w = dict(w)
        if isinstance(w.get("v"), dict):
            w["v"] = struct(w["v"])
        if "l" in w:
            w["l"] = [struct(x) for x in w["l"]]
        return w

    def plain(v):
        if isinstance(v, dict):
            return json.loads(v["s"]) if v.get("t") == "resobj" else {k: plain(x) for k, x in v.items()}
        return [plain(x) for x in v] if isinstance(v, list) else v

    ev = []
    for o in item["ops"]:
        if o["op"] == "register":
            x = o["x"]
            ok = True
            try:
                if x["kind"] == "mod":
                    rt_rpc.register_resource_module(real(x["pkg"]), x["mod"], Module(x["no"], o["ver"]))
                else:
                    rt_rpc.register_resource_package(real(x["pkg"]), Package(x["no"], o["ver"]))
            except ValueError:
                ok = False
            ev.append({"ev": "register", "x": {k: x[k] for k in ("kind", "key", "v", "no")}, "ok": ok})
        else:
            e = {"ev": "decode", "w": o["w"], "keep": item["dry"], "fail": False}
            try:
                got = rt_rpc.deserialize_properties(V.unwire_props({"k": ["p"], "l": [struct(o["w"])]}))
                e["v"] = back(plain(V.tag(got.get("p"), lambda r: json.dumps(r.made))))
            except Exception as ex:  # noqa
                e.update(fail=True, v={"t": "err", "msg": repr(ex)[:200]})
            ev.append(e)
    loop.close()
    return {"refs": item["refs"], "ev": ev}
