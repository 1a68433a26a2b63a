"""Option expressions: builds ResourceOptions from JSON, by records and merges, and projects option objects back.

  rec    {"k":"rec", par?, protect?, dbr?, retain?, prov?, provs?:{form,l}, ignore?, roc?, aso?, deps?:{form,l}, version?, url?,
          import?, ct?:{form,v}, aliases?:[..], aform?, tf?:[..], id?:{form,s}, urn?}
  none   {"k":"none"}
  merge  {"k":"merge","how":"static"|"inst","a":..,"b":..}
"""
import asyncio
import collections
import copy

import pulumi

TRI = {"T": True, "F": False}


def urn_text(u):
    return "urn:pulumi:%s::%s::%s::%s" % (u["st"], u["pr"], "$".join(u["qt"]), u["nm"])


def lift(form, v, loop):
    if form == "out":
        return pulumi.Output.from_input(v)
    if form == "sec":
        return pulumi.Output.secret(v)
    if form == "fut":
        f = loop.create_future()
        f.set_result(v)
        return f
    if form == "unk":
        def done(x):
            f = loop.create_future()
            f.set_result(x)
            return f
        return pulumi.Output(done(set()), done(None), done(False))
    if form == "coro":
        async def get():
            return v
        return get()
    return v


def make_alias(a, env):
    if a["k"] == "urn":
        return lift(a["form"], urn_text(a["u"]), env.loop)
    kw = {}
    for f in ("name", "type_"):
        if f in a:
            kw[f] = a[f]
    for f in ("stack", "project"):
        if f in a:
            kw[f] = lift(a["sform"], a[f], env.loop)
    p = a.get("parent")
    if p is not None:
        kw["parent"] = {"root": lambda: None, "res": lambda: env.res[p["r"]], "urn": lambda: lift(p["form"], urn_text(p["u"]), env.loop),
                        "resurn": lambda: env.res[p["r"]].urn}[p["p"]]()
    return lift(a["form"], pulumi.Alias(**kw), env.loop)


def make_deps(d, env):
    rs = [env.res[j] for j in d["l"]]
    form = d["form"]
    if form in ("single", "outsingle", "futsingle", "corosingle"):
        return lift({"single": "", "outsingle": "out", "futsingle": "fut", "corosingle": "coro"}[form], rs[0], env.loop)
    if form == "tuple":
        return tuple(rs)
    if form == "listout":
        return [pulumi.Output.from_input(x) for x in rs]
    if form == "listfut":
        return [lift("fut", x, env.loop) for x in rs]
    if form == "listmix":
        return [pulumi.Output.from_input(x) if i % 2 else x for i, x in enumerate(rs)]
    if form in ("out", "fut", "coro"):
        return lift(form, rs, env.loop)
    if form == "secretout":
        return pulumi.Output.secret(rs)
    return rs


class Labels:
    """Remembers which JSON a built object came from, by identity."""

    def __init__(self):
        self.by = {}
        self.keep = []

    def put(self, obj, js):
        self.by[id(obj)] = js
        self.keep.append(obj)
        return obj

    def get(self, obj):
        return self.by.get(id(obj), {"?": type(obj).__name__})


def make_tf(t, env, tfs):
    def tf(args):
        tfs.append({"t": t["id"], "r": env.building, "name": args.name, "type": args.type_, "props": sorted([k, v] for k, v in args.props.items()),
                    "protect": tri(args.opts.protect), "ignore": list(args.opts.ignore_changes or []), "isres": isinstance(args.resource, pulumi.Resource)})
        do = t["do"]
        if do == "none":
            return None
        props, opts = dict(args.props), args.opts
        RO = pulumi.ResourceOptions
        if do == "addprop":
            props["plain"] = (props.get("plain") or "") + t["s"]
        elif do == "dropprop":
            props.pop("foo_bar", None)
        elif do == "protect":
            opts = RO.merge(opts, RO(protect=True))
        elif do == "unprotect":
            opts = RO.merge(opts, RO(protect=False))
        elif do == "ignore":
            opts = RO.merge(opts, RO(ignore_changes=[t["s"]]))
        elif do == "version":
            opts = RO.merge(opts, RO(version=t["s"]))
        elif do == "alias":
            opts = RO.merge(opts, RO(aliases=[pulumi.Alias(name=t["s"])]))
        elif do == "tf":  # transformations added by a transformation come too late
            opts = RO.merge(opts, RO(transformations=[lambda a: tfs.append({"t": "late"})]))
        elif do == "reparent":
            opts = RO.merge(opts, RO(parent=env.res[t["r"]] or env.res[0]))
        elif do == "unparent":
            opts = copy.copy(opts)
            opts.parent = None
        elif do == "reparentmut":
            env.mutated = True  # by the program itself
            opts.parent = env.res[t["r"]] or env.res[0]
        return pulumi.ResourceTransformationResult(props, opts)

    return tf


def tri(b):
    return "N" if b is None else ("T" if b is True else ("F" if b is False else "?"))


class Opts:
    """The option objects of one run."""

    def __init__(self, env, prog):
        self.env, self.prog = env, prog
        self.labels = Labels()
        self.made = []  # (object, expression): every object built
        self.merges = []  # (a, b, how, object)
        self.tfs = []
        self.crashes = []

    def rec(self, e):
        env = self.env
        kw = {}
        if e.get("par"):
            kw["parent"] = env.res[e["par"]]
        for k, a in (("protect", "protect"), ("dbr", "delete_before_replace"), ("retain", "retain_on_delete")):
            if e.get(k, "N") != "N":
                kw[a] = TRI[e[k]]
        for k, a in (("version", "version"), ("url", "plugin_download_url"), ("import", "import_"), ("urn", "urn")):
            if e.get(k):
                kw[a] = e[k]
        for k, a in (("ignore", "ignore_changes"), ("roc", "replace_on_changes"), ("aso", "additional_secret_outputs")):
            if k in e:
                kw[a] = list(e[k])
        if e.get("prov"):
            kw["provider"] = env.res[e["prov"]]
        if "provs" in e:
            ps = [env.res[j] for j in e["provs"]["l"]]
            form = e["provs"]["form"]
            if form == "dict":
                kw["providers"] = {p.package: p for p in ps}
            elif form == "udict":
                kw["providers"] = collections.OrderedDict((p.package, p) for p in ps)
            else:
                kw["providers"] = tuple(ps) if form == "tuple" else ps
        if "deps" in e:
            kw["depends_on"] = make_deps(e["deps"], env)
        if "ct" in e:
            a = dict(zip(("create", "update", "delete"), e["ct"]["v"]))
            a = {k: v for k, v in a.items() if v}
            kw["custom_timeouts"] = self.labels.put(dict(a) if e["ct"]["form"] == "dict" else pulumi.CustomTimeouts(**a), e["ct"]["v"])
        if "aliases" in e:
            l = [self.labels.put(make_alias(a, env), a) for a in e["aliases"]]
            kw["aliases"] = tuple(l) if e.get("aform") == "tuple" else l
        if "tf" in e:
            kw["transformations"] = [self.labels.put(make_tf(t, env, self.tfs), t) for t in e["tf"]]
        if "id" in e:
            i = e["id"]
            kw["id"] = self.labels.put(env.res[i["r"]].id if i["form"] == "res" else lift(i["form"], i["s"], env.loop), i)
        return pulumi.ResourceOptions(**kw)

    def build(self, e):
        if e["k"] == "none":
            return None
        if e["k"] == "rec":
            o = self.rec(e)
        else:
            a, b = self.build(e["a"]), self.build(e["b"])
            if e["how"] == "inst" and a is not None:
                o = a.merge(b)
            else:
                o = pulumi.ResourceOptions.merge(a, b)
            try:
                self.merges.append((e, o, self.project(o)))
            except Exception as ex:  # noqa
                self.merges.append((e, o, {"exc": repr(ex)}))
        self.made.append([o, e, self.snapshot(o)])
        return o

    # ---- projections
    def snapshot(self, o):
        """Identity-level content: what is in each field, and what its containers hold."""
        def cont(v):
            if isinstance(v, (list, tuple)):
                return (id(v), [id(x) for x in v])
            if isinstance(v, dict):
                return (id(v), [(k, id(x)) for k, x in v.items()])
            return id(v) if not isinstance(v, (str, bool, int)) else v
        return {k: cont(v) for k, v in o.__dict__.items() if k != "merge"}

    def unchanged(self):
        return [self.snapshot(o) == s for o, _, s in self.made]

    def index(self, r):
        if r is None:
            return 0
        for i, x in self.env.res.items():
            if x is r:
                return i
        return -1

    async def deps(self, d):
        if asyncio.iscoroutine(d):
            return [-3]
        async def val(x):
            if isinstance(x, pulumi.Output):
                return await x.future()
            if asyncio.isfuture(x):
                return await x
            return x
        try:
            d = await val(d)
            if d is None:
                return []
            if isinstance(d, pulumi.Resource):
                d = [d]
            return [self.index(await val(x)) for x in d]
        except asyncio.CancelledError:  # the run failed for another reason
            return [-3]

    def project(self, o):
        """Everything but depends_on, which may need the loop."""
        ix = self.index
        provs = o.providers
        if provs is None:
            pm = []
        elif hasattr(provs, "items"):
            pm = sorted([k, ix(p)] for k, p in provs.items())
        else:
            pm = sorted([k, v] for k, v in {p.package: ix(p) for p in provs}.items())
        return {"par": ix(o.parent), "protect": tri(o.protect), "dbr": tri(o.delete_before_replace), "retain": tri(o.retain_on_delete),
                "prov": ix(o.provider), "provs": pm, "ignore": list(o.ignore_changes or []), "roc": list(o.replace_on_changes or []),
                "aso": list(o.additional_secret_outputs or []), 
                "aliases": [self.labels.get(a) for a in (o.aliases or [])], "tf": [self.labels.get(t)["id"] for t in (o.transformations or [])],
                "version": o.version or "", "url": o.plugin_download_url or "", "import": o.import_ or "", "urn": o.urn or "",
                "ct": [] if o.custom_timeouts is None else self.labels.get(o.custom_timeouts),
                "id": [] if o.id is None else [self.labels.get(o.id)]}
