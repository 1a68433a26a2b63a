"""Seeded generator for the provider family."""
from . import gen, valgen
from .valgen import Gen, S, wirev

EXT = ["urn:pulumi:s::p::ext:m:T::z%d" % i for i in range(3)]
PREF = [["pk", "urn:pulumi:s::p::pulumi:providers:pk::p1::id1"], ["pk2", "urn:pulumi:s::p::pulumi:providers:pk2::p2::id2"]]


def nounk(w, y):
    if w["t"] == "unk":
        return y
    if w["t"] == "outv":
        return dict(w, known=True, v=nounk(w["v"], y) if w["known"] else S("p"))
    if w["t"] == "res" and w["id"] == S(""):
        w = dict(w, id=S("zid"))
    for f in ("v", "id"):
        if isinstance(w.get(f), dict):
            w = dict(w, **{f: nounk(w[f], S("zid"))})
    if "l" in w:
        w = dict(w, l=[nounk(x, y) for x in w["l"]])
    return w


def plainv(rng, d, dry):
    k = rng.choice(["str", "num", "null"] + ["unk"] * dry + ["list", "dict"] * (d > 0))
    if k == "str":
        return S(rng.choice(["p", "q"]))
    if k == "num":
        return {"t": "num", "n": rng.randrange(3)}
    if k in ("null", "unk"):
        return {"t": k}
    if k == "list":
        return {"t": "list", "l": [plainv(rng, d - 1, dry) for _ in range(rng.randrange(3))]}
    ks = sorted(rng.sample(valgen.KEYPOOL, rng.randrange(3)))
    return {"t": "dict", "k": ks, "l": [plainv(rng, d - 1, dry) for _ in ks]}


def outv(rng, dry):
    known = not dry or rng.random() < .7
    return {"t": "outv", "known": known, "secret": rng.random() < .4, "deps": sorted(rng.sample(EXT, rng.choice([0, 1, 1, 2]))),
            "v": plainv(rng, 1, dry) if known else {"t": "null"}}


def inputv(rng, d, dry):
    """an input: either as engines without output values send it, or with output values inside"""
    if rng.random() < .6:
        w = wirev(rng, d, dry)
        return w if dry else nounk(w, S("p"))
    return withouts(rng, d, dry)


def depson(rng, w):
    """what the engine says an input depends on: if it is a resource, on that one at least"""
    if w.get("reg"):
        return sorted([w["urn"]["s"]] + rng.sample(EXT, rng.choice([0, 0, 1])))
    return sorted(rng.sample(EXT + valgen.REBUILT, rng.randrange(1, 3)))


def withouts(rng, d, dry):
    k = rng.choice(["outv", "plain"] + ["list", "dict"] * (d > 0))
    if k == "outv":
        return outv(rng, dry)
    if k == "plain":
        return plainv(rng, 0, dry)
    if k == "list":
        return {"t": "list", "l": [withouts(rng, d - 1, dry) for _ in range(rng.randrange(3))]}
    ks = sorted(rng.sample(valgen.KEYPOOL, rng.randrange(3)))
    return {"t": "dict", "k": ks, "l": [withouts(rng, d - 1, dry) for _ in ks]}


class PGen(Gen):
    raw = False
    keys = ()

    def given(self):
        return {"e": "in", "k": self.rng.choice(self.keys)}

    def inp(self, d, root=False):
        rng = self.rng
        if self.keys and rng.random() < .4:
            x = self.given()
            k = rng.random()
            if d > 0 and k < .2:
                return {"e": "list", "l": [x, {"e": "str", "s": "p"}]}
            if d > 0 and k < .4:
                return {"e": "from", "v": x}
            if d > 0 and k < .5:
                return {"e": "secret", "v": x}
            return x
        return super().inp(d, root)


def req(rng, j, light=False):
    dry = rng.random() < .5
    kind = rng.choice(["construct", "construct", "call"])
    name = "n%d" % j
    x = {"kind": kind, "name": name, "type": "pk:m:Comp", "dry": dry, "project": rng.choice(["prj", "p2", ""]), "stack": rng.choice(["dev", "prod", ""]),
         "parallel": rng.choice([0, 4]), "feats": rng.choice(valgen.FEATS), "together": rng.random() < .4}
    ks = rng.sample(["prj:a", "prj:b", "other:a"], rng.randrange(4))
    x["config"] = [[k, "%s-%d" % (k, j)] for k in ks]
    x["secretkeys"] = rng.sample(["prj:a", "prj:b", "other:a"], rng.randrange(3))
    names = rng.sample(["a", "b", "ab_cd", "x_y", "__self__" if kind == "call" else "__hid"], rng.randrange(0, 4))
    names.sort()
    x["inputs"] = {"t": "dict", "k": names, "l": [inputv(rng, 2, dry) for _ in names]}
    x["deps"] = [[n, depson(rng, w)] for n, w in zip(x["inputs"]["k"], x["inputs"]["l"]) if rng.random() < (.8 if w.get("reg") else .4)]
    x.update(parent=rng.choice(["", EXT[0]]), protect=rng.random() < .3, providers=rng.sample(PREF, rng.randrange(3)),
             aliases=rng.sample(["urn:pulumi:s::p::old:m:T::a%d" % i for i in range(2)], rng.randrange(3)), dependencies=rng.sample(EXT, rng.randrange(3)))
    res = []
    if kind == "construct":
        res.append(gen.base("comp", name, type=x["type"]))
    g = PGen(rng, dry, res)
    g.keys = names
    for i in range(rng.randrange(0, 4)):
        g.res = [] if not res[1:] and kind == "construct" else res
        e = child_exp(g, rng)
        r = gen.base("cust", "%s-c%d" % (name, i), type=rng.choice(["pk:m:R", "pk2:m:R", "pk3:m:R"]), props=[["x", e]])
        outs = wirev(rng, 2, dry)
        outs = outs if dry else nounk(outs, S("p"))
        r["outs"] = {"t": "dict", "k": ["x"] if rng.random() < .7 else [], "l": []}
        r["outs"]["l"] = [outs] * len(r["outs"]["k"])
        if dry and rng.random() < .3:
            r["engid"] = ""
        if rng.random() < .12:
            r["fail"] = True
        res.append(r)
    x["res"] = res
    g.res = res
    x["state"] = [[k, g.inp(2, False)] for k in sorted(rng.sample(["a", "ab_cd", "id", "urn", "z"], rng.randrange(4)))]
    x["raise"] = rng.choice([""] * 12 + ["early", "mid", "late"])
    x["failures"] = [["p%d" % i, "why%d" % i] for i in range(rng.choice([0, 0, 0, 1, 2]))] if kind == "call" else []
    return x


def child_exp(g, rng):
    """what a child is given: inputs of the request, values, outputs of earlier children (not of the component above them)"""
    if g.res and g.res[0]["kind"] == "comp":
        for _ in range(20):
            e = g.inp(2, False)
            if not uses(e, 1):
                return e
        return {"e": "str", "s": "p"}
    return g.inp(2, False)


def uses(e, i):
    if e["e"] in ("out", "res") and e["r"] == i or e["e"] == "leaf" and i in e.get("deps", []):
        return True
    return any(uses(e[f], i) for f in ("v", "w") if isinstance(e.get(f), dict)) or any(uses(y, i) for y in e.get("l", []))


def item(rng, n=4):
    return {"schema": rng.choice([None, "{\"name\":\"pk\"}"]), "reqs": [req(rng, j) for j in range(rng.randrange(1, n + 1))]}


def plan_item(h, rng):
    """What Gen_ProviderServer emits: requests that make resources, some of which are refused or have inputs that fail, or whose code fails."""
    reqs = []
    for j, p in enumerate(h["plan"]):
        x = req(rng, j)
        name = x["name"]
        comp = x["kind"] == "construct"
        x.update(inputs={"t": "dict", "k": [], "l": []}, deps=[], state=[], failures=[])
        if comp:
            x["state"] = [["a", {"e": "str", "s": "p"}]] if rng.random() < .5 else []
        res = [gen.base("comp", name, type=x["type"])] if comp else []
        for i in range(1, p["n"] + 1):
            e = {"e": "leaf", "id": "f%d_%d" % (j, i), "known": True, "secret": False, "deps": [], "now": rng.random() < .5, "fail": True} if i in p["broken"] \
                else {"e": "str", "s": "p"}
            r = gen.base("cust", "%s-c%d" % (name, i), type="pk:m:R", props=[["x", e]], outs={"t": "dict", "k": [], "l": []})
            if i in p["refused"]:
                r["fail"] = True
            res.append(r)
        x["res"] = res
        x["broken"] = [i + comp for i in p["broken"]]
        x["raise"] = rng.choice(["early", "mid", "late"]) if p["raises"] else ""
        reqs.append(x)
    return {"schema": None, "reqs": reqs}
