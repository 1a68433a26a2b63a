"""Seeded generator for the calls family."""
from . import gen
from .valgen import FEATS, Gen, S, wirev

KEYPOOL = ["ab_cd", "x_y", "a", "b"]


def bases(rng, dry):
    res = []
    for i in range(1, rng.randrange(1, 3) + 1):
        r = gen.base("prov", "p%d" % i, pk=rng.choice(["pk", "pk", "pk2"]))
        r["par"] = 0
        if dry and rng.random() < .3:
            r["engid"] = ""
        if rng.random() < .12:
            r["fail"] = True
        res.append(r)
    provs = list(range(1, len(res) + 1))
    comps = []
    for i in range(rng.randrange(0, 3)):
        r = gen.base(rng.choice(["comp", "comp", "rcomp"]), "c%d" % i, pk=rng.choice(["pk", "pk2"]))
        good = [p for p in provs if not res[p - 1].get("fail")]
        if good and rng.random() < .7:
            r["provs"] = sorted(rng.sample(good, 1))
        if comps and rng.random() < .6:
            r["par"] = rng.choice(comps)
        res.append(r)
        comps.append(len(res))
    for i in range(rng.randrange(1, 4)):
        r = gen.base("cust", "r%d" % i, pk=rng.choice(["pk", "pk", "pk2"]))
        r["props"] = [["p", rng.choice([{"e": "str", "s": "i"}, {"e": "secret", "v": {"e": "str", "s": "S2"}}])], ["q", {"e": "null"}]]
        r["outs"] = {"t": "dict", "k": ["p", "q"], "l": [wirev(rng, 2, dry, blob=False), wirev(rng, 1, dry, blob=False)]}
        mine = [p for p in provs if res[p - 1]["pkg"] == r["pkg"] and not res[p - 1].get("fail")]
        if mine and rng.random() < .5:
            r["prov"] = rng.choice(mine)
        if comps and rng.random() < .5:
            r["par"] = rng.choice(comps)
        if rng.random() < .4:
            r["version"] = "1.%d.0" % i
        if rng.random() < .3:
            r["url"] = "http://u%d" % i
        if dry and rng.random() < .4:
            r["engid"] = ""
        res.append(r)
    return res


def opts(rng, res, j, depth=2):
    x = rng.random()
    if x < .15:
        return {"k": "none"}
    if x < .3 and j > 0:
        return {"k": "same", "j": rng.randrange(j) + 1}
    if x < .5 and depth > 0:
        return {"k": "merge", "a": opts(rng, res, 0, depth - 1), "b": opts(rng, res, 0, depth - 1), "form": rng.random() < .5}
    provs = [i for i, r in enumerate(res, 1) if r["kind"] == "prov"]
    others = [i for i, r in enumerate(res, 1) if r["kind"] != "prov"]
    return {"k": "opts", "par": rng.choice(others) if others and rng.random() < .5 else 0, "prov": rng.choice(provs) if rng.random() < .35 else 0,
            "version": rng.choice(["", "", "1.0.0", "2.0.0"]), "url": rng.choice(["", "", "http://a", "http://b"])}


def ret(rng, dry, kind):
    # in an update everything the engine answers is known; invocations are answered in plain data or with secrets
    ks = sorted(rng.sample(KEYPOOL + ["__z", "__provider"], rng.randrange(0, 4)))
    def clean(w):
        if w["t"] == "unk" and not dry:
            return S("k")
        if "l" in w:
            return dict(w, l=[clean(y) for y in w["l"]])
        if w["t"] == "sec":
            return dict(w, v=clean(w["v"]))
        if w["t"] == "res":
            return dict(w, id=clean(w["id"]))
        return w
    return {"t": "dict", "k": ks, "l": [clean(wirev(rng, 2, dry)) for _ in ks]}


def item(rng, ncalls=4):
    dry = rng.random() < .5
    res = bases(rng, dry)
    usable = [i for i, r in enumerate(res, 1) if not r.get("fail")]
    g = Gen(rng, dry, res)
    calls = []
    for j in range(rng.randrange(1, ncalls + 1)):
        kind = rng.choice(["invoke", "invoke", "call"])
        pkg = rng.choice(["pk", "pk", "pk2"])
        ks = sorted(rng.sample(KEYPOOL, rng.randrange(0, 4)))
        def arg():
            for _ in range(20):
                e = g.inp(rng.randrange(0, 3), True)
                if not refers_failed(e, res):
                    return e
            return {"e": "str", "s": "z"}
        a = {"ret": ret(rng, dry, kind), "failures": [], "err": "", "rdeps": []}
        x = rng.random()
        if x < .1:
            a["failures"] = [[rng.choice(["", "ab_cd"]), "why%d" % j]] + [["b", "also%d" % j]] * (rng.random() < .4)
        elif x < .17:
            a["err"] = "broke%d" % j
        elif kind == "call" and rng.random() < .6:
            a["rdeps"] = [[k, rng.choice([["z1"], ["z1", "z2"], []])] for k in a["ret"]["k"] if not k.startswith("__z")]
        calls.append({"kind": kind, "tok": "%s:m:f%d" % (pkg, j), "pkg": pkg, "args": {"e": "dict", "k": ks, "l": [arg() for _ in ks], "form": False},
                      "o": opts(rng, res, j) if kind == "invoke" else {"k": "none"},
                      "self": rng.choice([0] + [i for i in usable if res[i - 1]["kind"] != "prov"]) if kind == "call" else 0,
                      "ans": a, "at": rng.choice([0, 0] + usable)})
    # options given to a call are shared only among invocations
    for x in calls:
        if x["o"]["k"] == "same" and calls[x["o"]["j"] - 1]["kind"] != "invoke":
            x["o"] = {"k": "none"}
    return {"dry": dry, "feats": rng.choice(FEATS), "res": res, "calls": calls, "noref": rng.random() < .1, "settled": rng.random() < .4}


def refers_failed(e, res):
    if not isinstance(e, dict):
        return False
    if e.get("e") in ("out", "res") and res[e["r"] - 1].get("fail"):
        return True
    if e.get("e") == "leaf" and any(res[i - 1].get("fail") for i in e.get("deps", [])):
        return True
    return any(refers_failed(e.get(k), res) for k in ("v", "w")) or any(refers_failed(y, res) for y in e.get("l", []))
