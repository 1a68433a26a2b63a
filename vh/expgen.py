"""Seeded generator for the exports family."""
from . import gen, valgen
from .valgen import Gen, S, wirev

NAMES = ["pub", "sec", "mix", "nul", "unk"]


class XGen(Gen):
    nshared, raw = 0, False

    def exp(self, d):
        """what can be exported"""
        rng = self.rng
        k = rng.choice(["inp"] * 4 + ["list", "dict", "obj", "res", "res"] * (d > 0) + ["sh", "sh", "shleaf"] * bool(self.nshared))
        if k == "inp":
            e = self.inp(d, False)
            return e
        if k == "list":
            return {"e": "list", "l": [self.exp(d - 1) for _ in range(rng.randrange(4))]}
        if k == "dict":
            ks = sorted(rng.sample(valgen.KEYPOOL + ["_hid", "__hid"], rng.randrange(4)))
            return {"e": "dict", "k": ks, "l": [self.exp(d - 1) for _ in ks]}
        if k == "obj":
            return {"e": "obj", "v": self.exp(d - 1)}
        if k == "res":
            return {"e": "res", "r": rng.randrange(len(self.res)) + 1}
        sh = {"e": "sh", "i": rng.randrange(self.nshared) + 1}
        if k == "sh":
            return sh
        return {"e": "leaf", "id": self.fid(), "known": True, "secret": rng.random() < .4, "deps": [], "now": rng.random() < .4, "v": sh}

    def sharedx(self, d):
        """a member of a shared object"""
        rng = self.rng
        k = rng.choice(["str", "num", "null", "leaf", "sh", "sh", "res"] + ["list", "dict"] * (d > 0))
        if k in ("str", "num", "null"):
            return self.mk_plain(k, 0)
        if k == "leaf":
            return {"e": "leaf", "id": self.fid(), "known": not self.dry or rng.random() < .7, "secret": rng.random() < .4, "deps": [], "now": rng.random() < .4,
                    "v": {"e": "str", "s": "S2"}}
        if k == "sh":
            return {"e": "sh", "i": rng.randrange(self.nshared) + 1}
        if k == "res":
            return {"e": "res", "r": rng.randrange(len(self.res)) + 1}
        if k == "list":
            return {"e": "list", "l": [self.sharedx(d - 1) for _ in range(rng.randrange(3))]}
        ks = sorted(rng.sample(valgen.KEYPOOL, rng.randrange(3)))
        return {"e": "dict", "k": ks, "l": [self.sharedx(d - 1) for _ in ks]}

    def shared(self, n):
        self.nshared = n
        out = []
        for _ in range(n):
            k = self.rng.choice(["list", "dict", "obj"])
            if k == "list":
                out.append({"e": "list", "l": [self.sharedx(1) for _ in range(self.rng.randrange(1, 3))]})
            elif k == "dict":
                ks = sorted(self.rng.sample(valgen.KEYPOOL + ["_hid"], self.rng.randrange(1, 3)))
                out.append({"e": "dict", "k": ks, "l": [self.sharedx(1) for _ in ks]})
            else:
                out.append({"e": "obj", "v": self.sharedx(1)})
        return out


def sref(rng, dry, i):
    r = gen.base("sref", "s%d" % i, type="pulumi:pulumi:StackReference", pk="pulumi")
    r["target"] = rng.choice(["", "org/p/other"])
    r["props"] = [["name", {"e": "str", "s": r["target"] or r["name"]}], ["outputs", {"e": "null"}], ["secret_output_names", {"e": "null"}]]
    ks = sorted(rng.sample(NAMES, rng.randrange(0, 5)))
    ls = []
    for k in ks:
        v = {"pub": S("p"), "sec": {"t": "sec", "v": S("S1")}, "mix": {"t": "dict", "k": ["a"], "l": [{"t": "sec", "v": S("S1")}]}, "nul": {"t": "null"},
             "unk": {"t": "unk"} if dry else {"t": "list", "l": [S("p"), {"t": "num", "n": 1}]}}[k]
        ls.append(v if rng.random() < .8 else wirev(rng, 2, dry, blob=False) if dry else S("z"))
    outs = {"t": "dict", "k": ks, "l": ls}
    if rng.random() < .15:
        outs = {"t": "sec", "v": outs}
    elif dry and rng.random() < .1:
        outs = {"t": "unk"}
    wk, wl = ["name", "outputs"], [S("x"), outs]
    x = rng.random()
    if x < .65:
        wk.append("secretOutputNames")
        names = sorted(rng.sample(NAMES, rng.randrange(0, 4)))
        wl.append({"t": "list", "l": [S(n) for n in names]})
        if rng.random() < .1:
            wl[-1] = {"t": "sec", "v": wl[-1]}
    elif x < .75:
        wk.append("secretOutputNames")
        wl.append({"t": "null"})
    elif dry and x < .85:
        wk.append("secretOutputNames")
        wl.append({"t": "unk"})
    if rng.random() < .05:
        wk.remove("outputs")
        wl.pop(1)
    r["outs"] = {"t": "dict", "k": wk, "l": wl}
    return r


def item(rng, focus="exports"):
    dry = rng.random() < .5
    res = valgen.bases(rng, dry, rng.randrange(1, 4))
    for r in res:
        r["par"] = 0
        if r["kind"] == "comp":
            r["props"] = []
    nsref = rng.randrange(1, 3) if focus == "sref" else rng.random() < .2
    for i in range(int(nsref)):
        res.append(sref(rng, dry, i))
    g = XGen(rng, dry, res)
    if focus == "features":  # resources whose inputs use what engines may lack
        for j in range(rng.randrange(1, 3)):
            kind = rng.choice(["cust", "cust", "rcomp", "read"])
            e = g.inp(rng.randrange(1, 3), False)
            res.append(gen.base(kind, "u%d" % j, props=[["x", e]], outs={"t": "dict", "k": [], "l": []}))
            if kind == "read":
                res[-1]["id"] = {"e": "str", "s": "rid"}
    for r in res:
        if rng.random() < .3 and r["kind"] != "sref":
            r["attrs"] = [["peer", {"e": "res", "r": rng.randrange(len(res)) + 1}]]
            if rng.random() < .3:
                r["attrs"].append(["_priv", {"e": "str", "s": "z"}])
            if rng.random() < .3:
                r["attrs"].append(["data", {"e": "list", "l": [{"e": "str", "s": "z"}, {"e": "res", "r": rng.randrange(len(res)) + 1}]}])
    shared = g.shared(rng.randrange(1, 4)) if focus == "exports" and rng.random() < .5 else []
    exports, gets, regouts, logs = [], [], [], []
    names = ["e%d" % i for i in range(4)] + ["_hid"]
    if focus in ("exports", "features"):
        for _ in range(rng.randrange(0, 5)):
            e = g.exp(rng.randrange(0, 3))
            exports.append([rng.choice(names), e])
        for i, r in enumerate(res, 1):
            if r["kind"] == "comp" and rng.random() < .5:
                regouts.append([i, [[k, g.inp(rng.randrange(0, 3), False)] for k in sorted(rng.sample(valgen.KEYPOOL, rng.randrange(0, 3)))]])
    if nsref:
        for i, r in enumerate(res, 1):
            if r["kind"] == "sref":
                for _ in range(rng.randrange(1, 4)):
                    x = rng.random()
                    nm = {"e": "str", "s": rng.choice(NAMES)}
                    if x < .3:
                        nm = {"e": "leaf", "id": g.fid(), "known": not dry or rng.random() < .6, "secret": rng.random() < .4, "deps": [1] if rng.random() < .5 else [],
                              "now": rng.random() < .4, "v": nm}
                    elif x < .4:
                        nm = {"e": "aw", "id": g.fid(), "v": nm, "now": rng.random() < .4, "coro": rng.random() < .4}
                    gets.append({"what": "get", "r": i, "name": nm, "required": rng.random() < .4})
                gets.append({"what": rng.choice(["outputs", "secret_output_names"]), "r": i, "name": {"e": "null"}, "required": False})
    if focus == "logs" or rng.random() < .15:
        for j in range(rng.randrange(1, 5)):
            at = rng.randrange(0, len(res) + 1)
            upto = len(res) if at == 0 else at - 1
            logs.append({"fn": rng.choice(["debug", "info", "warn", "error"]), "msg": "L:" + rng.choice(["one", "two", "", "l\u00f6ng\n" * 3]), "at": at,
                         "res": rng.randrange(0, upto + 1), "stream": rng.choice([None, None, 0, 7]), "eph": rng.choice([None, True, False])})
        if focus == "logs" and rng.random() < .25:
            r = rng.choice(res)
            if r["kind"] in ("cust", "rcomp", "comp") and not any(x.get("attrs") for x in res):
                r["fail"] = True
                exports, gets, regouts = [], [], []
    feats = dict(rng.choice(valgen.FEATS))
    for k in feats:
        if not feats[k] and rng.random() < .4:
            feats[k] = "unimplemented"
        elif focus == "features" and rng.random() < .06:
            feats[k] = "error"
    return {"dry": dry, "feats": feats, "res": res, "shared": shared, "exports": exports, "gets": gets, "regouts": regouts, "logs": logs,
            "raise": rng.random() < .1}
