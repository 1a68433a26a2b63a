"""Seeded generators for the values family: output expressions, inputs, and engine answers."""
import random

from . import gen
from .valrun import KEYS

S = lambda s: {"t": "str", "s": s}
KEYPOOL = KEYS + ["a", "b"]
CAMEL = ["abCd", "xY", "a", "b"]


class Gen:
    raw = True  # unknowns as plain values, not only within outputs
    def __init__(self, rng, dry, res, update_unknown=False):
        self.rng, self.dry, self.res = rng, dry, res
        self.n = 0

    def fid(self):
        self.n += 1
        return "f%d_%d" % (id(self) % 1000003, self.n)

    def plain(self, d):
        rng = self.rng
        k = rng.choice(["str", "str", "num", "bool", "null", "flt"] + (["list", "dict"] if d > 0 else []) + (["rawunk"] if self.dry and self.raw else []))
        return self.mk_plain(k, d)

    def mk_plain(self, k, d):
        rng = self.rng
        if k == "str":
            return {"e": "str", "s": rng.choice(["p", "q", "", "04da6b54"])}
        if k == "num":
            return {"e": "num", "n": rng.randrange(-2, 5)}
        if k == "bool":
            return {"e": "bool", "b": rng.random() < .5}
        if k == "null":
            return {"e": "null"}
        if k == "flt":
            return {"e": "flt", "s": "1.5"}
        if k == "rawunk":
            return {"e": "rawunk"}
        if k == "list":
            return {"e": "list", "l": [self.plain(d - 1) for _ in range(rng.randrange(3))]}
        ks = sorted(rng.sample(KEYPOOL, rng.randrange(3)))
        return {"e": "dict", "k": ks, "l": [self.plain(d - 1) for _ in ks]}

    def leaf(self):
        rng = self.rng
        r = {"e": "leaf", "id": self.fid(), "known": (not self.dry) or rng.random() < .7, "secret": rng.random() < .35,
             "deps": sorted(rng.sample(range(1, len(self.res) + 1), min(len(self.res), rng.choice([0, 0, 1, 1, 2])))), "now": rng.random() < .4}
        if rng.random() < .07:
            r["fail"] = True
        elif r["known"] or rng.random() < .3:
            r["v"] = self.plain(2)
            if rng.random() < .1:
                r["v"] = {"e": "obj", "v": self.plain(1)}
        return r

    def out(self, d):
        """an output"""
        rng = self.rng
        if d <= 0:
            x = rng.random()
            if self.res and x < .4:
                r = rng.randrange(len(self.res)) + 1
                rec = self.res[r - 1]
                ps = [n for n, _ in rec["props"]] + ["urn"] + (["id"] if rec["kind"] not in ("comp", "rcomp") else [])
                if rec["kind"] in ("comp", "rcomp"):
                    ps = ["urn"]
                return {"e": "out", "r": r, "p": rng.choice(ps)}
            return self.leaf()
        k = rng.choice(["secret", "unsecret", "from", "from", "all", "all", "alln", "concat", "idx", "attr", "apply", "apply", "apply", "apply", "out"])
        if k in ("secret", "from"):
            return {"e": k, "v": self.inp(d - 1)}
        if k == "unsecret":
            return {"e": k, "v": self.out(d - 1)}
        if k == "all":
            return {"e": k, "l": [self.inp(d - 1) for _ in range(rng.randrange(1, 4))]}
        if k == "alln":
            ks = sorted(rng.sample(KEYPOOL, rng.randrange(1, 3)))
            return {"e": k, "k": ks, "l": [self.inp(d - 1) for _ in ks]}
        if k == "concat":
            return {"e": k, "l": [self.strout(d - 1) for _ in range(rng.randrange(1, 4))]}
        if k == "idx":
            if rng.random() < .6:
                b = {"e": "from", "v": {"e": "list", "l": [self.inp(d - 2) for _ in range(2)]}} if rng.random() < .7 else self.out(d - 1)
                if rng.random() < .3:
                    b = {"e": "apply", "id": self.fid(), "v": self.out(d - 2), "f": "wrap"}
                return {"e": "idx", "v": b, "n": rng.choice([0, 0, 1])}
            ks = sorted(rng.sample(KEYPOOL, 2))
            b = {"e": "alln", "k": ks, "l": [self.inp(d - 2) for _ in ks]} if rng.random() < .8 else self.out(d - 1)
            return {"e": "idx", "v": b, "i": rng.choice(ks)}
        if k == "attr":
            b = self.leaf()
            if not b.get("fail") and "v" in b and rng.random() < .8:
                b["v"] = {"e": "obj", "v": self.plain(1)}
            if rng.random() < .3:
                b = {"e": "apply", "id": self.fid(), "v": b, "f": "ident", "rwu": rng.random() < .5}
            return {"e": "attr", "v": b, "i": "a"}
        if k == "apply":
            f = rng.choice(["ident", "ident", "wrap", "const", "pair", "pair", "nested", "await", "outof"] + (["raise", "awraise"] if rng.random() < .25 else []))
            e = {"e": "apply", "id": self.fid(), "v": self.out(d - 1), "f": f, "rwu": rng.random() < .3}
            if f == "const":
                e["w"] = self.plain(1)
            if f == "await" and rng.random() < .6:
                e["later"] = True
            if f == "pair":
                e["w"] = self.out(d - 1)
            if f == "nested":
                e["w"] = {"e": "list", "l": [self.out(d - 2), self.plain(0)]} if rng.random() < .5 else {"e": "dict", "k": ["a"], "l": [self.out(d - 2)]}
            return e
        return self.out(0)

    def strout(self, d):
        rng = self.rng
        x = rng.random()
        if x < .4:
            return {"e": "str", "s": rng.choice(["u", "v", "w"])}
        if x < .9:
            e = self.leaf()
            if "v" in e:
                e["v"] = {"e": "str", "s": rng.choice(["m", "n"])}
            return e
        return self.inp(d)

    def inp(self, d, root=False):
        """anything that can be an input; root: not inside any output"""
        rng = self.rng
        k = rng.choice(["out"] * 5 + ["plain"] * 2 + (["list", "dict", "aw", "list", "dict"] if d > 0 else []) + ["asset", "arch"] * (rng.random() < .2) + ["res"] * bool(self.res))
        if k == "out":
            return self.out(d)
        if k == "plain":
            return self.plain(1)
        if k == "list":
            return {"e": "list", "l": [self.inp(d - 1, root) for _ in range(rng.randrange(4))], "form": root and rng.random() < .25}
        if k == "dict":
            ks = sorted(rng.sample(KEYPOOL, rng.randrange(4)))
            return {"e": "dict", "k": ks, "l": [self.inp(d - 1, root) for _ in ks], "form": root and rng.random() < .25}
        if k == "aw":
            return {"e": "aw", "id": self.fid(), "v": self.inp(d - 1, root), "now": rng.random() < .3, "coro": rng.random() < .4}
        if k == "res":
            return {"e": "res", "r": rng.randrange(len(self.res)) + 1}
        return self.blob(k)

    def blob(self, k):
        rng = self.rng
        st = {"e": "str", "s": rng.choice(["/x", "t"])}
        if k == "asset":
            return {"e": "asset", "a": rng.choice(["path", "text", "uri"]), "v": st}
        if rng.random() < .5:
            return {"e": "arch", "a": rng.choice(["path", "uri"]), "v": st}
        ks = sorted(rng.sample(["a", "b", "ab_cd"], rng.randrange(1, 3)))
        return {"e": "arch", "a": "assets", "v": {"e": "dict", "k": ks, "l": [self.blob(rng.choice(["asset", "asset", "arch"])) for _ in ks]}}


REBUILT = ["urn:pulumi:s::p::reg:m:T::z1", "urn:pulumi:s::p::reg:m:T::z2"]


def wirev(rng, d, dry, tr=False, blob=True):
    """an engine's answer for a property"""
    ks = ["str", "str", "num", "bool", "null"] + (["unk"] if dry or rng.random() < .2 else [])
    if d > 0:
        ks += ["list", "list", "dict", "dict", "sec", "sec"]
    if blob and rng.random() < .25:
        ks += ["asset", "arch", "ref", "ref"]
    k = rng.choice(ks)
    if k == "str":
        return S(rng.choice(["p", "q", "S1"]))
    if k == "num":
        return {"t": "num", "n": rng.randrange(3)}
    if k == "bool":
        return {"t": "bool", "b": rng.random() < .5}
    if k in ("null", "unk"):
        return {"t": k}
    if k == "list":
        return {"t": "list", "l": [wirev(rng, d - 1, dry, tr) for _ in range(rng.randrange(4))]}
    if k == "dict":
        ns = sorted(rng.sample((CAMEL if tr else KEYPOOL) + ["__x", "__provider"], rng.randrange(4)))
        return {"t": "dict", "k": ns, "l": [wirev(rng, d - 1, dry, tr) for _ in ns]}
    if k == "sec":
        return {"t": "sec", "v": wirev(rng, d - 1, dry, tr)}
    if k == "asset":
        return {"t": "asset", "a": rng.choice(["path", "text", "uri"]), "v": S("t")}
    if k == "ref" and rng.random() < .5:
        return {"t": "res", "reg": True, "urn": S(rng.choice(REBUILT)), "id": {"t": "none"}}
    if k == "ref":
        return {"t": "res", "urn": S("urn:pulumi:stk::prj::nobody:m:T::z"), "id": rng.choice([{"t": "none"}, S("zid"), S(""), {"t": "unk"}])}
    if rng.random() < .5:
        return {"t": "arch", "a": rng.choice(["path", "uri"]), "v": S("t")}
    ns = sorted(rng.sample(["a", "b"], rng.randrange(1, 3)))
    return {"t": "arch", "a": "assets", "v": {"t": "dict", "k": ns, "l": [{"t": "asset", "a": "text", "v": S("t")} for _ in ns]}}


def malformed(rng):
    """answers that cannot be decoded"""
    bad = rng.choice([{"t": "asset", "a": "nothing", "v": S("t")}, {"t": "arch", "a": "nothing", "v": S("t")},
                      {"t": "rawsig", "s": "0123"}, {"t": "res", "urn": S("not a urn"), "id": {"t": "none"}},
                      {"t": "res", "urn": {"t": "num", "n": 1}, "id": S("z")},
                      {"t": "sec", "v": {"t": "asset", "a": "nothing", "v": S("t")}}, {"t": "rawsec"}])
    for _ in range(rng.randrange(3)):
        bad = rng.choice([{"t": "list", "l": [S("p"), bad]}, {"t": "dict", "k": ["a"], "l": [bad]}, {"t": "sec", "v": bad}])
    return bad


def bases(rng, dry, n, rich=False, mal=0.0):
    out = []
    for i in range(1, n + 1):
        kind = rng.choice(["cust", "cust", "cust", "comp", "rcomp", "read", "get"])
        tr = kind in ("cust", "read") and rng.random() < .3
        names = ["ab_cd" if tr else "p", "q", "u"]
        props = []
        for p in names:
            e = rng.choice([{"e": "str", "s": "i"}, {"e": "secret", "v": {"e": "str", "s": "S2"}}, {"e": "num", "n": i},
                            {"e": "dict", "k": ["x_y"], "l": [{"e": "secret", "v": {"e": "str", "s": "S2"}}]},
                            {"e": "list", "l": [{"e": "str", "s": "i"}, {"e": "null"}]}, {"e": "null"}])
            props.append([p, e])
        r = gen.base(kind, "r%d" % i, props=props)
        if tr:
            r["tr"] = True
        wk, wl = [], []
        for p in sorted({"abCd" if p == "ab_cd" else p for p in names}):
            if rng.random() < .75:
                wk.append(p)
                wl.append(wirev(rng, 3 if rich else 2, dry, tr, blob=rich))
        if rng.random() < .2:
            wk.append("__internal")
            wl.append(S("z"))
        r["outs"] = {"t": "dict", "k": wk, "l": wl}
        if kind == "comp":
            r["props"] = []
        if mal and rng.random() < mal and kind in ("cust", "rcomp", "read", "get"):
            r["malformed"] = True
            wk.append("zz")
            wl.append(malformed(rng))
            if kind == "get" and rng.random() < .4:
                r["badget"] = rng.sample(["urn", "id", "state"], rng.randrange(1, 3))
        if kind == "cust" and dry and rng.random() < .5:
            r["engid"] = ""
        if kind == "read":
            r["id"] = {"e": "str", "s": "rid%d" % i}
        if kind == "get":  # lookups have no inputs: only the names of what is wanted
            r["urn"] = gen.urn_of(out, r)
            r["props"] = [[p, {"e": "null"}] for p in names]
        if kind in ("cust", "rcomp") and rng.random() < .3:
            r["rpcdeps"] = [[rng.choice(["abCd" if tr else "p", "q"]), rng.choice([["z1"], ["z1", "z2"], []])]]
        out.append(r)
    return out


FEATS = [{"secrets": a, "resourceReferences": b, "outputValues": c} for a in (True, True, False) for b in (True, False) for c in (True, False)]


def item(rng, nexpr=6, depth=3):
    dry = rng.random() < .5
    res = bases(rng, dry, rng.randrange(1, 4))
    g = Gen(rng, dry, res)
    ex = []
    for _ in range(nexpr):
        if rng.random() < .45:
            ex.append({"e": g.out(rng.randrange(1, depth + 1)), "as": ["den"]})
        elif rng.random() < .4:
            ex.append({"e": g.out(rng.randrange(1, depth + 1)), "as": ["den"] + [rng.choice(["cust", "rcomp", "custtr"])]})
        else:
            ex.append({"e": g.inp(rng.randrange(1, depth + 1), True), "as": [rng.choice(["cust", "rcomp", "custtr", "rcomp"])]})
    return {"dry": dry, "feats": rng.choice(FEATS), "res": res, "exprs": ex, "settled": rng.random() < .3}


def answers_item(rng, mal=0.0):
    """resources only: rich answers"""
    dry = rng.random() < .5
    return {"dry": dry, "feats": rng.choice(FEATS), "res": bases(rng, dry, rng.randrange(3, 6), rich=True, mal=mal), "exprs": [], "settled": True}
