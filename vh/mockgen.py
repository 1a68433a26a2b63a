"""Seeded generator for the mocks family."""
from . import gen, valgen


class MGen(valgen.Gen):
    raw = False

    def leaf(self):
        for _ in range(4):
            r = super().leaf()
            if not r.get("fail"):
                break
        return r

    def answer(self, d=1):
        """what a mock returns for a property"""
        rng = self.rng
        e = self.plain(d)
        k = rng.random()
        if k < .25:
            return {"e": "secret", "v": e}
        if k < .35:
            return {"e": "list", "l": [e, {"e": "secret", "v": self.plain(0)}]}
        if k < .42:
            return self.blob(rng.choice(["asset", "arch"]))
        return e


def waits(e):
    """the resources an expression mentions"""
    if isinstance(e, dict):
        out = {e["r"]} if "r" in e and isinstance(e["r"], int) else set()
        for k, v in e.items():
            out |= set(v) if k == "deps" else waits(v)
        return out
    if isinstance(e, list):
        return set().union(*map(waits, e)) if e else set()
    return set()


def cyclic(res):
    """whether a resource would wait for itself: what mentions a component waits for all of its descendants (KF-C08-1)"""
    n = len(res)
    kids = {i: [j for j in range(1, n + 1) if res[j - 1].get("par") == i] for i in range(1, n + 1)}
    under = lambda i: {i}.union(*[under(j) for j in kids[i]])
    w = {i: set().union(*[under(d) for d in waits(res[i - 1]["props"])], {res[i - 1].get("par", 0)} - {0}) for i in range(1, n + 1)}
    seen, busy = set(), set()

    def dfs(i):
        if i in busy:
            return True
        if i in seen:
            return False
        busy.add(i)
        r = any(dfs(j) for j in w[i])
        busy.discard(i)
        seen.add(i)
        return r
    return any(dfs(i) for i in range(1, n + 1))


def item(rng):
    while True:
        it = item_(rng)
        if not cyclic(it["res"]):
            return it


def item_(rng):
    dry = rng.choice([True, False, False, None])
    g = MGen(rng, bool(dry), [])
    res = []
    for i in range(1, rng.randrange(2, 6)):
        kind = rng.choice(["cust", "cust", "cust", "comp", "read", "prov"])
        g.res = res
        r = gen.base(kind, "r%d" % i, type={"prov": "pulumi:providers:pk"}.get(kind, rng.choice(["pk:m:A", "pk:m:B"])))
        ps = rng.sample(["p", "q", "ab_cd"], rng.randrange(1, 4)) if kind != "comp" else []
        r["props"] = [[p, g.inp(2)] for p in sorted(ps)] if kind != "prov" else [["p", g.plain(0)]]
        comps = [j for j, x in enumerate(res, 1) if x["kind"] == "comp"]
        if comps and rng.random() < .5:
            r["par"] = rng.choice(comps)
        provs = [j for j, x in enumerate(res, 1) if x["kind"] == "prov"]
        if provs and kind in ("cust", "read") and rng.random() < .6:
            r["prov"] = rng.choice(provs)
        if kind == "read":
            r["id"] = {"e": "str", "s": "rid%d" % i}
        if kind == "cust" and dry and rng.random() < .3:
            r["engid"] = ""
        r["echo"] = rng.random() < .5
        r["state"] = [[p, g.answer()] for p in sorted(rng.sample(["p", "q", "u", "ab_cd"], rng.randrange(3)))]
        if rng.random() < .06:
            r["mockfail"] = True
        res.append(r)
    g.res = res
    gets = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        gets.append({"of": rng.choice([0] + list(range(1, len(res) + 1)) * 4), "props": ["p", "u"]})
    calls = []
    for j in range(rng.choice([0, 0, 1, 2])):
        form = rng.choice(["dict", "tuple", "none"])
        calls.append({"tok": "pk:m:f%d" % j, "args": [[k, g.inp(1)] for k in sorted(rng.sample(["a", "b"], rng.randrange(3)))], "form": form,
                      "ret": [[k, g.answer()] for k in sorted(rng.sample(["x", "ab_cd"], rng.randrange(3)))], "raises": rng.random() < .1,
                      "failures": [["a", "why"]] if form == "tuple" and rng.random() < .4 else []})
    return {"dry": dry, "names": rng.choice([[], ["prj"], ["prj", "stk"], [None, "stk"]]), "park": rng.random() < .6,
            "logs": [[rng.choice(["debug", "info", "warn", "error"]), "m%d" % k] for k in range(rng.choice([0, 0, 1, 3]))],
            "before": {"dry": rng.random() < .5, "fails": rng.random() < .5, "n": rng.randrange(4)} if rng.random() < .4 else None, "res": res, "gets": gets, "calls": calls}


def model_item(x, rng):
    """what Gen_Mocks emits"""
    it = item(rng)
    dry = it["dry"]
    g = MGen(rng, bool(dry), [])
    res = []
    for i, m in enumerate(x["res"], 1):
        kind = m["kind"]
        r = gen.base(kind, "r%d" % i, type={"prov": "pulumi:providers:pk"}.get(kind, "pk:m:A"))
        r["props"] = [["p", g.plain(1)]] if kind != "comp" else []
        if m["uses"]:
            r["props"].append(["q", {"e": "from", "v": {"e": "out", "r": m["uses"], "p": rng.choice(["urn", "id"])}}])
        r["par"], r["prov"], r["echo"] = m["par"], m["prov"], m["echo"]
        if kind == "read":
            r["id"] = {"e": "str", "s": "rid%d" % i}
        r["state"] = [["p", g.answer()]]
        if m["fail"]:
            r["mockfail"] = True
        res.append(r)
    gets = [{"of": a["get"], "props": ["p", "u"]} for a in x["acts"] if not a["call"]]
    calls = []
    for j, a in enumerate(a for a in x["acts"] if a["call"]):
        calls.append({"tok": "pk:m:f%d" % j, "args": [["a", g.plain(1)]], "form": {"raises": "dict", "failures": "tuple"}.get(a["call"], a["call"]),
                      "ret": [["x", g.answer()]], "raises": a["call"] == "raises", "failures": [["a", "why"]] if a["call"] == "failures" else []})
    it.update(res=res, gets=gets, calls=calls)
    return it
