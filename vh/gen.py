"""Seeded generators of programs for the deployment family."""
import random

E0 = {"t": "dict", "k": [], "l": []}


def num(n):
    return {"e": "num", "n": n}


def st(s):
    return {"e": "str", "s": s}


def base(kind, name, **k):
    pk = k.pop("pk", "pk")
    typ = k.pop("type", None) or {"prov": "pulumi:providers:" + pk}.get(kind, "%s:m:%s" % (pk, kind.capitalize()))
    r = dict(kind=kind, type=typ, pkg=pk, name=name, par=0, deps=[], prov=0, provs=[], props=[], outs=E0, engid=name + "-id")
    r.update(k)
    return r


def urn_of(res, r):
    """The URN the engine gives r (by its chain of parents)."""
    q = r["type"]
    if r["par"] and r["kind"] != "get":
        q = urn_of(res, res[r["par"] - 1]).split("::")[2] + "$" + q
    return "urn:pulumi:stk::prj::%s::%s" % (q, r["name"])


def concretize(aprog, faults=(), dry=False):
    """An abstract program of MC_Deployment -> a runnable one. Outputs of i used by r are i's property `p` (custom
    resources) or its URN (components)."""
    res = []
    for i, a in enumerate(aprog, 1):
        props = [["p", num(i)]] if a["kind"] in ("cust", "read", "prov") else []
        for j in sorted(a["ins"]):
            kind = aprog[j - 1]["kind"]
            props.append(["in%d" % j, {"e": "out", "r": j, "p": "p" if kind in ("cust", "prov") else "urn"}])
        r = base(a["kind"], "r%d" % i, par=a["par"], deps=sorted(a["deps"]), prov=a.get("prov", 0), props=props,
                 pk=a.get("pkg", "pk"), provs=sorted(a.get("provs", [])))
        if i in faults:
            r["fail"] = True
        res.append(r)
    return {"res": res, "dry": dry}


def ins_of(e):
    """Indices of the resources whose registration the serialisation of the expression waits for."""
    k = e["e"]
    s = set()
    if k in ("out", "res"):
        s.add(e["r"])
    if k == "leaf":
        s |= set(e.get("deps", []))
    for f in ("v", "w"):
        if isinstance(e.get(f), dict) and "e" in e[f]:
            s |= ins_of(e[f])
    for x in e.get("l", []):
        s |= ins_of(x)
    return s


def soft_of(e, inside=False):
    """Resources that appear as plain values inside an output expression: in a preview, where that output may be
    unknown, nothing says they are there."""
    k = e["e"]
    s = set()
    if k == "res" and inside:
        s.add(e["r"])
    inside = inside or k in ("secret", "unsecret", "from", "all", "alln", "concat", "idx", "attr", "apply", "leaf", "aw")
    for f in ("v", "w"):
        if isinstance(e.get(f), dict) and "e" in e[f]:
            s |= soft_of(e[f], inside)
    for x in e.get("l", []):
        s |= soft_of(x, inside)
    return s


def hard_of(e, inside=False):
    """The complement: resources mentioned in a way that always counts."""
    k = e["e"]
    s = set()
    if k == "out" or (k == "res" and not inside):
        s.add(e["r"])
    if k == "leaf":
        s |= set(e.get("deps", []))
    inside = inside or k in ("secret", "unsecret", "from", "all", "alln", "concat", "idx", "attr", "apply", "leaf", "aw")
    for f in ("v", "w"):
        if isinstance(e.get(f), dict) and "e" in e[f]:
            s |= hard_of(e[f], inside)
    for x in e.get("l", []):
        s |= hard_of(x, inside)
    return s


def rand_expr(rng, refs, depth=0):
    """A property value over the resources in refs: list of (index, kind)."""
    c = rng.random()
    if refs and c < 0.45:
        i, kind = rng.choice(refs)
        if kind in ("comp", "rcomp"):
            return rng.choice([{"e": "out", "r": i, "p": "urn"}, {"e": "res", "r": i}])
        return rng.choice([{"e": "out", "r": i, "p": "p"}, {"e": "out", "r": i, "p": "urn"}, {"e": "out", "r": i, "p": "id"},
                           {"e": "res", "r": i}, {"e": "out", "r": i, "p": "p"}])
    if c < 0.6 or depth > 2:
        return rng.choice([num(rng.randrange(5)), st("s%d" % rng.randrange(5)), {"e": "bool", "b": True}])
    if c < 0.75:
        return {"e": "list", "l": [rand_expr(rng, refs, depth + 1) for _ in range(rng.randrange(3))]}
    if c < 0.85:
        n = rng.randrange(3)
        return {"e": "dict", "k": ["k%d" % x for x in range(n)], "l": [rand_expr(rng, refs, depth + 1) for _ in range(n)]}
    if c < 0.93:
        return {"e": "secret", "v": rand_expr(rng, refs, depth + 1)}
    return {"e": "all", "l": [rand_expr(rng, refs, depth + 1) for _ in range(1 + rng.randrange(2))]}


DEPFORMS = ["list", "list", "single", "outlist", "listout", "awlist", "urnapply"]


def rand_program(rng, nmax=7, faults=True):
    n = rng.randrange(2, nmax + 1)
    res = []
    here = lambda i: [j for j in range(1, i) if not res[j - 1].get("late")]
    provs = {}
    for i in range(1, n + 1):
        kind = rng.choice(["cust"] * 5 + ["comp"] * 4 + ["rcomp", "prov", "read", "get"])
        pars = [j for j in here(i) if res[j - 1]["kind"] in ("comp", "comp", "rcomp", "cust")]
        par = rng.choice(pars) if pars and rng.random() < 0.6 else 0
        anc = here(i)
        deps = [j for j in anc if rng.random() < 0.25]
        refs = [(j, res[j - 1]["kind"]) for j in here(i)]
        pk = rng.choice(["pk", "pk", "qk"])
        props = []
        if kind != "comp":
            props.append(["p", num(i)])
            for x in range(rng.randrange(3)):
                props.append(["q%d" % x, rand_expr(rng, refs)])
        r = base(kind, "r%d" % i, pk=pk, par=par, deps=deps, props=props, depform=rng.choice(DEPFORMS))
        if kind == "get":
            r["par"], r["deps"] = 0, []
            r["urn"] = urn_of(res, r)
        if kind == "prov":
            r["depform"] = "list"
            provs.setdefault(pk, []).append(i)
        if kind in ("cust", "read") and provs.get(pk) and rng.random() < 0.5:
            r["prov"] = rng.choice(provs[pk])
        if kind == "rcomp" and provs and rng.random() < 0.7:
            r["provs"] = [rng.choice(v) for v in provs.values()]
        if kind == "read":
            r["id"] = rng.choice([st("x%d" % i)] + [{"e": "out", "r": j, "p": "id"} for j, k in refs if k in ("cust",)])
        if kind in ("cust", "read") and i > 1 and rng.random() < 0.15:
            if anc:
                r["late"] = rng.choice(anc)
        if kind in ("comp", "cust") and provs and rng.random() < 0.4:
            r["provs"] = [rng.choice(v) for v in provs.values() if rng.random() < 0.7]
            r["provform"] = rng.choice(["list", "dict"])
        if kind == "comp" and provs and rng.random() < 0.2:
            r["prov"] = rng.choice(rng.choice(list(provs.values())))
            r["pkg"] = res[r["prov"] - 1]["pkg"]
            r["type"] = "%s:m:Comp" % r["pkg"]
        if kind in ("comp", "cust", "rcomp") and rng.random() < 0.08:
            r["cbs"] = [{"id": "%d_%d" % (i, x), "p": rng.choice(["urn", "urn", "p"] if kind == "cust" else ["urn"]),
                         "do": rng.choice(["raise", "slow", "slow", "nest", "nestres", "chain", "none"])} for x in range(1 + (rng.random() < .3))]
        if kind == "comp" and rng.random() < 0.5 and refs:
            r["regouts"] = [["o", rand_expr(rng, refs)]]
        res.append(r)
    prog = {"res": res, "dry": rng.random() < 0.3,
            "features": {"secrets": True, "resourceReferences": rng.random() < 0.7, "outputValues": rng.random() < 0.5}}
    if faults and rng.random() < 0.4:
        for j in rng.sample(range(n), 1 + (rng.random() < 0.3)):
            res[j]["fail"] = rng.choice([True, True, "unavailable"])
    if rng.random() < 0.15:
        prog["raise"] = True
    return prog
