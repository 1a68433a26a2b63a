"""Seeded generator for the registry family."""
PRE = ["", "-0", "-1", "-2", "-10", "-alpha", "-alpha.1", "-beta", "-rc.1"]  # lowest first, but for a release, which is the highest
NOV = {"n": [], "pre": 0}


def version(rng):
    """a version, as text and as the model has it"""
    if rng.random() < .15:
        return "", NOV
    n = [rng.choice([0, 1, 1, 2]), rng.choice([0, 1, 2, 10]), rng.choice([0, 1, 2, 10])]
    pre = rng.choice(PRE) if rng.random() < .35 else ""
    return "%d.%d.%d%s" % (*n, pre), {"n": n, "pre": PRE.index(pre) or 99}


def urn(typ, name, parent):
    return "urn:pulumi:s::p::%s%s::%s" % (parent + "$" if parent else "", typ, name)


def ref(rng, mods, pkgs, versions):
    ver, v = rng.choice(versions) if versions and rng.random() < .7 else version(rng)
    name = rng.choice(["n", "a-b", "x::y", "c$d", "e:f"])
    parent = rng.choice(["", "", "o:p:Q", "@a:m:T"])
    if pkgs and rng.random() < .4:
        p = rng.choice(pkgs)
        typ, key, kind = "pulumi:providers:" + p, p, "pkg"
    else:
        p, m = rng.choice(mods)
        typ, key, kind = "%s:%s:T" % (p, m), p + ":" + m, "mod"
    i = rng.choice([{"t": "none"}, {"t": "str", "s": "i1"}, {"t": "str", "s": ""}, {"t": "unk"}])
    return {"kind": kind, "key": key, "want": v, "ver": ver, "urn": urn(typ, name, parent), "name": name, "type": typ, "id": i}


def wire(rng, n, d):
    k = rng.choice(["ref"] * 3 + (["list", "dict", "sec"] if d else []) + ["str"])
    if k == "ref":
        return {"t": "refno", "n": rng.randrange(1, n + 1)}
    if k == "str":
        return {"t": "str", "s": "u"}
    if k == "sec":
        return {"t": "sec", "v": wire(rng, n, d - 1)}
    ks = sorted(rng.sample(["a", "b", "c"], rng.randrange(3)))
    if k == "dict":
        return {"t": "dict", "k": ks, "l": [wire(rng, n, d - 1) for _ in ks]}
    return {"t": "list", "l": [wire(rng, n, d - 1) for _ in ks]}


def item(rng):
    mods = [("@a", "m"), ("@a", "m/n"), ("@b", "m")][:rng.choice([1, 2, 3])]
    pkgs = ["@a", "@b"][:rng.choice([1, 2])]
    pool = [version(rng) for _ in range(rng.randrange(1, 5))]
    refs = [ref(rng, mods + [("@a", "other")], pkgs, pool) for _ in range(rng.randrange(1, 6))]
    ops = []
    for no in range(1, rng.randrange(2, 9)):
        if rng.random() < .6:
            ver, v = rng.choice(pool) if rng.random() < .7 else version(rng)
            if rng.random() < .3:
                p = rng.choice(pkgs)
                x = {"kind": "pkg", "key": p, "pkg": p, "mod": ""}
            else:
                p, m = rng.choice(mods)
                x = {"kind": "mod", "key": p + ":" + m, "pkg": p, "mod": m}
            x.update(v=v, no=no)
            ops.append({"op": "register", "x": x, "ver": ver})
        else:
            ops.append({"op": "decode", "w": wire(rng, len(refs), 3)})
    ops.append({"op": "decode", "w": {"t": "list", "l": [{"t": "refno", "n": i} for i in range(1, len(refs) + 1)]}})
    return {"dry": rng.random() < .5, "refs": refs, "ops": ops}


def model_item(x, rng):
    """what Gen_Registry emits: the history, then a reference of every version to each package"""
    kind = rng.choice(["mod", "pkg"])
    text = lambda v: "%d.%d.%d%s" % (*v["n"], {9: "", 1: "-alpha", 2: "-beta"}[v["pre"]]) if v["n"] else ""
    seen = {}
    for t in x["tries"]:
        seen[text(t["v"])] = t["v"]
    seen.update({"": NOV, "1.0.0": {"n": [1, 0, 0], "pre": 9}, "1.1.1": {"n": [1, 1, 1], "pre": 9}})
    refs, ops = [], []
    for key in ("A", "B"):
        p = "@" + key.lower()
        typ = "pulumi:providers:" + p if kind == "pkg" else p + ":m:T"
        for s, v in sorted(seen.items()):
            refs.append({"kind": kind, "key": p if kind == "pkg" else p + ":m", "want": v, "ver": s, "urn": urn(typ, "n", ""), "name": "n", "type": typ, "id": {"t": "none"}})
    for t in x["tries"]:
        p = "@" + t["key"].lower()
        ops.append({"op": "register", "ver": text(t["v"]), "x": {"kind": kind, "key": p if kind == "pkg" else p + ":m", "pkg": p, "mod": "m", "v": t["v"], "no": t["no"]}})
        ops.append({"op": "decode", "w": {"t": "list", "l": [{"t": "refno", "n": i} for i in range(1, len(refs) + 1)]}})
    return {"dry": False, "refs": refs, "ops": ops}
