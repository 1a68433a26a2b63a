"""Seeded generator for the dynamic provider family: providers as source text, with what their operations do spread over the places
Python code keeps things."""
OPS = ["check", "diff", "create", "read", "update", "delete"]
SIGN = {"check": "olds, news", "diff": "id, olds, news", "create": "props", "read": "id, props", "update": "id, olds, news", "delete": "id, props"}
PLACES = ["attr", "glob", "lit", "dflt", "helper", "rec", "clos", "cls", "lam", "sett", "js", "base", "nested", "boundfn"]
HEAD = '''import json as _json
import os as _os
from functools import partial as _partial
import pulumi.dynamic as d


def _dump(x):
    if type(x).__name__ == "Unknown":
        return {"$unk": 1}
    if isinstance(x, dict):
        return {k: _dump(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_dump(v) for v in x]
    return x


def _log(p, op, **args):
    with open(_os.environ["VLOG"], "a") as fh:
        fh.write(_json.dumps({"p": p, "op": op, "args": {k: _dump(v) for k, v in args.items()}}) + "\\n")


'''


def py(w):
    """a tagged value as Python writes it"""
    t = w["t"]
    if t == "null":
        return "None"
    if t == "bool":
        return repr(w["b"])
    if t == "num":
        return repr(w["n"])
    if t == "str":
        return repr(w["s"])
    if t == "list":
        return "[" + ", ".join(py(x) for x in w["l"]) + "]"
    if t == "prov":
        return repr("not the provider")
    return "{" + ", ".join("%r: %s" % (k, py(v)) for k, v in zip(w["k"], w["l"])) + "}"


def data(op, b):
    """what an operation gives, as Python writes it"""
    given = lambda g, v: v if g["given"] else "None"
    if op == "check":
        return "[%s, %s]" % (py(b["ins"]["v"]) if b["ins"]["k"] == "v" else "None", given(b["fails"], repr([[f["p"], f["r"]] for f in b["fails"].get("l", [])])))
    if op == "diff":
        tri = {"T": "True", "F": "False", "-": "None"}
        return "[%s, %s, %s, %s]" % (tri[b["changes"]], given(b["replaces"], repr(b["replaces"].get("l"))), given(b["stables"], repr(b["stables"].get("l"))), tri[b["dbr"]])
    if op == "create":
        return "[%r, %s]" % (b["id"], py(b["outs"]["v"]) if b["outs"]["given"] else "None")
    if op == "read":
        return "[%s, %s]" % (repr(b["id"]["s"]) if b["id"]["given"] else "None", py(b["outs"]["v"]) if b["outs"]["k"] == "v" else "None")
    if op == "update":
        return py(b["outs"]["v"]) if b["outs"]["given"] else "None"
    return "None"


def result(op, b):
    return {
        "check": "return d.CheckResult(%s, None if data[1] is None else [d.CheckFailure(p, r) for p, r in data[1]])" % ("news" if b.get("ins", {}).get("k") == "same" else "data[0]"),
        "diff": "return d.DiffResult(data[0], data[1], data[2], data[3])",
        "create": "return d.CreateResult(data[0], data[1])",
        "read": "return d.ReadResult(data[0], %s)" % ("props" if b.get("outs", {}).get("k") == "same" else "data[1]"),
        "update": "return d.UpdateResult(data)",
        "delete": "return None",
    }[op]


def source(n, pv, place):
    """`make%d()` gives the provider"""
    head, init, cls, base, clos = [], [], [], [], []
    for op in OPS:
        b = pv[op]
        if b["k"] == "default":
            continue
        lit = "None" if b["k"] == "raise" else data(op, b)
        where = place[op]
        sig, x = SIGN[op], "%s%d" % (op, n)
        expr = {"attr": "self.a_" + x, "glob": "G_" + x, "lit": lit, "dflt": "data", "helper": "H_%s()" % x, "rec": "R_%s(3)" % x, "clos": "c_" + x,
                "cls": "self.k_" + x, "lam": "self.l_%s()" % x, "sett": "%s if %r in {'k1', 'k2', 'k3', %r, 'k5'} else None" % (lit, op, op),
                "js": "_json.loads(J_%s)" % x, "base": lit, "nested": "inner()", "boundfn": "self.f_%s()" % x}[where]
        if where == "attr":
            init.append("self.a_%s = %s" % (x, lit))
        elif where == "glob":
            head.append("G_%s = %s" % (x, lit))
        elif where == "helper":
            head.append("def H_%s():\n    return %s\n" % (x, lit))
        elif where == "rec":
            head.append("def R_%s(k):\n    return R_%s(k - 1) if k else %s\n" % (x, x, lit))
        elif where == "clos":
            clos.append(("c_" + x, lit))
        elif where == "cls":
            cls.append("    k_%s = %s" % (x, lit))
        elif where == "lam":
            init.append("self.l_%s = lambda: %s" % (x, lit))
        elif where == "js":
            head.append("J_%s = _json.dumps(%s)" % (x, lit))
        elif where == "boundfn":
            head.append("def F_%s(v):\n    return v\n" % x)
            init.append("self.f_%s = _partial(F_%s, %s)" % (x, x, lit))
        body = ["    def %s(self, %s%s):" % (op, sig, ", data=" + lit if where == "dflt" else "")]
        if where == "nested":
            body += ["        def inner():", "            return %s" % lit]
        body += ["        _log(%d, %r, %s)" % (n, op, ", ".join("%s=%s" % (a, a) for a in sig.split(", ")))]
        if b["k"] == "raise":
            body += ["        raise %s(%r)" % (b.get("cls", "Exception"), "boom %s %d" % (op, n))]
        else:
            if where != "dflt":
                body += ["        data = " + expr]
            body += ["        " + result(op, b)]
        (base if where == "base" else cls).append("\n".join(body) + "\n")
    init = init or ["pass"]
    text = "\n\n".join(head) + "\n\n"
    if base:
        text += "class B%d(d.ResourceProvider):\n%s\n\n" % (n, "\n".join(base))
    klass = "class P%d(%s):\n    def __init__(self):\n        super().__init__()\n%s\n\n%s\n" % (
        n, "B%d" % n if base else "d.ResourceProvider", "\n".join("        " + i for i in init), "\n".join(cls))
    if clos:
        inner = "".join("    " + ln + "\n" if ln else "\n" for ln in klass.split("\n"))
        text += "def K%d(%s):\n%s\n    return P%d\n\n\nP%d = K%d(%s)\n" % (n, ", ".join(c for c, _ in clos), inner, n, n, n, ", ".join(v for _, v in clos))
    else:
        text += klass
    return text + "\n\ndef make%d():\n    return P%d()\n\n\n" % (n, n)


def value(rng, d=2, null=True):
    k = rng.choice(["str", "str", "num", "bool"] + (["null"] if null else []) + (["list", "dict"] if d else []))
    if k == "str":
        return {"t": "str", "s": rng.choice(["", "a", "b c", "é", "__x", "'", '"q"', "x" * 50])}
    if k == "num":
        return {"t": "num", "n": rng.choice([0, 1, -3, 100000])}
    if k == "bool":
        return {"t": "bool", "b": rng.random() < .5}
    if k == "null":
        return {"t": "null"}
    n = rng.randrange(4)
    if k == "list":
        return {"t": "list", "l": [value(rng, d - 1, null) for _ in range(n)]}
    return bag(rng, d - 1, null)


def bag(rng, d=2, null=True):
    ks = rng.sample(["x", "y", "z", "id", "camelCase", "snake_case", "a-b"], rng.randrange(4))
    return {"t": "dict", "k": ks, "l": [value(rng, d, null) for _ in ks]}


def names(rng):
    return rng.sample(["x", "y", "z", "camelCase"], rng.randrange(3))


def opt(rng, v):
    return {"given": True, "v": v} if rng.random() < .75 else {"given": False}


def optl(rng, ls):
    return {"given": True, "l": ls} if rng.random() < .7 else {"given": False, "l": []}


def provider(rng):
    pv = {}
    for op in OPS:
        r = rng.random()
        if r < .12:
            pv[op] = {"k": "raise", "cls": rng.choice(["Exception", "ValueError", "KeyError", "RuntimeError"])}
        elif r < .3 and op != "create":
            pv[op] = {"k": "default"}
        elif op == "check":
            k = rng.choice(["same", "none", "v", "v"])
            pv[op] = {"k": "some", "ins": {"k": k, "v": bag(rng)} if k == "v" else {"k": k},
                      "fails": optl(rng, [{"p": p, "r": rng.choice(["", "bad", "é"])} for p in (names(rng) if rng.random() < .5 else [])])}
        elif op == "diff":
            pv[op] = {"k": "some", "changes": rng.choice("TF-"), "replaces": optl(rng, names(rng)), "dbr": rng.choice("TF-"), "stables": optl(rng, names(rng))}
        elif op == "create":
            pv[op] = {"k": "some", "id": rng.choice(["i", "", "a/b", "é"]), "outs": opt(rng, bag(rng))}
        elif op == "read":
            k = rng.choice(["same", "none", "v", "v"])
            pv[op] = {"k": "some", "id": {"given": True, "s": rng.choice(["i", "", "j"])} if rng.random() < .7 else {"given": False, "s": ""},
                      "outs": {"k": k, "v": bag(rng)} if k == "v" else {"k": k}}
        elif op == "update":
            pv[op] = {"k": "some", "outs": opt(rng, bag(rng))}
        else:
            pv[op] = {"k": "some"}
    return pv


def places(rng):
    return {op: rng.choice(PLACES) for op in OPS}


def extra(rng, d=2):
    """more state of a provider, as a recipe; sets and dictionaries are put together in any order"""
    atom = lambda: rng.choice([["v", "a"], ["v", "b"], ["v", "é"], ["v", 1], ["v", 2], ["v", None], ["v", True], ["v", 1.5], ["t", [["v", "a"], ["v", 1]]]])
    k = rng.choice(["v", "d", "d", "s", "f", "l", "t"]) if d else "v"
    if k == "v":
        return rng.choice([["v", "a"], ["v", 7], ["v", None], ["v", "long" * 20]])
    n = rng.randrange(6)
    if k in ("s", "f"):
        strs = rng.random() < .6
        xs = [["v", s] for s in rng.sample(["aa", "bb", "cc", "dd", "ee", "ff", "gg"], n)] if strs else [atom() for _ in range(n)]
        if rng.random() < .2:
            xs.append(["f", [["v", s] for s in rng.sample(["p", "q", "r", "s"], 2)]])
            xs.append(["f", [["v", s] for s in rng.sample(["t", "u", "v", "w"], 2)]])
        return [k, xs]
    if k == "d":
        keys = [["v", s] for s in rng.sample(["aa", "bb", "cc", "dd", "ee"], min(n, 5))] if rng.random() < .7 else [atom() for _ in range(n)]
        return ["d", [[x, extra(rng, d - 1)] for x in keys]]
    return [k, [extra(rng, d - 1) for _ in range(n)]]


def token(rng, pvs, unknown=False):
    return {"t": "unk"} if unknown else {"t": "prov", "n": rng.randrange(1, pvs + 1)}


def props(rng, p, unk=False):
    b = bag(rng)
    if rng.random() < .15:
        b["k"].append("__defaults")
        b["l"].append({"t": "list", "l": []})
    if unk and b["k"] and rng.random() < .4:
        b["l"][rng.randrange(len(b["k"]))] = {"t": "unk"}
    i = rng.randrange(len(b["k"]) + 1)
    b["k"].insert(i, "__provider")
    b["l"].insert(i, p)
    return b


def request(rng, n):
    op = rng.choice(OPS)
    i = rng.choice(["i", "a/b", "", "é"])
    if op == "check":
        return {"op": op, "r": {"olds": props(rng, token(rng, n)) if rng.random() < .7 else {"t": "dict", "k": [], "l": []}, "news": props(rng, token(rng, n), True)}}
    if op in ("diff", "update"):
        return {"op": op, "r": {"id": i, "olds": props(rng, token(rng, n)), "news": props(rng, token(rng, n), op == "diff")}}
    if op == "create":
        return {"op": op, "r": {"props": props(rng, token(rng, n))}}
    return {"op": op, "r": {"id": i, "props": props(rng, token(rng, n))}}


def unknown_provider(rng, q):
    """a request whose new provider is not known yet"""
    if q["op"] in ("check", "diff") and "__provider" in q["r"]["olds"]["k"]:
        w = q["r"]["news"]
        w["l"][w["k"].index("__provider")] = {"t": "unk"}
    return q


def item(rng):
    n = rng.choice([1, 2, 2, 3])
    pvs = [provider(rng) for _ in range(n)]
    reqs = [request(rng, n) for _ in range(rng.randrange(1, 9))]
    for q in reqs:
        if rng.random() < .08:
            unknown_provider(rng, q)
    regs = [{"p": rng.randrange(1, n + 1), "module": rng.choice(["", "", "m", "a/b"]), "name": rng.choice(["Resource", "Thing"]),
             "props": rng.randrange(2)} for _ in range(rng.randrange(4))]
    return {"pvs": pvs, "places": [places(rng) for _ in pvs], "reqs": reqs, "regs": regs, "bags": [bag(rng, 2, False), bag(rng, 2, False)]}


def model_item(x, rng):
    return {"pvs": x["pvs"], "places": [places(rng) for _ in x["pvs"]], "reqs": x["hist"], "regs": [], "bags": []}
