"""Random inline programs and the runs they are given (C26)."""
from .wsrun import esc

KEYS = ["a:k", "a:s", "b:k"]
PROJECTS = ["a", "b", "é"]
STACKS = ["dev", "prod", "org/x"]
VALS = ["1", "x", "", "é\n", "secret"]


def env(rng, slow):
    cfg = [[esc(k), esc(rng.choice(VALS))] for k in rng.sample(KEYS, rng.choice([0, 0, 1, 2, 3]))]
    return {"project": esc(rng.choice(PROJECTS)), "stack": esc(rng.choice(STACKS)), "org": esc(rng.choice(["", "org", "me"])), "dry": rng.random() < .4, "cfg": cfg,
            "sec": [k for k, _ in cfg if rng.random() < .4], "marks": rng.random() < .7, "refuse": [], "keys": [esc(k) for k in KEYS], "slow": rng.choice([0, 0, 5, 20]) if slow else 0}


def actions(rng, nested, fail):
    out = []
    names = iter("r%d" % i for i in range(20))
    for _ in range(rng.randrange(1, 7)):
        a = rng.choice(["read", "read", "set", "mark", "res", "res", "res", "ask", "late", "export", "log", "wait"])
        n, v, s = "", "", False
        if a == "set":
            n, v = rng.choice(KEYS), rng.choice(VALS)
        elif a == "mark":
            v = rng.choice("xyz")
        elif a in ("res", "late", "ask"):
            n, v, s = next(names), rng.choice(VALS), rng.random() < .5
        elif a == "export":
            n, v = rng.choice(["o", "p"]), rng.choice(VALS)
        elif a == "log":
            v = rng.choice(["hello", "é", "x y"])
        out.append({"a": a, "n": esc(n), "v": esc(v), "s": s})
    if nested:
        out.insert(rng.randrange(len(out) + 1), {"a": "up", "n": nested, "v": "", "s": False})
    if fail == "raise":
        out.insert(rng.randrange(len(out) + 1), {"a": "raise", "n": rng.choice(["RunError", "ValueError", "Exception", "SystemExit"]), "v": rng.choice(["boom", "bad thing", "é"]), "s": False})
        for a in out:
            if a["n"] == "SystemExit" and rng.random() < .5:  # sys.exit()
                a["v"] = ""
    elif fail == "callback":
        out.insert(rng.randrange(len(out) + 1), {"a": "callback", "n": "", "v": "in a callback", "s": False})
    for a in out:
        if a["a"] == "raise":
            a["v"] = esc(a["v"])
    return out + [{"a": "read", "n": "", "v": "", "s": False}]


def up(rng, i, nested="", slow=False):
    fail = rng.choice(["", "", "", "raise", "callback", "refuse"])
    prog = actions(rng, nested, fail)
    op = rng.choice(["up", "up", "preview"])
    e = env(rng, slow)
    runs = [dict(e, dry=True)] if op == "preview" else rng.choice([[dict(e, dry=False)], [dict(e, dry=True), dict(e, dry=False)]])
    if fail == "refuse":
        rs = [a["n"] for a in prog if a["a"] in ("res", "ask", "late")]
        if rs:
            runs[-1] = dict(runs[-1], refuse=[rng.choice(rs)])
    return {"id": i, "op": op, "runs": runs, "prog": prog, "own": rng.random() < .7}


def item(rng):
    r = rng.random()
    if r < .5:
        ups = [up(rng, "u%d" % i) for i in range(rng.choice([2, 3]))]
        order = [[u["id"]] for u in ups]
    elif r < .8:
        ups = [up(rng, "u%d" % i, slow=True) for i in range(rng.choice([2, 3]))]
        order = [[u["id"] for u in ups]]
    else:
        ups = [up(rng, "u0", nested="u1"), up(rng, "u1"), up(rng, "u2")]
        order = [["u0"], ["u2"]]
    return {"ups": ups, "order": order}
