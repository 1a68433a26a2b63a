"""Random histories of workspace operations (C26)."""
import json

from .wsrun import canon, esc, un

VALUES = ["", "v", "w", "-x", "--", "--secret", "--stack", "=", "a=b", "=x", "many\nlines\n", " lead", "trail ", "é☃", "\U0001f600", '"q"', "'", "\\", "\\n", "[secret]", "null", "true", "1",
          "{\"a\": 1}", "x" * 3000, "\t", "\r\n", "\u2028", "$HOME", "`id`", "%s", "*", ";", "stack", "\u0001"]
KEYS = ["k", "key2", "a.b", "a[0]", "A", "k-1", "é", "p:k", "q:k", "aws:region", "p:other", "set", "k k"]
STACKS = ["dev", "prod", "org/test", "a.b-c_d", "rm", "init"]
OUTNAMES = ["o", "url", "a b", "é", "secret", "0", ""]
TIMES = ["none", "2021-05-04T10:11:12.123Z", "2022-12-31T23:59:59.000Z", "2020-01-01T00:00:00.999Z"]
PLUGINS = [("aws", "resource"), ("random", "resource"), ("python", "language"), ("aws", "analyzer"), ("my-plugin", "resource")]
VERSIONS = ["1.0.0", "2.0.0", "v1.2.3", "1.0.0-alpha.1"]
X0 = {"dep": "null", "rc": "0", "lu": "none", "uip": "false", "url": "none"}
NOF = {"at": 0, "c": ""}


def js(rng, depth=2):
    r = rng.random()
    if depth == 0 or r < .5:
        return rng.choice(["a", "", "é\n", 0, 1, -2.5, True, False, None, 10 ** 15, "[Secret]", "x y"])
    if r < .75:
        return [js(rng, depth - 1) for _ in range(rng.randrange(3))]
    return {k: js(rng, depth - 1) for k in rng.sample(["a", "b", "é", "4dabf18193072939515e22adb298388d", "value", "secret", ""], rng.randrange(3))}


def deployment(rng):
    if rng.random() < .15:
        return "null"
    return esc(canon({"version": rng.choice([3, 3, 3, 1, 2]), "deployment": {"manifest": js(rng), "resources": [js(rng, 1) for _ in range(rng.randrange(3))]}}))


def version(rng):
    r = rng.random()
    if r < .15:
        txt = rng.choice(["", "dev", "3", "3.1", "v", "3.1.0.0", "x3.1.0", "3.01.0", "vv3.1.0", "-1.0.0", "latest"])
        v = {"ok": False, "major": 0, "minor": 0, "patch": 0, "pre": False, "txt": ""}
        if txt.startswith("v"):
            pass
        return {"op": "version", "text": esc(txt), "v": v, "how": rng.choice(["none", "os", "env", "other"]), "set": rng.choice(["true", "1", ""])}
    a, b, c = rng.choice([(3, 1, 0), (3, 1, 0), (3, 1, 1), (3, 0, 9), (3, 0, 99), (3, 40, 0), (3, 2, 0), (3, 10, 0), (2, 99, 99), (4, 0, 0), (4, 0, 1), (0, 0, 0), (30, 1, 0), (3, 1, 10), (1, 3, 1)])
    pre = rng.choice(["", "", "-alpha", "-alpha.1", "-0", "-1638471384"])
    build = rng.choice(["", "", "+dirty", "+abc.1"])
    txt = "%d.%d.%d%s%s" % (a, b, c, pre, build)
    return {"op": "version", "text": esc(rng.choice(["", "v"]) + txt + rng.choice(["", "", " ", "\r"])), "v": {"ok": True, "major": a, "minor": b, "patch": c, "pre": bool(pre), "txt": txt},
            "how": rng.choice(["none", "none", "other", "os", "env"]), "set": rng.choice(["true", "1", ""])}


def item(rng):
    names = rng.sample(STACKS, rng.choice([2, 2, 3]))
    keys = rng.sample(KEYS, rng.choice([3, 4, 5]))
    if rng.random() < .5:
        keys = list(dict.fromkeys(keys + ["k", "p:k"]))
    values = [rng.choice(VALUES) for _ in range(6)]
    projs = rng.choice([("p", "q"), ("p", "p"), ("q", "p")])
    one = rng.random() < .3
    dirs = [{"proj": p, "sp": rng.choice(["", "passphrase", "awskms://alias/x?region=y"]), "home": 1 if one else i + 1} for i, p in enumerate(projs)]
    ops, full = [], {}

    def kv(n):
        ks, seen = [], set()
        for k in rng.sample(keys, min(n, len(keys))):
            f = k if ":" in k else "?:" + k
            if k.split(":")[-1] in seen:  # a key and its qualified form are the same key
                continue
            seen.add(k.split(":")[-1])
            ks.append([esc(k), esc(rng.choice(values)), rng.choice(["true", "false"])])
        return ks
    for j in range(rng.randrange(6, 16)):
        if rng.random() < .06:
            ops.append(version(rng))
            continue
        d = 1 if rng.random() < .7 else 2
        s = esc(rng.choice(names))
        op = rng.choice(["create", "create", "cos", "cos", "select", "remove", "set", "set", "set", "setall", "setall", "get", "get", "get", "getall", "getall", "rmcfg", "rmall", "refresh", "deploy", "deploy", "outputs", "outputs",
                         "export", "import", "whoami", "setenv", "plugins", "plugins", "install", "install", "uninstall", "list", "current"])
        if j == 0:
            op = rng.choice(["create", "cos"])
        o = {"op": op, "d": d, "s": s, "kv": [], "p": [], "x": dict(X0), "f": dict(NOF), "via": rng.choice(["ws", "ws", "stack", "stack", "fn"])}
        if op in ("set", "get", "rmcfg"):
            o["kv"] = kv(1)
        elif op in ("setall", "rmall"):
            o["kv"] = kv(rng.randrange(4))
        elif op == "deploy":
            o["kv"] = [[esc(k), esc(canon(js(rng, rng.choice([0, 1, 2, 2])))), rng.choice(["true", "false"])] for k in rng.sample(OUTNAMES, rng.randrange(4))]
            o["x"] = {"dep": deployment(rng), "rc": rng.choice(["none", "0", "0", "0", "1", "25"]), "lu": rng.choice(TIMES), "uip": rng.choice(["true", "false"]),
                      "url": rng.choice(["none", "https://app.pulumi.com/x"])}
        elif op == "import":
            o["x"]["dep"] = deployment(rng)
            if o["x"]["dep"] == "null":
                o["x"]["dep"] = esc(canon({"version": 2, "deployment": None}))
        elif op == "setenv":
            o["s"] = esc(rng.choice(["me", "you", "é", "a=b"]))
        elif op == "install":
            n, k = rng.choice(PLUGINS)
            o["p"] = [n, k, rng.choice(VERSIONS), str(rng.choice([0, 1, 10 ** 10])), rng.choice(TIMES), rng.choice(TIMES)]
        elif op == "uninstall":
            n, k = rng.choice(PLUGINS)
            n = rng.choice([n, n, ""])
            o["p"] = [n, k, rng.choice(VERSIONS + ["", ""]) if n else ""]
        if op in ("create", "select", "remove", "refresh", "set", "rmcfg", "rmall") and rng.random() < .15:
            o["via"] = "ext"
        elif op not in ("deploy", "setenv") and rng.random() < .12:
            o["f"] = {"at": rng.choice([1, 1, 2]), "c": rng.choice(["CommandError", "CommandError", "ConcurrentUpdateError", "StackNotFoundError", "StackAlreadyExistsError"])}
        ops.append(o)
        if op == "deploy" and rng.random() < .6:
            ops.append(dict(o, op="outputs", kv=[], x=dict(X0), via=rng.choice(["ws", "stack"])))
    return {"dirs": dirs, "noise": rng.random() < .3, "ops": ops}


def model_items(lines, rng):
    out = []
    for ln in lines:
        ops = []
        for o in ln["ops"]:
            o = dict(o, via=rng.choice(["ws", "stack", "fn"]))
            dep = o["x"]["dep"]
            o["x"] = dict(o["x"], dep=esc(canon({"version": 3, "deployment": json.loads(dep)})))
            if o["op"] == "deploy":
                o["kv"] = [[k, esc(v), s] for k, v, s in o["kv"]]
            ops.append(o)
        out.append({"dirs": [{"proj": "p", "sp": "", "home": 1}, {"proj": "q", "sp": "passphrase", "home": 2}], "noise": rng.random() < .1, "ops": ops})
    return out
