"""Seeded generator for the configuration family."""
import re

from .cfgrun import ABSENT

KINDS = ["str", "bool", "int", "float", "object"]


def digits(rng, und=False):
    n = rng.choice([1, 1, 2, 3, 6])
    s = "".join(rng.choice("0123456789") for _ in range(n))
    if und and n > 1 and rng.random() < .2:
        i = rng.randrange(1, n)
        s = s[:i] + "_" + s[i:]
    return s


def numeral(rng):
    s = rng.choice(["", "", "-", "+"]) + digits(rng, True)
    if rng.random() < .5:
        s += "." + (digits(rng) if rng.random() < .8 else "")
    if rng.random() < .3:
        s += rng.choice("eE") + rng.choice(["", "-", "+"]) + rng.choice(["0", "1", "05", "12", "30"])
    if rng.random() < .25:
        s = rng.choice([" ", "\t", "\n", ""]) + s + rng.choice([" ", "\r\n", ""])
    return s


def mutate(rng, s):
    i = rng.randrange(len(s) + 1)
    r = rng.random()
    if r < .5:
        return s[:i] + rng.choice("_.-+eEx01 ,") + s[i:]
    if r < .8 and s:
        return s[:max(0, i - 1)] + s[i:]
    return s + s


def lit(rng):
    r = rng.random()
    if r < .3:
        return rng.choice(["null", "true", "false"])
    s = rng.choice(["", "-"]) + str(rng.choice([0, 1, 7, 10, 123456]))
    if r < .5:
        s += "." + digits(rng)
    if r < .4:
        s += rng.choice("eE") + rng.choice(["", "-", "+"]) + rng.choice(["0", "2", "10"])
    return s


def ast(rng, d):
    k = rng.choice(["str", "lit"] + (["list", "dict", "dict"] if d else []))
    if k == "str":
        return {"t": "str", "s": rng.choice(["", "x", "true", "1", "a b", "é", "{", "]", ","])}
    if k == "lit":
        return {"t": "lit", "s": lit(rng)}
    n = rng.randrange(4)
    if k == "list":
        return {"t": "list", "l": [ast(rng, d - 1) for _ in range(n)]}
    return {"t": "dict", "k": [rng.choice(["a", "b", "c-d", "", "A"]) for _ in range(n)], "l": [ast(rng, d - 1) for _ in range(n)]}


def render(j, sp):
    if j["t"] == "str":
        return '"' + j["s"] + '"'
    if j["t"] == "lit":
        return j["s"]
    if j["t"] == "list":
        return "[" + sp + (sp + "," + sp).join(render(x, sp) for x in j["l"]) + sp + "]"
    return "{" + sp + (sp + "," + sp).join('"' + k + '"' + sp + ":" + sp + render(x, sp) for k, x in zip(j["k"], j["l"])) + sp + "}"


BROKEN = ["[1,]", "{a:1}", "{'a':1}", "[1", "{\"a\"}", "\"x", "x", "nul", "True", "[1]x", "{\"a\":1,}", "01", "+1", ".5", "1.", "\"a\" \"b\"", "undefined"]


def text(rng, asts):
    r = rng.random()
    if r < .12:
        return rng.choice(["true", "false", "True", "False", "TRUE", "FALSE", "yes", "0", "1", "", " true", "true ", "t", "None", "null"])
    if r < .35:
        s = numeral(rng)
        return "7" if sum(c.isdigit() for c in s) > 15 else s
    if r < .42:
        s = mutate(rng, numeral(rng))
        # the model has neither rounding nor overflow
        return "x1" if re.search(r"[eE][-+]?[\d_]{3,}", s) or sum(c.isdigit() for c in s) > 15 else s
    if r < .45:
        return rng.choice(["nan", "inf", "-inf", "Infinity", "+INF", "NaN", "infinit", "-nan"])
    if r < .5:
        return rng.choice(["", "-"]) + "".join(rng.choice("0123456789") for _ in range(9)) + "000"
    if r < .6:
        return rng.choice(BROKEN)
    if r < .68:
        return rng.choice(["x", "hello world", "p:a", "é", "%s", "{0}", "'", "a\nb", "[secret]", "c2VjcmV0"])
    j = ast(rng, 3)
    pre, post, sp = rng.choice(["", "", " ", "\n"]), rng.choice(["", "", " "]), rng.choice(["", "", " ", "\t", "\n  "])
    s = pre + render(j, sp) + post
    asts.append({"s": s, "j": j, "sp": sp, "pre": pre, "post": post})
    return s


def default(rng, kind):
    if rng.random() < .4:
        return ABSENT
    n = lambda v, d, e, t="int": {"t": t, "num": {"neg": v < 0, "d": d, "e": e}}
    return rng.choice({
        "str": [{"t": "str", "s": ""}, {"t": "str", "s": "d"}],
        "bool": [{"t": "bool", "b": False}, {"t": "bool", "b": True}],
        "int": [n(0, "", 0), n(1, "5", 1), n(-1, "12", 2)],
        "float": [n(0, "", 0, "float"), n(1, "25", 1, "float")],
        "object": [{"t": "list", "l": []}, {"t": "dict", "k": [], "l": []}, {"t": "bool", "b": False}, n(0, "", 0), {"t": "dict", "k": ["a"], "l": [n(1, "1", 1)]}],
    }[kind])


def item(rng):
    project = rng.choice(["p", "my-proj", "P.1"])
    names = ["", project, "q", "Q", "aws"][:rng.choice([3, 4, 5])]
    keys = ["a-b", "a_b", "A_B", "ab", "a:b", "é", "x.y", "ab1"][:rng.choice([2, 4, 8])]
    full = lambda: (rng.choice(names) or project) + ":" + rng.choice(keys)
    up = lambda k: "PULUMI_CONFIG_" + "".join(c.upper() if c.isascii() and c.isalnum() or c == "_" else "_" for c in k)
    asts, ops, secrets = [], [], set()

    def pairs():
        d = {full(): text(rng, asts) for _ in range(rng.randrange(4))}
        return [{"k": k, "s": s} for k, s in d.items()]

    for _ in range(rng.randrange(1, 12)):
        r = rng.random()
        if r < .12:
            ops.append({"op": "set", "k": full(), "s": text(rng, asts)})
        elif r < .24:
            ops.append({"op": "setall", "m": pairs(), "sk": rng.choice([{"given": False, "keys": []}, {"given": True, "keys": sorted({full() for _ in range(rng.randrange(3))})}])})
        elif r < .34:
            ops.append({"op": "env", "k": up(full()), "s": text(rng, asts).replace("\0", "")})
        elif r < .37:
            ops.append({"op": "delenv", "k": up(full())})
        elif r < .45:
            ops.append({"op": "bag", "m": pairs()})
        elif r < .5:
            ops.append({"op": "secretq", "k": full()})
        elif r < .53:
            ops.append({"op": "fullkey", "name": rng.choice(names), "key": rng.choice(keys)})
        if ops and ops[-1]["op"] == "setall":
            secrets |= set(ops[-1]["sk"]["keys"])
            ops += [{"op": "secretq", "k": k} for k in sorted(secrets)[:6]]
        for _ in range(rng.randrange(1, 4)):
            ops.append(query(rng, rng.choice(names), rng.choice(keys)))
    for o in ops:
        if o["op"] == "look":
            o["asts"] = asts
    return {"project": project, "ops": ops}


def query(rng, name, key, kind=None):
    kind = kind or rng.choice(KINDS)
    need, secret = rng.random() < .4, rng.random() < .4
    # get_secret takes no default
    d = ABSENT if need or (secret and kind == "str") else default(rng, kind)
    return {"op": "look", "name": name, "key": key, "kind": kind, "need": need, "secret": secret, "def": d, "asts": []}


def model_item(x, rng):
    """what Gen_Config emits, with lookups of every key after each change"""
    ops = []
    for o in x["ops"]:
        ops.append(o)
        for k in ("p:a-b", "p:a_b", "q:a-b"):
            ops.append(query(rng, rng.choice(["p", ""]) if k[0] == "p" else "q", k[2:]))
        ops.append({"op": "secretq", "k": "p:a_b"})
    return {"project": "p", "ops": ops}


def text_items(texts, rng):
    """every conversion of every text"""
    out = []
    for i in range(0, len(texts), 40):
        ops = []
        for s in texts[i:i + 40]:
            ops.append({"op": "set", "k": "p:k", "s": s})
            for kind in KINDS[1:]:
                q = query(rng, "", "k", kind)
                ops.append(q)
        out.append({"project": "p", "ops": ops})
    return out
