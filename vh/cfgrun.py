"""Configuration (spec/Config.tla): makes recorded changes to the sources and looks values up."""
import asyncio
import contextvars
import math
import os
from decimal import Decimal

import pulumi
from pulumi.runtime import config as rt_config
from pulumi.runtime import settings as rt_settings

import json

ABSENT = {"t": "absent"}
KIND = {"str": "", "bool": "_bool", "int": "_int", "float": "_float", "object": "_object"}


def canon(x):
    sign, digits, exp = Decimal(repr(x)).as_tuple()
    all_ = "".join(map(str, digits))
    lead = len(all_) - len(all_.lstrip("0"))
    d = all_.strip("0")
    return {"neg": bool(sign), "d": d, "e": len(all_) + exp - lead if d else 0}


def tag(x):
    if x is None:
        return {"t": "null"}
    if isinstance(x, bool):
        return {"t": "bool", "b": x}
    if isinstance(x, int):
        return {"t": "int", "num": canon(x)}
    if isinstance(x, float):
        if math.isnan(x):
            return {"t": "nan"}
        if math.isinf(x):
            return {"t": "inf", "neg": x < 0}
        return {"t": "float", "num": canon(x)}
    if isinstance(x, str):
        return {"t": "str", "s": x}
    if isinstance(x, list):
        return {"t": "list", "l": [tag(y) for y in x]}
    if isinstance(x, dict):
        return {"t": "dict", "k": list(x), "l": [tag(y) for y in x.values()]}
    return {"t": "other", "s": repr(x)[:100]}


def untag(t):
    if t["t"] == "null":
        return None
    if t["t"] == "bool":
        return t["b"]
    if t["t"] in ("int", "float"):
        n = t["num"]
        text = ("-" if n["neg"] else "") + "0." + (n["d"] or "0") + "e%d" % n["e"]
        return int(Decimal(text)) if t["t"] == "int" else float(text)
    if t["t"] == "str":
        return t["s"]
    if t["t"] == "list":
        return [untag(x) for x in t["l"]]
    return {k: untag(v) for k, v in zip(t["k"], t["l"])}


def work(item):
    saved = dict(os.environ)
    try:
        return contextvars.Context().run(_run, item)
    finally:
        for k in list(os.environ):
            if k.startswith("PULUMI"):
                del os.environ[k]
        os.environ.update({k: v for k, v in saved.items() if k.startswith("PULUMI")})


def look(loop, q):
    bag = pulumi.Config(q["name"]) if q["name"] else pulumi.Config()
    f = getattr(bag, ("require" if q["need"] else "get") + ("_secret" if q["secret"] else "") + KIND[q["kind"]])
    args = [q["key"]]
    if not q["need"] and q["def"] != ABSENT:
        args.append(untag(q["def"]))
    try:
        v = f(*args)
    except pulumi.ConfigMissingError as e:
        return {"t": "missing", "key": e.key, "named": "'%s'" % e.key in str(e), "runerror": isinstance(e, pulumi.RunError)}
    except pulumi.ConfigTypeError as e:
        return {"t": "wrong", "key": e.key, "named": "'%s'" % e.key in str(e), "runerror": isinstance(e, pulumi.RunError)}
    except Exception as e:  # noqa
        return {"t": "error", "s": repr(e)[:200]}
    if isinstance(v, pulumi.Output):
        async def settle():
            return await v.future(), await v.is_known(), await v.is_secret(), await v.resources()
        value, known, secret, deps = loop.run_until_complete(settle())
        if not known or deps:
            return {"t": "odd"}
        return {"t": "ok", "v": tag(value), "secret": secret}
    return {"t": "ok", "v": tag(v), "secret": False}


def _run(item):
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    rt_settings.configure(rt_settings.Settings(project=item["project"], stack="s"))
    for k in list(os.environ):
        if k.startswith("PULUMI"):
            del os.environ[k]
    rt_config.set_all_config({}, [])
    ev = []
    for o in item["ops"]:
        if o["op"] == "look":
            q = dict(o)
            q.pop("op")
            got = look(loop, q)
            ev.append({"ev": "look", "q": q, "got": got})
        elif o["op"] == "secretq":
            ev.append({"ev": "secretq", "k": o["k"], "got": rt_config.is_config_secret(o["k"])})
        elif o["op"] == "fullkey":
            ev.append({"ev": "fullkey", "name": o["name"], "key": o["key"], "got": pulumi.Config(o["name"] or None).full_key(o["key"])})
        else:
            if o["op"] == "set":
                rt_config.set_config(o["k"], o["s"])
            elif o["op"] == "setall":
                rt_config.set_all_config({e["k"]: e["s"] for e in o["m"]}, list(o["sk"]["keys"]) if o["sk"]["given"] else None)
            elif o["op"] == "env":
                os.environ[o["k"]] = o["s"]
            elif o["op"] == "delenv":
                os.environ.pop(o["k"], None)
            elif o["op"] == "bag":
                os.environ["PULUMI_CONFIG"] = json.dumps({e["k"]: e["s"] for e in o["m"]})
            ev.append(dict(o, ev=o["op"]))
    loop.close()
    return {"project": item["project"], "ev": ev}
