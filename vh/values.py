"""Tagged JSON values, the common currency of the specifications and of the drivers.

  {"t":"null"} {"t":"bool","b":true} {"t":"num","n":3} {"t":"flt","s":"1.5"} {"t":"str","s":"x"} {"t":"list","l":[..]}
  {"t":"dict","k":[sorted keys],"l":[values]} {"t":"unk"} {"t":"sec","v":..} {"t":"res","urn":..,"id":..,"ver":..}
  {"t":"outv","known":..,"secret":..,"deps":[..],"v":..} {"t":"asset","a":"path|text|uri","s":..}
  {"t":"arch","a":"path|uri","s":..} {"t":"arch","a":"assets","k":..,"l":..}  {"t":"bad","s":..}
"""
import types

from google.protobuf import struct_pb2

SIG = "4dabf18193072939515e22adb298388d"
S_ASSET = "c44067f5952c0a294b673a41bacd8c17"
S_ARCH = "0def7320c3a5731c473e5ecbe6d01bc7"
S_SECRET = "1b47061264138c4ac30d75fd1eb44270"
S_RES = "5cf8f73096256a8f31e491e813e4eb8e"
S_OUT = "d0e6a833031e9bbcd3f4e8bde6ca49a4"
UNK = "04da6b54-80e4-46f7-96ec-b56ff0331ba9"

NULL = {"t": "null"}


def num(x):
    if isinstance(x, float) and not x.is_integer() or abs(x) > 2**30:
        return {"t": "flt", "s": repr(float(x))}
    return {"t": "num", "n": int(x)}


def bad(x):
    return {"t": "bad", "s": "%s:%r" % (type(x).__name__, x if not hasattr(x, "__dict__") else "")}


def mkdict(d):
    ks = sorted(d)
    return {"t": "dict", "k": ks, "l": [d[k] for k in ks]}


# ---------------------------------------------------------------- protobuf -> tagged (not using the SDK's decoder)
def wire(v):
    if isinstance(v, struct_pb2.Value):
        kind = v.WhichOneof("kind")
        if kind is None or kind == "null_value":
            return NULL
        if kind == "bool_value":
            return {"t": "bool", "b": v.bool_value}
        if kind == "number_value":
            return num(v.number_value)
        if kind == "string_value":
            return {"t": "unk"} if v.string_value == UNK else {"t": "str", "s": v.string_value}
        if kind == "list_value":
            return {"t": "list", "l": [wire(x) for x in v.list_value.values]}
        return wire(v.struct_value)
    if isinstance(v, struct_pb2.Struct):
        f = v.fields
        if SIG in f:
            sig = f[SIG].string_value
            if sig == S_SECRET:
                return {"t": "sec", "v": wire(f["value"]) if "value" in f else bad("novalue")}
            if sig == S_RES:
                return {"t": "res", "urn": wire(f["urn"]) if "urn" in f else NULL,
                        "id": wire(f["id"]) if "id" in f else {"t": "none"}}
            if sig == S_OUT:
                r = {"t": "outv", "known": "value" in f, "secret": bool("secret" in f and f["secret"].bool_value),
                     "deps": sorted(x.string_value for x in f["dependencies"].list_value.values) if "dependencies" in f else []}
                r["v"] = wire(f["value"]) if "value" in f else NULL
                return r
            if sig == S_ASSET:
                ks = [k for k in f if k != SIG]
                if len(ks) == 1:
                    return {"t": "asset", "a": ks[0], "v": wire(f[ks[0]])}
                return bad("asset")
            if sig == S_ARCH:
                ks = [k for k in f if k != SIG]
                if len(ks) == 1:
                    return {"t": "arch", "a": ks[0], "v": wire(f[ks[0]])}
                return bad("archive")
            return bad("sig " + sig)
        return mkdict({k: wire(x) for k, x in f.items()})
    if isinstance(v, struct_pb2.ListValue):
        return {"t": "list", "l": [wire(x) for x in v.values]}
    return bad(v)


def wire_props(s):
    """A top-level property bag: no signature handling at the top."""
    return mkdict({k: wire(x) for k, x in s.fields.items()})


# ---------------------------------------------------------------- tagged -> protobuf
def unwire(t):
    v = struct_pb2.Value()
    k = t["t"]
    if k == "null":
        v.null_value = 0
    elif k == "bool":
        v.bool_value = t["b"]
    elif k == "num":
        v.number_value = t["n"]
    elif k == "flt":
        v.number_value = float(t["s"])
    elif k == "str":
        v.string_value = t["s"]
    elif k == "unk":
        v.string_value = UNK
    elif k == "list":
        v.list_value.SetInParent()
        for x in t["l"]:
            v.list_value.values.append(unwire(x))
    elif k == "dict":
        v.struct_value.CopyFrom(unwire_props(t))
    elif k == "sec":
        _sig(v, S_SECRET, value=unwire(t["v"]))
    elif k == "res":
        f = {"urn": unwire(t["urn"])}
        if t.get("id", {"t": "none"})["t"] != "none":
            f["id"] = unwire(t["id"])
        if t.get("ver"):
            f["packageVersion"] = unwire({"t": "str", "s": t["ver"]})
        _sig(v, S_RES, **f)
    elif k == "outv":
        f = {}
        if t["known"]:
            f["value"] = unwire(t["v"])
        if t["secret"]:
            f["secret"] = unwire({"t": "bool", "b": True})
        if t["deps"]:
            f["dependencies"] = unwire({"t": "list", "l": [{"t": "str", "s": d} for d in t["deps"]]})
        _sig(v, S_OUT, **f)
    elif k == "asset":
        _sig(v, S_ASSET, **{t["a"]: unwire(t["v"])})
    elif k == "arch":
        _sig(v, S_ARCH, **{t["a"]: unwire(t["v"])})
    elif k == "rawsig":
        _sig(v, t["s"], value=unwire(NULL))
    elif k == "rawsec":
        _sig(v, S_SECRET)
    else:
        raise ValueError(t)
    return v


def _sig(v, sig, **fields):
    v.struct_value.SetInParent()
    v.struct_value.fields[SIG].string_value = sig
    for k, x in fields.items():
        v.struct_value.fields[k].CopyFrom(x)


def unwire_props(t):
    s = struct_pb2.Struct()
    for k, x in zip(t["k"], t["l"]):
        s.fields[k].CopyFrom(unwire(x))
    return s


# ---------------------------------------------------------------- SDK python value -> tagged
def tag(x, resname=None):
    """Projects a resolved Python value (no Outputs inside unless the SDK leaked one)."""
    import pulumi
    from pulumi.output import Unknown

    if x is None:
        return NULL
    if isinstance(x, bool):
        return {"t": "bool", "b": x}
    if isinstance(x, (int, float)):
        return num(x)
    if isinstance(x, str):
        return {"t": "unk"} if x == UNK else {"t": "str", "s": x}
    if isinstance(x, Unknown):
        return {"t": "unk"}
    if isinstance(x, (list, tuple)):
        return {"t": "list", "l": [tag(y, resname) for y in x]}
    if isinstance(x, dict):
        if x.get(SIG) == S_SECRET:
            return {"t": "sec", "v": tag(x["value"], resname)}
        return mkdict({str(k): tag(v, resname) for k, v in x.items()})
    if isinstance(x, pulumi.Resource):
        return {"t": "resobj", "s": resname(x) if resname else "?"}
    if isinstance(x, pulumi.asset.Asset):
        for a in ("path", "text", "uri"):
            if hasattr(x, a):
                return {"t": "asset", "a": a, "v": tag(getattr(x, a), resname)}
    if isinstance(x, pulumi.asset.Archive):
        for a in ("assets", "path", "uri"):
            if hasattr(x, a):
                return {"t": "arch", "a": a, "v": tag(getattr(x, a), resname)}
    if isinstance(x, pulumi.Output):
        return {"t": "outq"}
    if isinstance(x, types.SimpleNamespace):
        return {"t": "obj", "v": tag(x.a, resname)}
    return bad(x)
