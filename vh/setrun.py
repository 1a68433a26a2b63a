"""Runs histories of reads and writes of settings on the real LocalWorkspace (C25)."""
import json
import os
import random
import shutil
import tempfile

import yaml

from .fakecli import FakeCLI, parse
from .autorun import tree


def plain(t):
    """the data a tree stands for"""
    if t["t"] == "lit":
        return json.loads(t["s"])
    if t["t"] == "list":
        return [plain(x) for x in t["l"]]
    return {k: plain(x) for k, x in zip(t["k"], t["l"])}


def real(t):
    from pulumi import automation as au
    from pulumi.automation import _project_settings as ps, _stack_settings as ss
    if t["t"] == "lit":
        return json.loads(t["s"])
    if t["t"] == "list":
        return [real(x) for x in t["l"]]
    kv = {k: real(x) for k, x in zip(t["k"], t["l"])}
    if t["t"] == "dict":
        return kv
    return getattr(ps if hasattr(ps, t["c"]) else ss, t["c"])(**kv)


WIRE = {"secrets_provider": "secretsprovider", "encrypted_key": "encryptedkey", "encryption_salt": "encryptionsalt"}


def wire(t, rng):
    """what the CLI, or a person, would have written"""
    if t["t"] == "lit":
        return json.loads(t["s"])
    if t["t"] == "list":
        return [wire(x, rng) for x in t["l"]]
    out = {}
    for k, x in zip(t["k"], t["l"]):
        if t["t"] == "obj" and x == {"t": "lit", "s": "null"} and rng.random() < .8:
            continue
        out[WIRE.get(k, k) if t.get("c") == "StackSettings" else k] = wire(x, rng)
    return out


def bad(s):
    return {"t": "lit", "s": s}


def snapshot(d):
    """the files of the directory: what they hold"""
    out = []
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        try:
            with open(p, "rb") as fh:
                x = fh.read().decode("utf-8")
            x = json.loads(x) if f.endswith(".json") else yaml.safe_load(x)
            out.append({"f": f, "d": tree(x)})
        except Exception as ex:  # noqa
            out.append({"f": f, "d": bad("unreadable: " + type(ex).__name__)})
    return out


def raw(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}


CLI = {}


def _cli():
    if "c" not in CLI:
        def handler(call, out):
            if parse(call["argv"])["cmd"] == ["version"]:
                out("out", b"v3.40.0\n")
            return 0
        CLI["c"] = FakeCLI(handler)
        import atexit
        atexit.register(CLI["c"].close)
    return CLI["c"]


def work(item):
    from pulumi import automation as au
    cli = _cli()
    top = tempfile.mkdtemp(prefix="set-", dir=cli.dir)
    ev = []

    def attempt(f):
        try:
            return {"t": "ok", "v": tree(f())}
        except Exception as ex:  # noqa
            return {"t": "error", "c": type(ex).__name__, "s": str(ex)[:200]}

    def add(kind, d, **k):
        ev.append(dict(k, ev=kind, fs=snapshot(d)))

    try:
        d = os.path.join(top, "w0")
        os.makedirs(d)
        other = os.path.join(top, "w1")
        os.makedirs(other)
        ws = au.LocalWorkspace(work_dir=d)
        opts, seen = None, {d, other}

        def reads():
            for n in [None] + item["names"]:
                b = raw(d)
                got = attempt(ws.project_settings if n is None else lambda: ws.stack_settings(n))
                add("loadproject" if n is None else "loadstack", d, got=got, same=raw(d) == b, **({} if n is None else {"name": n}))
        for o in item["ops"]:
            if o["op"] == "opts":
                of = o
                opts = None if o["none"] else au.LocalWorkspaceOptions(
                    work_dir=os.path.join(top, "w2") if o["dir"] else None, pulumi_home=os.path.join(top, "home") if o["home"] else None,
                    env_vars={"A": "b"} if o["env"] else None, secrets_provider="passphrase" if o["sp"] else None,
                    project_settings=real(o["given"]) if o["given"]["t"] == "obj" else None,
                    stack_settings={x["name"]: real(x["s"]) for x in o["stacks"]} if o["stacks"] else None)
                os.makedirs(os.path.join(top, "w2"), exist_ok=True)
                continue
            if o["op"] == "open":
                def program():
                    pass
                where = (os.path.join(top, "w2") if of["dir"] and opts else None) if o["inline"] else (d if o["work"] and d in seen else other)
                before = snapshot(where) if where else []
                made = {}

                def go():
                    kw = {"project_name": o["project"], "program": program} if o["inline"] else {"work_dir": where}
                    made["s"] = getattr(au, o["how"])(o["name"], opts=opts, **kw)
                got = attempt(go)
                if got["t"] == "ok":
                    ws = made["s"].workspace
                    right = ws.work_dir == where if where else (ws.work_dir not in seen and os.path.isdir(ws.work_dir))
                    d = ws.work_dir
                    seen.add(d)
                    as_given = (ws.program is (program if o["inline"] else None) and dict(ws.env_vars) == ({"A": "b"} if opts and of["env"] else {})
                                and ws.pulumi_home == (os.path.join(top, "home") if opts and of["home"] else None)
                                and ws.secrets_provider == ("passphrase" if opts and of["sp"] else None) and made["s"].name == o["name"])
                    add("open", d, before=before, given=of["given"] if opts else bad("null"), stacks=of["stacks"] if opts else [], inline=o["inline"],
                        project=json.dumps(o["project"])[1:-1], got=got, dir=bool(right), prog=bool(as_given))
                else:
                    add("open", d, before=before, given=of["given"] if opts else bad("null"), stacks=of["stacks"] if opts else [], inline=o["inline"],
                        project=json.dumps(o["project"])[1:-1], got=got, dir=True, prog=True)
            elif o["op"] == "saveproject":
                x = real(o["s"])
                got = attempt(lambda: ws.save_project_settings(x))
                add("saveproject", d, s=o["s"], got=got)
            elif o["op"] == "savestack":
                x = real(o["s"])
                got = attempt(lambda: ws.save_stack_settings(o["name"], x))
                add("savestack", d, name=o["name"], s=o["s"], got=got)
            elif o["op"] == "again":
                # what was read is written back
                b = ws_read = None
                try:
                    n = item["names"][0]
                    ws_read = ws.stack_settings(n)
                    b = tree(ws_read)
                except Exception:  # noqa
                    continue
                got = attempt(lambda: ws.save_stack_settings(n, ws_read))
                add("savestack", d, name=n, s=b, got=got)
            elif o["op"] == "put":
                rng = random.Random(o["style"])
                x = wire(o["s"], rng)
                at = os.path.join(top, o["at"]) if "at" in o else d
                with open(os.path.join(at, o["f"]), "w", encoding="utf-8") as fh:
                    if o["f"].endswith(".json"):
                        json.dump(x, fh, indent=rng.choice([None, 2]), ensure_ascii=rng.random() < .5)
                    else:
                        if rng.random() < .3:
                            fh.write("# settings\n")
                        yaml.safe_dump(x, fh, default_flow_style=rng.choice([True, False, None]), allow_unicode=rng.random() < .5, sort_keys=False)
                if at != d:
                    continue
                add("put", d)
            elif o["op"] == "del":
                p = os.path.join(d, o["f"])
                if os.path.exists(p):
                    os.remove(p)
                add("del", d)
            reads()
        if cli.errors:
            raise RuntimeError("stand-in CLI: " + cli.errors[0])
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return {"cwd": json.dumps(os.getcwd())[1:-1], "ev": ev}
