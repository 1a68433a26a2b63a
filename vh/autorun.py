"""Runs Automation API operations against the stand-in CLI and records what the CLI was asked, what the caller got, and what
was left behind."""
import json
import os
import socket
import threading
import time

from .fakecli import FakeCLI, Usage, parse


def tree(x):
    import datetime
    import enum
    from pulumi import automation as au
    if isinstance(x, enum.Enum):
        return {"t": "enum", "c": type(x).__name__, "s": json.dumps(x.value)}
    if x is None or isinstance(x, (bool, int, float, str)):
        return {"t": "lit", "s": json.dumps(x)}
    if isinstance(x, datetime.datetime):
        return {"t": "lit", "s": json.dumps(x.strftime("%Y-%m-%dT%H:%M:%S.") + "%03dZ" % (x.microsecond // 1000))}
    if isinstance(x, dict):
        return {"t": "dict", "k": [str(k.value) if isinstance(k, enum.Enum) else k for k in x], "l": [tree(v) for v in x.values()]}
    if isinstance(x, (list, tuple)):
        return {"t": "list", "l": [tree(v) for v in x]}
    d = dict(vars(x))
    if isinstance(x, au.UpdateSummary):
        d.pop("Deployment", None)
    if isinstance(x, au.Deployment):
        return {"t": "dict", "k": ["version", "deployment"], "l": [tree(x.version), tree(x.deployment)]}
    return {"t": "obj", "c": type(x).__name__, "k": list(d), "l": [tree(v) for v in d.values()]}


def _listening(port):
    """whether this process (not another one that was given the same port since) listens there"""
    mine = set()
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if t.startswith("socket:["):
            mine.add(t[8:-1])
    for name in ("tcp", "tcp6"):
        try:
            with open("/proc/self/net/" + name) as fh:
                for line in fh:
                    f = line.split()
                    if len(f) > 9 and f[1].endswith(":%04X" % port) and f[3] == "0A" and f[9] in mine:
                        return True
        except OSError:
            pass
    return False


def _alive(addr, tries=40):
    port = int(addr.rsplit(":", 1)[1])
    for i in range(tries):
        s = socket.socket()
        s.settimeout(1)
        try:
            s.connect(("127.0.0.1", port))
        except OSError:
            return False
        finally:
            s.close()
        if not _listening(port):
            return False
        if i + 1 < tries:
            time.sleep(.05)
    return True


def _busy():
    return [t for t in threading.enumerate() if t is not threading.main_thread() and not t.name.startswith(("fakecli", "ThreadPoolExecutor"))
            and not t.daemon]


def _files(d):
    out = []
    for r, ds, fs in os.walk(d):
        out += [os.path.relpath(os.path.join(r, x), d) for x in ds + fs]
    return set(out)


def work(item):
    import logging
    logging.disable(logging.CRITICAL)
    from pulumi import automation as au
    state = {"script": None, "runs": [], "addr": None, "imported": tree(None)}

    def handler(call, out):
        try:
            c = parse(call["argv"])
        except Usage as ex:
            c = {"cmd": ["?"], "fl": [["usage", str(ex)]], "pos": call["argv"]}
        sc = state["script"]
        if sc is None:
            if c["cmd"] == ["version"]:
                out("out", b"v3.40.0\n")
            return 0
        key = "main"
        fl = dict((f, v) for f, v in c["fl"])
        if sc["op"] not in ("history", "info", "export", "import", "outputs", "cancel"):
            key = {"stack output": "shown" if "show-secrets" in fl else "masked", "stack history": "history"}.get(" ".join(c["cmd"]), "main")
        elif sc["op"] == "outputs":
            key = "shown" if "show-secrets" in fl else "masked"
        a = dict(sc["answers"].get(key) or {"out": [], "err": "", "code": 0})
        if key == "main" and sc["op"] in ("history", "info"):
            a = sc["answers"].get("history", a)
        if c["cmd"] == ["stack", "history"] and fl.get("page-size") and a["code"] == 0 and "json" in a:
            n = int(fl["page-size"])
            a = dict(a, json=a["json"][:n]) if sc["op"] != "history" else a
        if "json" in a and a["code"] == 0:
            a["out"] = [json.dumps(a["json"], indent=2) + "\n"]
        wd = os.path.realpath(call["cwd"]) == os.path.realpath(item["wd"])
        base = state["env"]
        env = [[k, v] for k, v in call["env"].items() if base.get(k) != v and k not in ("PWD", "OLDPWD", "SHLVL", "_")]
        gone = [k for k in base if k not in call["env"]]
        # what must be true of names that are made up on the way
        for f in c["fl"]:
            if f[0] == "client":
                state["addr"] = f[1]
                if f[1].startswith("127.0.0.1:") and any(_alive(f[1], 1) or time.sleep(.05) for _ in range(20)):
                    f[1] = "ADDRESS"
            elif f[0] in ("event-log", "file"):
                p = f[1]
                if os.path.isfile(p):
                    f[1] = "FILE"
                    if f[0] == "file":
                        with open(p) as fh:
                            state["imported"] = tree(json.load(fh))
                    else:
                        state["log"] = p
        rec = {"call": c, "cwd": wd, "env": env, "gone": gone, "code": a["code"], "out": "".join(a["out"]), "err": a["err"]}
        state["runs"].append(rec)
        evs = sc.get("sent", []) if key == "main" else []
        log = fl.get("event-log")
        if log and os.path.isfile(log):
            with open(log, "a", encoding="utf-8") as fh:
                for i, e in enumerate(evs):
                    line = json.dumps(e, ensure_ascii=False) + "\n"
                    cut = sc.get("cuts", {}).get(str(i))
                    if cut:
                        fh.write(line[:cut])
                        fh.flush()
                        time.sleep(.15)
                        line = line[cut:]
                    fh.write(line)
                    fh.flush()
        parts = [("out", x.encode()) for x in a["out"]]
        if a["err"]:
            parts.insert(len(parts) // 2, ("err", a["err"].encode()))
        for k, b in parts:
            if b and sc.get("bytes"):
                m = len(b) // 2
                out(k, b[:m])
                out(k, b[m:])
            elif b:
                out(k, b)
        return a["code"]

    cli = FakeCLI(handler)
    try:
        item = dict(item)
        item["wd"] = os.path.join(cli.dir, "wd")
        os.makedirs(item["wd"])
        with open(os.path.join(item["wd"], "Pulumi.yaml"), "w") as fh:
            fh.write("name: proj\nruntime: python\n")
        for k, v in item["ambient"]:
            os.environ[k] = v
        state["env"] = dict(os.environ)
        prog = (lambda: None) if item["program"] else None
        ws = au.LocalWorkspace(work_dir=item["wd"], program=prog, env_vars=dict(item["env"]) or None, pulumi_home=item["home"] or None)
        st = au.Stack(item["stack"], ws, au._stack.StackInitMode(item["mode"]))
        evs = []
        for o in item["ops"]:
            state.update(script=o, runs=[], addr=None, imported=tree(None))
            heard, seen = [], []
            kw = {}
            for a in o["args"]:
                nm = a["a"]
                if "on" in a:
                    kw[nm] = a["on"]
                elif nm in ("target", "replace", "policy_packs", "policy_pack_configs"):
                    kw[nm] = list(a["v"])
                elif nm in ("parallel", "log_verbosity"):
                    kw[nm] = int(a["v"][0])
                else:
                    kw[nm] = a["v"][0]
            if o["listens"]:
                kw["on_output"] = heard.append
            if o["events"]:
                kw["on_event"] = lambda e: seen.append(tree(e))
            if o["op"] in ("up", "refresh", "destroy") and not o["secrets"]:
                kw["show_secrets"] = False
            if o["own"] and o["op"] in ("up", "preview"):
                kw["program"] = lambda: None
            before, f0 = set(_busy()), _files(cli.tmp)
            t0 = time.time()
            try:
                if o["op"] in ("up", "preview", "refresh", "destroy"):
                    r = getattr(st, o["op"])(**kw)
                    got = {"t": "ok", "stdout": r.stdout, "stderr": r.stderr}
                    if o["op"] == "preview":
                        got["changes"] = tree(r.change_summary)
                    else:
                        got["summary"] = tree(r.summary)
                    if o["op"] == "up":
                        got["outputs"] = tree(r.outputs)
                elif o["op"] == "history":
                    kw = {}
                    if o["size"]:
                        kw["page_size"] = int(o["size"])
                    if o["page"]:
                        kw["page"] = int(o["page"])
                    got = {"t": "ok", "value": tree(st.history(show_secrets=o["secrets"], **kw))}
                elif o["op"] == "info":
                    got = {"t": "ok", "value": tree(st.info(show_secrets=o["secrets"]))}
                elif o["op"] == "outputs":
                    got = {"t": "ok", "value": tree(st.outputs())}
                elif o["op"] == "export":
                    got = {"t": "ok", "value": tree(st.export_stack())}
                elif o["op"] == "import":
                    st.import_stack(au.Deployment(**o["state"]))
                    got = {"t": "ok"}
                else:
                    getattr(st, o["op"])()
                    got = {"t": "ok"}
            except Exception as ex:  # noqa
                got = {"t": "error", "c": type(ex).__name__, "text": str(ex)}
            for _ in range(40):
                left = [t for t in _busy() if t not in before]
                if not left:
                    break
                time.sleep(.05)
            shut = None
            evs.append({"o": {k: o[k] for k in ("op", "args", "listens", "events", "secrets", "size", "page")} | {"program": bool(prog) or (o["own"] and o["op"] in ("up", "preview"))},
                        "runs": list(state["runs"]), "got": got, "heard": heard, "sent": [tree(e) for e in o.get("sent", [])], "seen": seen,
                        "masked": tree(o["answers"].get("masked", {}).get("json", {})), "shown": tree(o["answers"].get("shown", {}).get("json", {})),
                        "history": tree(o["answers"].get("history", {}).get("json", [])), "state": tree(o["state"]), "imported": state["imported"],
                        "left": sorted(_files(cli.tmp) - f0), "threads": len(left), "open": bool(state["addr"] and _alive(state["addr"])),
                        "took": round(time.time() - t0, 2)})
        if cli.errors:
            raise RuntimeError(cli.errors[0])
        return {"stack": item["stack"], "env": item["env"], "home": item["home"], "ev": evs}
    finally:
        cli.close()
        for k, _ in item["ambient"]:
            os.environ.pop(k, None)
