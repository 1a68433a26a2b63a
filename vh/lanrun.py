"""Runs programs by the real launcher, pulumi-language-python-exec (C30): a process each, against an engine of its own."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

from .inrun import Rec, servers
from .wsrun import esc, un

EXEC = os.environ.get("LAUNCHER_UNDER_TEST", "/repo/sdk/python/cmd/pulumi-language-python-exec")

# what the program is: it interprets its actions, from a file beside it
MAIN = '''
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
__hidden__ = 1
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "actions.json")) as fh:
    what = json.load(fh)
import helper
helper.go(what, __name__, globals())
'''
HELPER = '''
import asyncio, json, os, sys, time
import pulumi
from pulumi.runtime import config


class R(pulumi.CustomResource):
    def __init__(self, name, props):
        super().__init__("t:m:R", name, props)


def say(x):
    sys.stdout.write("@@" + json.dumps(x) + "\\n")


def where_it_fails(kind, v):
    raise {"RunError": pulumi.RunError, "ValueError": ValueError, "Exception": Exception}[kind](*([v] if v else []))


def go(what, name, g):
    say({"name": name, "cwd": os.getcwd(), "argv": sys.argv, "parallel": pulumi.runtime.settings.SETTINGS.parallel, "hidden": "__hidden__" in g})
    for a in what["prog"]:
        k, n, v = a["a"], a["n"], a["v"]
        if k == "read":
            row = [pulumi.get_project(), pulumi.get_stack(), pulumi.get_organization() if what["org"] else "", json.dumps(pulumi.runtime.is_dry_run())]
            for key in what["keys"]:
                ns, nm = key.split(":", 1)
                c = pulumi.Config(ns).get(nm)
                row.append(("none" if c is None else "=" + c) + ("!" if config.is_config_secret(key) else ""))
            say({"seen": row})
        elif k == "set":
            pulumi.runtime.set_config(n, v)
        elif k == "mark":
            def t(args, v=v):
                return pulumi.ResourceTransformationResult({**args.props, "m": args.props.get("m", "") + v}, args.opts)
            pulumi.runtime.register_stack_transformation(t)
        elif k == "res":
            R(n, {"p": pulumi.Output.secret(v) if a["s"] else v})
        elif k == "ask":
            R(n, {"p": (pulumi.Output.secret(v) if a["s"] else pulumi.Output.from_input(v)).apply(lambda x: x)})
        elif k == "late":
            async def later(n=n, v=v, s=a["s"]):
                await asyncio.sleep(.01)
                R(n, {"p": pulumi.Output.secret(v) if s else v})
            asyncio.ensure_future(later())
        elif k == "wait":
            time.sleep(.01)
        elif k == "export":
            pulumi.export(n, v)
        elif k == "log":
            pulumi.log.info(v)
        elif k == "callback":
            def bad(_, v=v):
                where_it_fails("ValueError", v)
            pulumi.Output.from_input(1).apply(bad)
        elif k == "raise":
            where_it_fails(n, v)
        elif k == "exit":
            sys.exit(*([] if v == "" else [int(v) if v.lstrip("-").isdigit() else v]))
        else:
            raise AssertionError(k)
'''


def work(item):
    import pulumi
    e = item["e"]
    top = tempfile.mkdtemp(prefix="lan-")
    s = None
    try:
        rec = Rec(e)
        pwd = os.path.join(top, "a b") if item["deep"] else top
        home = os.path.join(pwd, "src") if item["form"] in ("subdir", "subfile") else pwd
        os.makedirs(home)if home != top else None
        os.makedirs(os.path.join(top, "elsewhere"))
        main = os.path.join(home, "__main__.py" if item["form"] in ("dir", "subdir", "abs") else "prog.py")
        text = MAIN if item["kind"] == "ok" else "this is not Python\n"
        if item["kind"] != "missing":
            with open(main, "w") as fh:
                fh.write(text)
        with open(os.path.join(home, "helper.py"), "w") as fh:
            fh.write(HELPER)
        with open(os.path.join(home, "actions.json"), "w") as fh:
            json.dump({"prog": [{"a": a["a"], "n": un(a["n"]), "v": un(a["v"]), "s": a["s"]} for a in item["prog"]], "keys": [un(k) for k in e["keys"]], "org": e["org"]}, fh)
        prog = {"dir": ".", "file": "prog.py", "subdir": "src", "subfile": os.path.join("src", "prog.py"), "abs": home}[item["form"]]
        s, addr = servers(rec)
        args = [sys.executable, "-B", EXEC, "--monitor", addr]
        if item["engine"]:
            args += ["--engine", addr]
        args += ["--project", un(e["project"]), "--stack", un(e["stack"])]
        if item["pwd"]:
            args += ["--pwd", pwd]
        args += ["--dry_run", json.dumps(e["dry"]), "--parallel", str(item["parallel"])]
        if e["org"]:
            args += ["--organization", un(e["org"])]
        args += [prog] + [un(x) for x in item["args"]]
        env = {k: v for k, v in os.environ.items() if not k.startswith("PULUMI_")}
        env["PYTHONPATH"] = os.path.dirname(os.path.dirname(os.path.abspath(pulumi.__file__)))
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONIOENCODING"] = "utf-8"
        if e["cfg"] or item["bag"]:
            env["PULUMI_CONFIG"] = json.dumps({un(k): un(v) for k, v in e["cfg"]})
        if e["sec"] or item["bag"]:
            env["PULUMI_CONFIG_SECRET_KEYS"] = json.dumps([un(k) for k in e["sec"]])
        try:
            p = subprocess.run(args, cwd=os.path.join(top, "elsewhere") if item["pwd"] else pwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            code, out, err = str(p.returncode), p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            code, out, err = "hang", "", ""
        said = [json.loads(x[2:]) for x in out.split("\n") if x.startswith("@@")]
        first = [x for x in said if "name" in x]
        start = {"main": bool(first) and first[0]["name"] == "__main__" and first[0]["hidden"], "cwd": bool(first) and os.path.realpath(first[0]["cwd"]) == os.path.realpath(pwd),
                 "argv": bool(first) and first[0]["argv"] == [prog] + [un(x) for x in item["args"]], "parallel": bool(first) and first[0]["parallel"] == item["parallel"], "times": len(first)}
        errors = []
        pre = "Program failed with an unhandled exception:\n"
        logs = rec.logs
        texts = rec.errors
        if not item["engine"]:  # without an engine, messages go to stderr
            logs = [esc(x[6:]) for x in err.split("\n") if x.startswith("info: ")]
            at = err.find("error: " + pre)
            head = err if at < 0 else err[:at]
            texts = [x[7:] for x in head.split("\n") if x.startswith("error: ")] + ([] if at < 0 else [err[at + 7:].rstrip("\n")])
        for m in texts:
            if not m.startswith(pre):
                errors.append({"k": "run", "s": esc(m), "own": True, "at": True})
                continue
            files = re.findall(r'File "([^"]*)", line', m)
            whole = m[len(pre):].rstrip("\n")
            last = whole.split("\n")
            i = max([j for j, x in enumerate(last) if x.startswith("  ")] or [-1])
            txt = "\n".join(last[i + 1:])
            errors.append({"k": "other", "s": esc(txt.split(": ", 1)[1] if ": " in txt else ""), "own": bool(files) and os.path.realpath(os.path.join(pwd, files[0])) == os.path.realpath(main),
                           "at": "where_it_fails" in m})
        return {"e": e, "prog": item["prog"], "kind": item["kind"], "engine": item["engine"], "code": code, "start": start, "seen": [[esc(c) for c in x["seen"]] for x in said if "seen" in x],
                "sent": rec.sent, "stacks": rec.stacks, "out": rec.out, "logs": logs, "errors": errors, "err": esc(err.rstrip("\n").split("\n")[-1])}
    finally:
        if s is not None:
            s.stop(0)
        shutil.rmtree(top, ignore_errors=True)
