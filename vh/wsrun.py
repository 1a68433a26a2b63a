"""Runs histories of workspace operations on the real Automation API, against a stand-in CLI that keeps stacks, configuration
and plugins as the engine's CLI does (C26). Texts of items and traces are JSON-escaped."""
import datetime
import json
import os
import shutil
import tempfile

from .fakecli import FakeCLI, Usage, parse

HERE = {}


def esc(x):
    return json.dumps(x)[1:-1] if isinstance(x, str) else "not a text: " + json.dumps(repr(x))[1:-1]


def un(x):
    return json.loads('"' + x + '"')


def canon(x):
    return json.dumps(x, sort_keys=True)


class Fail(Exception):
    pass


class Store:
    """The CLI's view of the world: stacks by directory, plugins by home."""

    def __init__(self, dirs, homes):
        self.dirs, self.homes = dirs, homes

    def where(self, cwd):
        for d in self.dirs:
            if os.path.realpath(d["path"]) == os.path.realpath(cwd):
                return d
        raise Fail("error: no Pulumi.yaml project file found")

    def stack(self, d, p):
        name = ([v for k, v in p["fl"] if k == "stack"] or [d["cur"]])[-1]
        for s in d["st"]:
            if s["n"] == name:
                return s
        raise Fail("error: no stack named '%s' found" % name)

    def run(self, argv, cwd, env):
        """-> (code, stdout, stderr)"""
        try:
            p = parse(argv)
            return 0, self.do(p, cwd, env), ""
        except Usage as ex:
            return 1, "", "error: %s\n" % ex
        except Fail as ex:
            return 255, "", "%s\n" % ex

    def do(self, p, cwd, env):
        cmd, pos = " ".join(p["cmd"]), p["pos"]
        fl = dict(p["fl"])
        if cmd == "version":
            return "v3.40.0\n"
        if cmd == "whoami":
            return env.get("PULUMI_ACCESS_TOKEN", "nobody") + "\n"
        if cmd.startswith("plugin"):
            return self.plugin(cmd, pos, fl, env)
        d = self.where(cwd)
        if cmd == "stack init":
            name = (pos + [fl.get("stack")])[0]
            if any(s["n"] == name for s in d["st"]):
                raise Fail("error: stack '%s' already exists" % name)
            d["st"].append({"n": name, "sp": fl.get("secrets-provider", ""), "cfg": {}, "last": None, "outs": {}, "dep": None, "rc": None, "lu": None, "uip": False, "url": None})
            d["cur"] = name
            return "Created stack '%s'\n" % name
        if cmd == "stack ls":
            rows = []
            for s in d["st"]:
                r = {"name": s["n"], "current": s["n"] == d["cur"], "updateInProgress": s["uip"]}
                for k, v in (("lastUpdate", s["lu"]), ("resourceCount", s["rc"]), ("url", s["url"])):
                    if v is not None:
                        r[k] = v
                rows.append(r)
            return self.js(rows, fl)
        if cmd in ("stack rm", "stack select") and pos:
            p = dict(p, fl=p["fl"] + [["stack", pos[0]]])
        s = self.stack(d, p)
        if cmd == "stack select":
            d["cur"] = s["n"]
            return ""
        if cmd == "stack rm":
            if "yes" not in fl:
                raise Fail("error: --yes must be passed in non-interactive mode")
            if s["rc"] and "force" not in fl:
                raise Fail("error: '%s' still has resources; removal rejected. Possible actions:" % s["n"])
            d["st"].remove(s)
            if d["cur"] == s["n"]:
                d["cur"] = ""
            return "Stack '%s' has been removed!\n" % s["n"]
        if cmd == "stack output":
            return self.js({k: v if not sec or "show-secrets" in fl else "[secret]" for k, (v, sec) in s["outs"].items()}, fl)
        if cmd == "stack export":
            dep = s["dep"] if s["dep"] is not None else {"version": 3, "deployment": None}
            return json.dumps(dep if "show-secrets" in fl else {"version": 3, "deployment": {"masked": True}}, indent=4) + "\n"
        if cmd == "stack import":
            with open(fl["file"], encoding="utf-8") as fh:
                dep = json.load(fh)
            s["dep"] = dep
            return "Import complete.\n"
        full = lambda k: k if ":" in k else d["proj"] + ":" + k
        if cmd == "config":
            out = {}
            for k, (v, sec) in sorted(s["cfg"].items()):
                out[k] = {"value": v, "secret": sec} if not sec or "show-secrets" in fl else {"secret": sec}
            return self.js(out, fl)
        if cmd == "config get":
            if full(pos[0]) not in s["cfg"]:
                raise Fail("error: configuration key '%s' not found for stack '%s'" % (pos[0], s["n"]))
            v, sec = s["cfg"][full(pos[0])]
            return self.js({"value": v, "secret": sec}, fl) if "json" in fl else v + "\n"
        if cmd == "config set":
            if len(pos) != 2:
                raise Fail("error: value must be provided in non-interactive mode")
            s["cfg"][full(pos[0])] = (pos[1], "secret" in fl)
            return ""
        if cmd == "config set-all":
            for kind in ("plaintext", "secret"):
                for k, v in p["fl"]:
                    if k == kind:
                        if "=" not in v:
                            raise Fail("error: config value not provided in the form of key=value")
                        a, b = v.split("=", 1)
                        s["cfg"][full(a)] = (b, kind == "secret")
            return ""
        if cmd in ("config rm", "config rm-all"):
            if cmd == "config rm" and len(pos) != 1:
                raise Fail("error: accepts 1 arg(s), received %d" % len(pos))
            for k in pos:
                s["cfg"].pop(full(k), None)
            return ""
        if cmd == "config refresh":
            if "force" not in fl:
                raise Fail("error: config file has changes")
            if s["last"] is None:
                raise Fail("error: no previous deployment")
            s["cfg"] = dict(s["last"])
            return "refreshed configuration for stack '%s'\n" % s["n"]
        raise Fail("error: unknown command %s" % cmd)

    def js(self, x, fl):
        if "json" not in fl:
            raise Fail("error: (stand-in) no --json")
        return json.dumps(x, indent=2) + "\n"

    def plugin(self, cmd, pos, fl, env):
        h = self.homes.get(env.get("PULUMI_HOME", ""))
        if h is None:
            raise Fail("error: (stand-in) no such home")
        if cmd == "plugin ls":
            rows = []
            for n, k, v, size, inst, used in h:
                r = {"name": n, "kind": k, "version": v, "size": int(size)}
                if inst != "none":
                    r["installTime"] = inst
                if used != "none":
                    r["lastUsedTime"] = used
                rows.append(r)
            return self.js(rows, fl)
        if cmd == "plugin install":
            if len(pos) != 3:
                raise Fail("error: missing plugin name or version argument")
            k, n, v = pos
            if not any(r[:3] == [n, k, v] for r in h):
                at = HERE["ctx"]["attrs"]
                h.append([n, k, v] + list(at))
            return ""
        if "yes" not in fl:
            raise Fail("error: --yes must be passed in non-interactive mode")
        keep = [r for r in h if not ((not pos or r[1] == pos[0]) and (len(pos) < 2 or r[0] == pos[1]) and (len(pos) < 3 or r[2] == pos[2]))]
        if not pos and "all" not in fl:
            raise Fail("error: please pass --all")
        h[:] = keep
        return ""


FAULTS = {"CommandError": "error: something went wrong\n", "StackAlreadyExistsError": "error: stack 'x' already exists\n", "StackNotFoundError": "error: no stack named 'x' found\n",
          "ConcurrentUpdateError": "error: [409] Conflict: Another update is currently in progress.\n"}
NOISE = "warning: A new version of Pulumi is available. To upgrade from version '3.40.0' to '3.41.0', visit https://pulumi.com/docs/reference/install/\n"


def _cli():
    if "cli" not in HERE:
        def handler(call, out):
            c = HERE["ctx"]
            if "version" in call["argv"][:1]:
                out("out", c["version"].encode() + b"\n")
                return 0
            c["n"] += 1
            if c["noise"]:
                out("err", NOISE.encode())
            if c["fault"]["at"] == c["n"]:
                out("err", FAULTS[c["fault"]["c"]].encode())
                return 255
            code, o, e = c["store"].run(call["argv"], call["cwd"], call["env"])
            if o:
                out("out", o.encode())
            if e:
                out("err", e.encode())
            return code
        HERE["cli"] = FakeCLI(handler)
        import atexit
        atexit.register(HERE["cli"].close)
    return HERE["cli"]


def when(t):
    return "none" if t is None else (t.isoformat(timespec="milliseconds") + "Z" if isinstance(t, datetime.datetime) else "not a time: " + repr(t))


def maybe(x):
    return "none" if x is None else esc(x)


def number(x):
    return "none" if x is None else json.dumps(x)


def summary(s):
    return [esc(s.name), json.dumps(s.current), when(s.last_update), json.dumps(s.update_in_progress), number(s.resource_count), maybe(s.url)]


def deptext(d):
    return "null" if d == {"version": 3, "deployment": None} or d is None else esc(canon(d))


class History:
    def __init__(self, item, top):
        from pulumi import automation as au
        self.au, self.item, self.top = au, item, top
        self.homes = []
        for i in range(2):
            self.homes.append(os.path.join(top, "home%d" % (i + 1)))
            os.makedirs(self.homes[-1])
        dirs = []
        for i, d in enumerate(item["dirs"]):
            p = os.path.join(top, "d%d" % (i + 1))
            os.makedirs(p)
            dirs.append({"path": p, "proj": d["proj"], "cur": "", "st": []})
        self.store = Store(dirs, {h: [] for h in self.homes})
        self.ctx = HERE["ctx"] = {"store": self.store, "n": 0, "noise": item["noise"], "fault": {"at": 0, "c": ""}, "version": "v3.40.0", "attrs": ("1", "none", "none")}
        self.ws = [au.LocalWorkspace(work_dir=dirs[i]["path"], **self.given(i)) for i in range(2)]
        self.handles = {}

    def given(self, i):
        d = self.item["dirs"][i]
        return {"pulumi_home": self.homes[d["home"] - 1], "secrets_provider": d["sp"] or None}

    def dump(self):
        dirs = []
        rows = lambda c: [[esc(k), esc(v), json.dumps(s)] for k, (v, s) in sorted(c.items())]
        for i, d in enumerate(self.store.dirs):
            st = [{"n": esc(s["n"]), "sp": esc(s["sp"]), "cfg": rows(s["cfg"]), "has": s["last"] is not None, "last": rows(s["last"] or {}),
                   "outs": [[esc(k), esc(canon(v)), json.dumps(x)] for k, (v, x) in sorted(s["outs"].items())], "dep": deptext(s["dep"]), "rc": number(s["rc"]),
                   "lu": s["lu"] or "none", "uip": json.dumps(s["uip"]), "url": maybe(s["url"])} for s in d["st"]]
            given = self.item["dirs"][i]
            dirs.append({"proj": d["proj"], "sp": given["sp"], "home": given["home"], "user": esc(self.ws[i].env_vars.get("PULUMI_ACCESS_TOKEN", "nobody")), "cur": esc(d["cur"]), "st": st})
        return {"dirs": dirs, "homes": [[[esc(x) for x in r] for r in self.store.homes[h]] for h in self.homes]}

    def op(self, o):
        """makes the operation; its result as rows"""
        au, i, op = self.au, o["d"] - 1, o["op"]
        ws = self.ws[i]
        name = un(o["s"])
        kv = [(un(k), au.ConfigValue(value=un(v), secret=s == "true" or (None if len(v) % 5 == 1 else False))) for k, v, s in o["kv"]] if op != "deploy" else []
        h = self.handles.get((i, name)) if o["via"] in ("stack", "fn") else None
        if op in ("create", "select", "cos"):
            fn = {"create": "create", "select": "select", "cos": "create_or_select"}[op]
            if o["via"] == "fn":
                env = {"PULUMI_ACCESS_TOKEN": ws.env_vars["PULUMI_ACCESS_TOKEN"]} if "PULUMI_ACCESS_TOKEN" in ws.env_vars else None
                self.handles[i, name] = getattr(au, fn + "_stack")(name, work_dir=ws.work_dir, opts=au.LocalWorkspaceOptions(env_vars=env, **self.given(i)))
            elif o["via"] == "stack" or op == "cos":
                self.handles[i, name] = getattr(au.Stack, fn)(name, ws)
            else:
                getattr(ws, fn + "_stack")(name)
            return []
        if op == "setenv":
            ws.env_vars["PULUMI_ACCESS_TOKEN"] = name
            return []
        if op == "remove":
            return none(ws.remove_stack(name))
        if op == "list":
            return [[str(j + 1)] + summary(s) for j, s in enumerate(ws.list_stacks())]
        if op == "current":
            s = ws.stack()
            return [] if s is None else [summary(s)]
        to = (lambda f, *a: getattr(h, f)(*a)) if h is not None else (lambda f, *a: getattr(ws, f)(name, *a))
        cv = lambda c: [esc(c.value), json.dumps(c.secret)]
        if op == "set":
            return none(to("set_config", kv[0][0], kv[0][1]))
        if op == "setall":
            return none(to("set_all_config", dict(kv)))
        if op == "get":
            return [cv(to("get_config", kv[0][0]))]
        if op == "getall":
            return [[esc(k)] + cv(c) for k, c in to("get_all_config").items()]
        if op == "rmcfg":
            return none(to("remove_config", kv[0][0]))
        if op == "rmall":
            return none(to("remove_all_config", [k for k, _ in kv]))
        if op == "refresh":
            return none(to("refresh_config"))
        if op == "outputs":
            outs = h.outputs() if h is not None else ws.stack_outputs(name)
            return [[esc(k), esc(canon(v.value)), json.dumps(v.secret)] for k, v in outs.items()]
        if op == "export":
            d = to("export_stack")
            return [[deptext({"version": d.version, "deployment": d.deployment})]]
        if op == "import":
            x = json.loads(un(o["x"]["dep"]))
            return none(to("import_stack", au.Deployment(version=x["version"], deployment=x["deployment"])))
        if op == "whoami":
            return [[esc(ws.who_am_i().user)]]
        if op == "plugins":
            return [[str(j + 1), esc(p.name), esc(p.kind), esc(p.version), json.dumps(p.size), when(p.install_time), when(p.last_used_time)] for j, p in enumerate(ws.list_plugins())]
        n, k, v = [un(x) for x in o["p"][:3]]
        if op == "install":
            return none(ws.install_plugin(n, v, k) if k != "resource" or o["x"]["rc"] != "1" else ws.install_plugin(n, v))
        if op == "uninstall":
            return none(ws.remove_plugin(n or None, v or None, k))
        raise ValueError(op)

    def other(self, o):
        """the same by somebody else: through the CLI alone"""
        d = self.store.dirs[o["d"] - 1]
        op, s = o["op"], un(o["s"])
        kv = [(un(k), un(v), "--secret" if x == "true" else "--plaintext") for k, v, x in o["kv"]]
        at = ["--stack", s]
        argv = {"create": ["stack", "init", s] + (["--secrets-provider", self.item["dirs"][o["d"] - 1]["sp"]] if self.item["dirs"][o["d"] - 1]["sp"] else []),
                "select": ["stack", "select", s], "remove": ["stack", "rm", "--yes", s], "refresh": ["config", "refresh", "--force"] + at}.get(op)
        if op == "set":
            argv = ["config", "set", kv[0][2]] + at + ["--", kv[0][0], kv[0][1]]
        elif op == "rmcfg":
            argv = ["config", "rm"] + at + ["--", kv[0][0]]
        elif op == "rmall":
            argv = ["config", "rm-all"] + at + ["--"] + [k for k, _, _ in kv]
        if argv is None:
            raise ValueError(op)
        self.store.run(argv, d["path"], {})

    def deploy(self, o):
        d = self.store.dirs[o["d"] - 1]
        for s in d["st"]:
            if s["n"] == un(o["s"]):
                x = o["x"]
                none_ = lambda t, f=lambda y: y: None if t == "none" else f(t)
                s.update(last=dict(s["cfg"]), outs={un(k): (json.loads(un(v)), sec == "true") for k, v, sec in o["kv"]}, dep=json.loads(un(x["dep"])) if x["dep"] != "null" else None,
                         rc=none_(x["rc"], int), lu=none_(x["lu"]), uip=x["uip"] == "true", url=none_(x["url"], un))

    def version(self, o):
        var = "PULUMI_AUTOMATION_API_SKIP_VERSION_CHECK"
        self.ctx["version"] = un(o["text"])
        saved = os.environ.pop(var, None)
        if o["how"] == "os":
            os.environ[var] = o["set"]
        try:
            ws = self.au.LocalWorkspace(work_dir=self.ws[0].work_dir, env_vars={var: o["set"]} if o["how"] == "env" else ({"X": "y"} if o["how"] == "other" else None))
            try:
                return {"t": "ok", "c": "", "l": [[esc(ws.pulumi_version)]]}
            except self.au.InvalidVersionError:
                return {"t": "ok", "c": "", "l": [["unknown"]]}
        except Exception as ex:  # noqa
            return {"t": "error", "c": type(ex).__name__, "l": []}
        finally:
            self.ctx["version"] = "v3.40.0"
            os.environ.pop(var, None)
            if saved is not None:
                os.environ[var] = saved


def none(x):
    return [] if x is None else [["not nothing: " + esc(repr(x))]]


def work(item):
    cli = _cli()
    top = tempfile.mkdtemp(prefix="ws-", dir=cli.dir)
    ev = []
    try:
        h = History(item, top)
        w0 = h.dump()
        for o in item["ops"]:
            if o["op"] == "version":
                r = h.version(o)
                ev.append({"ev": "version", "v": o["v"], "out": o["how"] in ("os", "env"), "r": r})
                continue
            h.ctx.update(n=0, fault=o["f"] if o["via"] != "ext" else {"at": 0, "c": ""}, attrs=[un(x) for x in o["p"][3:]] or ("1", "none", "none"))
            r = {"t": "ok", "c": "", "l": []}
            if o["op"] == "deploy":
                h.deploy(o)
            elif o["via"] == "ext":
                h.other(o)
            else:
                try:
                    r["l"] = h.op(o)
                except Exception as ex:  # noqa
                    r = {"t": "error", "c": type(ex).__name__, "l": []}
            ev.append({"ev": "op", "o": {k: o[k] for k in ("op", "d", "s", "kv", "p", "x", "f", "via")}, "r": r, "w": h.dump()})
        if cli.errors:
            raise RuntimeError("stand-in CLI: " + cli.errors[0])
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return {"w": w0, "ev": ev}
