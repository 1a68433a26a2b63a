"""Runs inline programs through the real Automation API (C26): the stand-in CLI calls the language server as the engine does."""
import asyncio
import json
import os
import shutil
import tempfile
import threading
import time
from concurrent import futures

from .fakecli import FakeCLI, parse
from .wsrun import esc, un

HERE = {}
SIG = "4dabf18193072939515e22adb298388d"
MAIN = ["mainproj", "mainstack"]


class Rec:
    """what one run did"""

    def __init__(self, e):
        self.e, self.lock = e, threading.Lock()
        self.seen, self.sent, self.stacks, self.out, self.logs = [], [], [], [], []
        self.errlog, self.ended, self.after, self.errors = False, False, False, []


def servers(rec):
    """an engine and a resource monitor for one run"""
    import grpc
    from google.protobuf import empty_pb2, json_format
    from pulumi.runtime.proto import engine_pb2, engine_pb2_grpc, resource_pb2, resource_pb2_grpc
    e = rec.e

    def note(f):
        with rec.lock:
            if rec.ended:
                rec.after = True
            f()

    class Monitor(resource_pb2_grpc.ResourceMonitorServicer):
        def SupportsFeature(self, req, ctx):
            time.sleep(e["slow"] / 2000)
            return resource_pb2.SupportsFeatureResponse(hasSupport=e["marks"])

        def RegisterResource(self, req, ctx):
            if req.type == "pulumi:pulumi:Stack":
                note(lambda: rec.stacks.append(esc(req.name)))
            else:
                o = json_format.MessageToDict(req.object)
                p = o.get("p")
                marked = isinstance(p, dict) and SIG in p
                note(lambda: rec.sent.append([esc(req.name), esc(p["value"] if marked else p), json.dumps(marked), esc(o.get("m", ""))]))
                time.sleep(e["slow"] / 1000)
                if esc(req.name) in e["refuse"]:
                    ctx.abort(grpc.StatusCode.UNKNOWN, "refused " + req.name)
            return resource_pb2.RegisterResourceResponse(urn="urn:pulumi:%s::%s::%s::%s" % (e["stack"], e["project"], req.type, req.name), id="" if not req.custom else "id-" + req.name, object=req.object)

        def RegisterResourceOutputs(self, req, ctx):
            note(lambda: rec.out.extend([esc(k), esc(v)] for k, v in json_format.MessageToDict(req.outputs).items()))
            return empty_pb2.Empty()

    class Engine(engine_pb2_grpc.EngineServicer):
        def Log(self, req, ctx):
            def f():
                if req.severity == engine_pb2.INFO:
                    rec.logs.append(esc(req.message))
                elif req.severity == engine_pb2.ERROR:
                    rec.errlog = True
                    rec.errors.append(req.message)
            note(f)
            return empty_pb2.Empty()

    s = grpc.server(futures.ThreadPoolExecutor(max_workers=8))
    resource_pb2_grpc.add_ResourceMonitorServicer_to_server(Monitor(), s)
    engine_pb2_grpc.add_EngineServicer_to_server(Engine(), s)
    port = s.add_insecure_port("127.0.0.1:0")
    s.start()
    return s, "127.0.0.1:%d" % port


def run_once(client, rec):
    """one Run request, as the engine makes it; how it ended"""
    import grpc
    from pulumi.runtime.proto import language_pb2, language_pb2_grpc
    e = rec.e
    s, addr = servers(rec)
    try:
        with grpc.insecure_channel(client) as ch:
            stub = language_pb2_grpc.LanguageRuntimeStub(ch)
            try:
                r = stub.Run(language_pb2.RunRequest(project=un(e["project"]), stack=un(e["stack"]), organization=un(e["org"]), dryRun=e["dry"], parallel=4, program=".", pwd=".",
                                                     args=[addr], monitor_address=addr, config={un(k): un(v) for k, v in e["cfg"]}, configSecretKeys=[un(k) for k in e["sec"]]), timeout=30)
                text = r.error
            except grpc.RpcError as ex:
                return ["broken", esc(str(ex.details()))], "rpc error: " + str(ex.details())
        with rec.lock:
            rec.ended = True
        pre = "python inline source runtime error: "
        if not text:
            return ["none", ""], ""
        if text.startswith(pre):
            return ["inline", esc(text[len(pre):].split("\nTraceback", 1)[0])], text
        return ["run", esc(text)], text
    finally:
        time.sleep(.003)
        s.stop(0)


def settings():
    import pulumi
    from pulumi.runtime import config, settings as st
    return [str(pulumi.get_project()), str(pulumi.get_stack()), json.dumps(pulumi.runtime.is_dry_run()), str(st.SETTINGS.organization), str(st.get_root_resource()),
            json.dumps(dict(config.CONFIG.get()), sort_keys=True), json.dumps(sorted(config._SECRET_KEYS.get()))]


def program(tree, cur, ups):
    """the program of one up, as a function"""
    def go():
        import pulumi
        from pulumi.runtime import config

        class R(pulumi.CustomResource):
            def __init__(self, name, props):
                super().__init__("t:m:R", name, props)
        rec = cur["rec"]
        for a in tree:
            n, v = un(a["n"]), un(a["v"])
            k = a["a"]
            if k == "read":
                row = [esc(pulumi.get_project()), esc(pulumi.get_stack()), esc(pulumi.get_organization()), json.dumps(pulumi.runtime.is_dry_run())]
                for key in rec.e["keys"]:
                    ns, nm = un(key).split(":", 1)
                    c = pulumi.Config(ns).get(nm)
                    row.append(("none" if c is None else "=" + esc(c)) + ("!" if config.is_config_secret(un(key)) else ""))
                rec.seen.append(row)
            elif k == "set":
                pulumi.runtime.set_config(n, v)
            elif k == "mark":
                def t(args, v=v):
                    return pulumi.ResourceTransformationResult({**args.props, "m": args.props.get("m", "") + v}, args.opts)
                pulumi.runtime.register_stack_transformation(t)
            elif k == "res":
                R(n, {"p": pulumi.Output.secret(v) if a["s"] else v})
            elif k == "ask":  # made when another output is there
                R(n, {"p": (pulumi.Output.secret(v) if a["s"] else pulumi.Output.from_input(v)).apply(lambda x: x)})
            elif k == "late":
                async def later(n=n, v=v, s=a["s"]):
                    await asyncio.sleep(.01)
                    R(n, {"p": pulumi.Output.secret(v) if s else v})
                asyncio.ensure_future(later())
            elif k == "wait":
                time.sleep(.01)
            elif k == "linger":  # a task that somebody has to cancel, and that fails then
                pass
            elif k == "export":
                pulumi.export(n, v)
            elif k == "log":
                pulumi.log.info(v)
            elif k == "callback":
                def bad(_, v=v):
                    raise ValueError(v)
                pulumi.Output.from_input(1).apply(bad)
            elif k == "raise":
                raise {"RunError": pulumi.RunError, "ValueError": ValueError, "Exception": Exception, "SystemExit": SystemExit}[n](*([v] if v else []))
            elif k == "up":
                do_up(ups[n], ups)
            else:
                raise AssertionError(k)
    return go


def do_up(u, ups):
    from pulumi import automation as au
    cur = {"rec": None}
    u["cur"] = cur
    u["recs"] = []
    st = u["st"]
    before = settings()
    try:
        kw = {"program": program(u["prog"], cur, ups)} if u["own"] else {}
        if not u["own"]:
            st.workspace.program = program(u["prog"], cur, ups)
        (st.preview if u["op"] == "preview" else st.up)(**kw)
        c = ""
    except Exception as ex:  # noqa
        c = type(ex).__name__
    now = settings()
    u["ev"] = [{"ev": "run", "e": r.e, "prog": u["prog"], "seen": r.seen, "sent": r.sent, "stacks": r.stacks, "out": r.out, "logs": r.logs, "errlog": r.errlog, "after": r.after, "err": err}
               for r, err in u["recs"]]
    u["ev"].append({"ev": "op", "runs": [{"e": e, "prog": u["prog"]} for e in u["runs"]], "count": len(u["recs"]), "c": c, "before": before, "now": now})


def _cli():
    if "cli" not in HERE:
        def handler(call, out):
            p = parse(call["argv"])
            cmd = " ".join(p["cmd"])
            if cmd == "version":
                out("out", b"v3.40.0\n")
            elif cmd in ("up", "preview"):
                u = HERE["ups"][os.path.basename(call["cwd"])]
                fl = dict(p["fl"])
                for e in u["runs"]:
                    rec = Rec(e)
                    u["cur"]["rec"] = rec
                    err, text = run_once(fl["client"], rec)
                    u["recs"].append((rec, err))
                    if text:
                        out("out", ("error: " + text + "\n").encode())
                        return 255
                if "event-log" in fl:
                    with open(fl["event-log"], "a") as fh:
                        fh.write(json.dumps({"sequence": 0, "timestamp": 1, "summaryEvent": {"maybeCorrupt": False, "durationSeconds": 1, "resourceChanges": {"same": 1}, "PolicyPacks": {}}}) + "\n")
            elif cmd == "stack output":
                out("out", b"{}\n")
            elif cmd == "stack history":
                out("out", json.dumps([{"kind": "update", "startTime": "2021-05-04T10:11:12.123Z", "message": "", "environment": {}, "config": {}, "result": "succeeded", "version": 1}]).encode())
            return 0
        HERE["cli"] = FakeCLI(handler)
        import atexit
        atexit.register(HERE["cli"].close)
    return HERE["cli"]


def work(item):
    import pulumi
    from pulumi import automation as au
    cli = _cli()
    top = tempfile.mkdtemp(prefix="in-", dir=cli.dir)
    ev = []
    try:
        pulumi.runtime.settings.configure(pulumi.runtime.Settings(project=MAIN[0], stack=MAIN[1]))
        pulumi.runtime.set_all_config({"main:k": "v"}, ["main:k"])
        ups = {}
        for u in item["ups"]:
            d = os.path.join(top, u["id"])
            os.makedirs(d)
            with open(os.path.join(d, "Pulumi.yaml"), "w") as fh:
                fh.write("name: p\nruntime: python\n")
            ups[u["id"]] = dict(u)
        for u in ups.values():
            if u.get("shares"):
                continue
            u["st"] = au.Stack.select("s", au.LocalWorkspace(work_dir=os.path.join(top, u["id"])))
        HERE["ups"] = ups
        for together in item["order"]:
            if len(together) == 1:
                do_up(ups[together[0]], ups)
            else:
                def caller(i):
                    pulumi.runtime.settings.configure(pulumi.runtime.Settings(project="main-" + i, stack=MAIN[1]))
                    do_up(ups[i], ups)
                ts = [threading.Thread(target=caller, args=(i,), daemon=True) for i in together]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join(60)
        for u in ups.values():
            if "ev" in u:
                ev += u["ev"]
        if cli.errors:
            raise RuntimeError("stand-in CLI: " + cli.errors[0])
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return {"ev": ev}
