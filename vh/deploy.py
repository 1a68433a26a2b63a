"""Deployment family: run programs, project their traces for Trace_Deployment.tla."""
import json
import random

from . import gen, progrun


def plain_chooser(prefix, log):
    def choose(cands):
        k = len(log)
        # the stack's own RegisterResourceOutputs call is never worth a branch
        for i, c in enumerate(cands):
            if c.key.startswith("o"):
                return i, None
        pick = prefix[k] if k < len(prefix) else 0
        log.append((pick, len(cands)))
        return pick, None

    return choose


def explore(prog, limit=64):
    """Every completion order of the program's RPCs (stateless search over the scheduler's choices)."""
    out = []
    prefix = []
    while True:
        log = []
        res = progrun.run(prog, 0, chooser=plain_chooser(prefix, log))
        out.append((list(prefix), res))
        if len(out) >= limit:
            break
        while log and log[-1][0] + 1 >= log[-1][1]:
            log.pop()
        if not log:
            break
        prefix = [p for p, _ in log[:-1]] + [log[-1][0] + 1]
    return out


def trname(r, k):
    return progrun.camel(k) if r.get("tr") else k


def project(prog, res, tid):
    """The slice of the trace that Trace_Deployment.tla talks about."""
    P = []
    dry = bool(prog.get("dry"))
    for r in prog["res"]:
        ins, hard, aw = set(), set(), set()
        for _, e in r.get("props", []):
            ins |= gen.ins_of(e)
            hard |= gen.hard_of(e)
        if r["kind"] == "read":
            aw |= gen.ins_of(r["id"])
        if r.get("depform") == "urnapply":
            aw |= set(r["deps"])
        if r.get("late"):
            aw.add(r["late"])
        pkg = lambda q: prog["res"][q - 1]["pkg"]
        P.append({"kind": r["kind"], "par": r["par"] if r["kind"] != "get" else 0, "deps": r["deps"], "ins": sorted(ins),
                  "pkg": r["type"].split(":")[0], "aw": sorted(aw), "late": bool(r.get("late")), "soft": sorted(ins - hard) if dry else [],
                  "prov": r["prov"], "provs": [[k, q] for k, q in {pkg(q): q for q in r.get("provs") or []}.items()]})
    ev = []
    ix = lambda x: x if isinstance(x, int) else 901
    nacked, cbs = [], []
    for e in res["events"]:
        k = e["ev"]
        if k == "send":
            if e["r"] == 0:
                ev.append({"ev": "send", "r": 0, "par": 0, "prov": 0, "provs": [], "deps": [], "pdeps": []})
                continue
            r = prog["res"][e["r"] - 1] if e["r"] <= len(prog["res"]) else None
            kind = r["kind"] if r else "cust"
            pd = []
            if e.get("rpc") == "register" and r:
                got = {a: b for a, b in e["pdeps"]}
                for n, x in r["props"]:
                    n2 = trname(r, n)
                    if n2 in e["object"]["k"]:
                        pd.append({"ins": sorted(gen.ins_of(x)), "soft": sorted(gen.ins_of(x) - gen.hard_of(x)) if dry else [], "got": [ix(d) for d in got.get(n2, [])]})
                for n2 in got:
                    if n2 not in [trname(r, n) for n, _ in r["props"]]:
                        pd.append({"ins": [], "soft": [], "got": [902]})
            pv = e.get("provider") or []
            pvs = e.get("providers") or []
            ev.append({"ev": "send", "r": e["r"], "par": ix(e["parent"]) if e["parent"] != "" else 900,
                       "prov": ix(pv[0]["p"]) if pv else 0, "provs": [[x[0], ix(x[1][0]["p"])] for x in pvs if x[1]],
                       "deps": sorted(ix(d) for d in e["deps"]), "pdeps": pd})
        elif k in ("ack", "nack", "ctorfail"):
            ev.append({"ev": k, "r": e["r"]})
            if k == "nack":
                nacked.append(prog["res"][e["r"] - 1])
        elif k == "cbfail":
            ev.append({"ev": k, "r": e["r"], "nested": e["nested"]})
            cbs.append("callback%s!" % e["id"])
        elif k == "end":
            blame = e["out"] != "error"
            if e["out"] == "error":
                msgs = list(cbs)
                for r in nacked:
                    msgs.append("Resource monitor has terminated, shutting down" if r["fail"] == "unavailable"
                                else "engine refused %s" % r["name"])
                if prog.get("raise"):
                    msgs.append("program")
                blame = any(m in e["msg"] for m in msgs)
            ev.append({"ev": "end", "out": e["out"], "inflight": len([x for x in e["inflight"]]), "blame": blame})
    for o in res.get("outs", []):
        for x in [o["urn"]] + ([o["id"]] if "id" in o else []) + [p for _, p in o["props"]]:
            ev.append({"ev": "settle", "r": o["r"], "hang": bool(x.get("hang")), "fail": bool(x.get("fail")), "decode": False})
    return {"prog": P, "ev": ev, "raises": bool(prog.get("raise"))}


def work_explore(item):
    prog, limit = item
    return [(pre, project(prog, res, 0)) for pre, res in explore(prog, limit)]


def work_random(item):
    prog, seed = item
    res = progrun.run(prog, seed)
    return project(prog, res, 0)
