"""Seeded generator for the Automation family."""
FRAG = ["no stack named 'x' found", "stack 'x' already exists", "[409] Conflict: Another update is currently in progress.", "Build FAILED.",
        "Unable to compile TypeScript", "a.go:3: syntax error: x", "a.go:3: undefined: y", "python inline source runtime error: z",
        "Program failed with an unhandled exception:", "panic: runtime error: index", "an unhandled error occurred: q",
        "no stack named 'x'", "found", "stack", "already exists", "error: boom", "Updating (dev)", "", "  indented", "trailing  \t", "é ünï", "[409] Conflict"]
WORDS = ["x", "a b", "--yes", "-5", "k=v", "--target=z", "é", "urn:pulumi:s::p::t::n", "/p/q", "'q'", "$HOME", "*", "--"]
COMMON = ["parallel", "message", "target", "color", "log_flow", "log_verbosity", "log_to_std_err", "tracing", "debug"]
ARGS = {"up": COMMON + ["policy_packs", "policy_pack_configs", "expect_no_changes", "diff", "target_dependents", "replace", "plan"],
        "refresh": COMMON + ["expect_no_changes"], "destroy": COMMON + ["target_dependents"]}
ARGS["preview"] = ARGS["up"]
SWITCHES = ["expect_no_changes", "diff", "target_dependents", "log_flow", "log_to_std_err", "debug"]
LISTS = ["target", "replace", "policy_packs", "policy_pack_configs"]
LIFE = ["up", "preview", "refresh", "destroy"]
STATES = [{"version": 3, "deployment": {"manifest": {"time": "t"}, "resources": [{"urn": "u", "n": 1.5, "x": None}]}}, {"version": 1, "deployment": {}},
          {"version": 3, "deployment": None}]


def text(rng, n=4):
    ls = [rng.choice(FRAG) for _ in range(rng.randrange(n))]
    return "".join(x + rng.choice(["\n", "\n", "\n", "\r\n"]) for x in ls) + (rng.choice(FRAG) if rng.random() < .3 else "")


def chunks(rng, t):
    out = []
    while t:
        n = rng.randrange(1, len(t) + 1)
        out.append(t[:n])
        t = t[n:]
    return out


def args(rng, op, n=None):
    out = []
    names = ARGS.get(op, [])
    for a in rng.sample(names, min(len(names), rng.choice([0, 1, 2, 3, 6, 16]) if n is None else n)):
        if a in SWITCHES:
            out.append({"a": a, "v": [], "on": rng.random() < .7})
        elif a in LISTS:
            out.append({"a": a, "v": [rng.choice(WORDS) for _ in range(rng.choice([0, 1, 2, 3]))]})
        elif a in ("parallel", "log_verbosity"):
            out.append({"a": a, "v": [str(rng.choice([1, 2, 9, 100]))]})
        else:
            out.append({"a": a, "v": [rng.choice(WORDS)]})
    return out


def some(rng, d, p=.6):
    return {k: v for k, v in d.items() if rng.random() < p}


def val(rng, d=1):
    return rng.choice([None, True, 1, 2.5, "s", "", [], ["a", 1], {}, {"k": "v", "n": {"m": None}}])


def state_md(rng):
    return some(rng, {"type": "t:t:T", "urn": "urn:x", "id": rng.choice(["", "i-1"]), "parent": "", "provider": "prov", "custom": rng.random() < .5,
                      "delete": True, "protect": False, "inputs": {"a": val(rng)}, "outputs": {"b": val(rng)}, "initErrors": ["e"]})


def step_md(rng):
    m = some(rng, {"urn": "urn:y", "type": "t:t:U", "provider": "prov::1", "old": rng.choice([None, state_md(rng)]), "new": rng.choice([None, state_md(rng)]),
                   "keys": ["k"], "diffs": ["d", "e"], "logical": rng.random() < .5,
                   "detailedDiff": {p: some(rng, {"inputDiff": rng.random() < .5}) | {"diffKind": rng.choice(["add", "add-replace", "delete", "delete-replace", "update", "update-replace"])}
                                    for p in rng.sample(["a", "b.c", "d[0]"], rng.randrange(3))}})
    for k in ("old", "new"):
        if m.get(k) == {}:
            del m[k]
    m["op"] = rng.choice(["same", "create", "update", "delete", "replace", "create-replacement", "delete-replaced", "read", "read-replacement", "refresh",
                          "discard", "discard-replaced", "remove-pending-replace", "import", "import-replacement"])
    return m


def event(rng, i, kind=None):
    k = kind or rng.choice(["stdout", "diag", "prelude", "summary", "pre", "outs", "failed", "policy", "none"])
    e = {"sequence": i, "timestamp": 1700000000 + i}
    if k == "stdout":
        e["stdoutEvent"] = {"message": rng.choice(["m", "line\nline", "é"]), "color": "always"}
    elif k == "diag":
        e["diagnosticEvent"] = {"message": "m", "color": "raw", "severity": rng.choice(["info", "info#err", "warning", "error"])} | some(
            rng, {"urn": "urn:z", "prefix": "p", "streamID": rng.choice([0, 7]), "ephemeral": rng.random() < .5})
    elif k == "prelude":
        e["preludeEvent"] = {"config": rng.choice([{}, {"p:k": "v"}])}
    elif k == "summary":
        e["summaryEvent"] = {"maybeCorrupt": rng.random() < .3, "durationSeconds": rng.choice([0, 12])} | some(rng, {
            "resourceChanges": {o: rng.randrange(1, 5) for o in rng.sample(["create", "same", "delete"], rng.randrange(3))}, "PolicyPacks": {"p": "v1"}}, .8)
    elif k == "pre":
        e["resourcePreEvent"] = {"metadata": step_md(rng)} | some(rng, {"planning": rng.random() < .5})
    elif k == "outs":
        e["resOutputsEvent"] = {"metadata": step_md(rng)} | some(rng, {"planning": rng.random() < .5})
    elif k == "failed":
        e["resOpFailedEvent"] = {"metadata": step_md(rng)} | some(rng, {"status": 2, "steps": 1})
    elif k == "policy":
        e["policyEvent"] = {"message": "m", "color": "c", "policyName": "n", "policyPackName": "pp", "policyPackVersion": "1", "policyPackVersionTag": "v1",
                            "enforcementLevel": "mandatory"} | some(rng, {"resourceUrn": "urn:r"})
    elif k == "cancel":
        e["cancelEvent"] = {}
    if rng.random() < .05:
        e.pop("timestamp")
    return e


def events(rng, full=True):
    es = [event(rng, i) for i in range(rng.choice([0, 1, 3, 6]))]
    if full and not any("summaryEvent" in e for e in es):
        es.insert(rng.randrange(len(es) + 1), event(rng, 50, "summary"))
    if rng.random() < (.85 if full else .4):
        es.append(event(rng, 99, "cancel"))
    return es


def history(rng, secrets, n=None):
    out = []
    for i in range(rng.choice([1, 1, 1, 2, 3]) if n is None else n):
        h = {"version": 9 - i, "kind": rng.choice(["update", "refresh", "destroy", "preview"]), "startTime": "2022-05-06T07:08:09.%03dZ" % rng.choice([0, 123]),
             "message": rng.choice(["", "m"]), "environment": rng.choice([{}, {"git.head": "abc"}]), "config": {}, "result": "succeeded"}
        for k in rng.sample(["p:a", "p:b", "aws:region"], rng.randrange(4)):
            sec = rng.random() < .4
            h["config"][k] = {"secret": sec}
            if not sec or secrets:
                h["config"][k]["value"] = rng.choice(["v", "", "{\"a\":1}", "[secret]"])
                if rng.random() < .2:
                    h["config"][k]["objectValue"] = {"a": 1}
        if rng.random() < .15:
            h["result"] = "in-progress"
        else:
            h["endTime"] = "2022-05-06T07:08:10.000Z"
            h["resourceChanges"] = rng.choice([{}, {"create": 2, "same": 1}])
        if rng.random() < .1:
            del h["version"]
        out.append(h)
    return out


def op(rng, kind=None, o=None, fail=None, texts=None):
    """One operation with what the CLI will do; o: taken from the model."""
    k = (o or {}).get("op") or kind or rng.choice(LIFE * 3 + ["cancel", "history", "history", "info", "outputs", "export", "import"])
    r = {"op": k, "args": args(rng, k), "listens": rng.random() < .6, "events": k in LIFE and rng.random() < .5, "secrets": rng.random() < .6, "size": "", "page": "",
         "own": rng.random() < .2, "state": rng.choice(STATES), "bytes": rng.random() < .2}
    if k in ("cancel", "history", "info", "outputs", "export", "import"):
        r["listens"] = False
    if o:
        r.update({x: o[x] for x in ("args", "events", "secrets")})
        r["args"] = [{"a": a["a"], "v": a["v"]} | ({"on": a["on"]} if a["a"] in SWITCHES else {}) for a in r["args"]]
    if k in ("outputs", "export", "import", "cancel"):
        r["secrets"] = True
    if k == "history" and rng.random() < .6:
        r["size"] = str(rng.choice([1, 2, 10]))
        if rng.random() < .5:
            r["page"] = str(rng.choice([1, 2]))
    ans = {"main": {"out": chunks(rng, text(rng)) if texts is None else [texts[1]], "err": text(rng, 3) if texts is None else texts[0], "code": 0},
           "history": {"out": [], "err": rng.choice(["", "warning: w\n"]), "code": 0, "json": history(rng, r["secrets"], None if k != "history" else rng.randrange(4))}}
    if k == "info" and rng.random() < .2:
        ans["history"]["json"] = []
    outs = {n: rng.choice(["v", 1, True, None, {"a": [1, "x"]}, [], ""]) for n in rng.sample(["o", "p-q", "r", "é"], rng.randrange(4))}
    sec = {n for n in outs if rng.random() < .4}
    ans["shown"] = {"out": [], "err": "", "code": 0, "json": outs}
    ans["masked"] = {"out": [], "err": "", "code": 0, "json": {n: "[secret]" if n in sec else v for n, v in outs.items()}}
    if k == "export":
        ans["main"]["json"] = r["state"]
    full = k == "preview" and rng.random() < .85
    r["sent"] = events(rng, full) if k in LIFE and (r["events"] or k == "preview") else []
    r["cuts"] = {str(i): rng.choice([1, 5, 20]) for i in range(len(r["sent"])) if rng.random() < .08}
    where = fail if fail is not None else (rng.choice(["main", "main", "masked", "shown", "history"]) if rng.random() < .3 else "")
    if where in ("main", "") and k in ("history", "info", "outputs") and where:
        where = "history" if k != "outputs" else rng.choice(["masked", "shown"])
    if where:
        a = ans[where]
        a["code"] = rng.choice([1, 255, 2])
        if where != "main":
            a["out"] = chunks(rng, text(rng))
            a["err"] = text(rng, 3)
        if where == "main" and rng.random() < .5:
            r["sent"] = r["sent"][:rng.randrange(len(r["sent"]) + 1)]
    r["answers"] = ans
    return r


def item(rng, ops=None):
    amb = [["VH_AMB", "1"]] if rng.random() < .5 else []
    env = []
    if rng.random() < .5:
        env.append(["VH_X", rng.choice(["y", "", "a b"])])
    if amb and rng.random() < .5:
        env.append(["VH_AMB", "2"])
    home = rng.choice(["", "/tmp/h"])
    if rng.random() < .15:
        env.append(["PULUMI_HOME", "/tmp/other"])
    if rng.random() < .1:
        env.append(["PULUMI_DEBUG_COMMANDS", "true"])
    return {"stack": rng.choice(["s", "dev", "org/proj/dev"]), "mode": rng.choice(["create", "select", "create_or_select"]), "program": rng.random() < .3,
            "env": env, "home": home, "ambient": amb, "ops": ops or [op(rng) for _ in range(rng.randrange(1, 6))]}


def model_items(lines, rng):
    """The model's operations, batched by whether the workspace has a program."""
    out = []
    groups = {}
    for x in lines:
        if x["k"] == "text":
            groups.setdefault(False, []).append(op(rng, "cancel", fail="main", texts=(x["err"], x["out"])))
        else:
            o = x["o"]
            fail = "" if x["got"] == "ok" else ("main" if x["n"] == 1 else rng.choice(["masked", "shown", "history"]) if o["op"] == "up" else "history" if o["op"] != "outputs" else "shown")
            r = op(rng, o=o, fail=fail)
            r["own"] = False
            groups.setdefault(o["program"], []).append(r)
    for prog, ops in groups.items():
        rng.shuffle(ops)
        for i in range(0, len(ops), 8):
            it = item(rng, ops[i:i + 8])
            it["program"] = prog
            out.append(it)
    return out
