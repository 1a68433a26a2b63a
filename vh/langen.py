"""Random programs for the launcher (C30)."""
from .ingen import actions, env
from .wsrun import esc


def item(rng):
    fail = rng.choice(["", "", "", "raise", "raise", "callback", "exit", "exit", "refuse"])
    prog = actions(rng, "", fail if fail in ("raise", "callback") else "")
    for a in prog:
        if a["a"] == "raise" and a["n"] == "SystemExit":
            a["n"] = "RunError"
            a["v"] = a["v"] or "boom"
    if fail == "exit":
        prog.insert(rng.randrange(len(prog) + 1), {"a": "exit", "n": "", "v": esc(rng.choice(["", "0", "1", "3", "32", "stop here", "é"])), "s": False})
    e = env(rng, False)
    e["sec"] = e["sec"] + [k for k in e["keys"] if k not in e["sec"] and rng.random() < .15]
    if fail == "refuse":
        rs = [a["n"] for a in prog if a["a"] in ("res", "ask", "late")]
        if rs:
            e["refuse"] = [rng.choice(rs)]
    return dict({"e": e, "prog": prog, "kind": rng.choice(["ok"] * 12 + ["missing", "syntax"])}, **how(rng))


def how(rng):
    return {"form": rng.choice(["dir", "dir", "file", "subdir", "subfile", "abs"]), "deep": rng.random() < .4, "pwd": rng.random() < .7, "engine": rng.random() < .8,
            "parallel": rng.choice([1, 4, 2147483647]), "bag": rng.random() < .5, "args": [esc(x) for x in rng.choice([[], [], ["x"], ["a b", "é"], ["", "y"], ["1"], ["--flag", "x"], ["-x"], ["a", "--stack", "other"], ["--dry_run=false"]])]}
