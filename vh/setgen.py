"""Random histories of reads and writes of project and stack settings (C25)."""
import json

STR = ["", "a", "x-y", "true", "null", "~", "1", "1.50", "0x1f", "1e3", "2020-01-01", "yes", "é☃", "many\nlines\n", " lead", "trail ", "- x", "#c", "a: b",
       "'q'", '"', "\t", "=", "<<", "word " * 40, "{}", "[1]", "a\\b", "\u2028", "0o7", "1_000", "12:30:45", "!x", "&a", "*a", "%", "@", "`"]
NAMES = ["dev", "org/dev", "org/proj/dev", "prod", "a.b", "org/a.b", "dev2", "json", "x/json", "Pulumi", "dev.yaml"]
RUNTIMES = ["python", "nodejs", "go", "dotnet"]


def lit(x):
    return {"t": "lit", "s": json.dumps(x)}


NULL = lit(None)


def d(pairs):
    return {"t": "dict", "k": [k for k, _ in pairs], "l": [v for _, v in pairs]}


def obj(c, pairs):
    return dict(d(pairs), t="obj", c=c)


def s(rng):
    return lit(rng.choice(STR))


def js(rng, depth=2):
    r = rng.random()
    if depth == 0 or r < .45:
        return lit(rng.choice([rng.choice(STR), rng.choice(STR), 0, 1, -3, 2.5, True, False, None, 10 ** 12]))
    if r < .7:
        return {"t": "list", "l": [js(rng, depth - 1) for _ in range(rng.randrange(4))]}
    ks = rng.sample([k for k in STR if len(k) < 20] + ["secure", "name"], rng.randrange(4))
    if ks == ["secure"]:
        ks = ["secure", "other"]
    return d([(k, js(rng, depth - 1)) for k in ks])


def opt(rng, f, p=.5):
    return f() if rng.random() < p else NULL


def project(rng):
    def cv():
        return obj("ProjectTemplateConfigValue", [("description", opt(rng, lambda: s(rng))), ("default", opt(rng, lambda: s(rng))), ("secret", lit(rng.random() < .5))])

    def tpl():
        return obj("ProjectTemplate", [("description", opt(rng, lambda: s(rng))), ("quickstart", opt(rng, lambda: s(rng))),
                                       ("config", d([(k, cv()) for k in rng.sample(["p:a", "p:b", "aws:region", "x"], rng.randrange(3))])),
                                       ("important", opt(rng, lambda: lit(rng.random() < .5)))])
    rt = lit(rng.choice(RUNTIMES)) if rng.random() < .5 else obj("ProjectRuntimeInfo", [("name", lit(rng.choice(RUNTIMES + ["yaml", "my lang"]))), ("options", opt(rng, lambda: d([(k, js(rng, 1)) for k in rng.sample(["virtualenv", "typescript", "b"], rng.randrange(3))])))])
    fs = [("name", s(rng)), ("runtime", rt)]
    for f in ("main", "description", "author", "website", "license", "config"):
        fs.append((f, opt(rng, lambda: s(rng), .4)))
    fs += [("template", opt(rng, tpl, .4)), ("backend", opt(rng, lambda: obj("ProjectBackend", [("url", opt(rng, lambda: s(rng), .8))]), .4))]
    return obj("ProjectSettings", fs)


def stack(rng):
    def cv():
        return obj("StackSettingsSecureConfigValue", [("secure", s(rng))]) if rng.random() < .3 else js(rng)
    return obj("StackSettings", [("secrets_provider", opt(rng, lambda: s(rng))), ("encrypted_key", opt(rng, lambda: s(rng))), ("encryption_salt", opt(rng, lambda: s(rng))),
                                 ("config", opt(rng, lambda: d([(k, cv()) for k in rng.sample(["p:a", "p:b", "aws:region", "x", "a b", "true", "1"], rng.randrange(5))]), .8))])


def op(rng, names):
    r = rng.random()
    if r < .25:
        return {"op": "saveproject", "s": project(rng)}
    if r < .55:
        return {"op": "savestack", "name": rng.choice(names), "s": stack(rng)}
    if r < .7:
        return {"op": "put", "f": "Pulumi" + rng.choice([".json", ".yml", ".yaml"]), "s": project(rng), "style": rng.randrange(1 << 20)}
    if r < .85:
        return {"op": "put", "f": "Pulumi." + rng.choice(names).split("/")[-1] + rng.choice([".json", ".yml", ".yaml"]), "s": stack(rng), "style": rng.randrange(1 << 20)}
    if r < .93:
        return {"op": "del", "f": "Pulumi" + rng.choice(["", "." + rng.choice(names).split("/")[-1]]) + rng.choice([".json", ".yml", ".yaml"])}
    return {"op": "again"}


def openings(rng, names):
    """the same options used for several stacks"""
    o = {"op": "opts", "dir": rng.random() < .5, "given": project(rng) if rng.random() < .4 else NULL,
         "stacks": [{"name": n, "s": stack(rng)} for n in {x.split("/")[-1]: x for x in rng.sample(names, rng.randrange(len(names)))}.values()],
         "env": rng.random() < .5, "home": rng.random() < .3, "sp": rng.random() < .3, "none": rng.random() < .15}
    out = [o]
    for _ in range(rng.randrange(1, 4)):
        # what the directory to be opened holds already
        while rng.random() < .4:
            x = op(rng, names)
            if x["op"] == "put":
                out.append(dict(x, at=rng.choice(["w2", "w2", "w1"])))
        out.append({"op": "open", "how": rng.choice(["create_stack", "select_stack", "create_or_select_stack"]), "inline": rng.random() < .6,
                    "project": rng.choice(["proj", "true", "my-app", "é"]), "name": rng.choice(names), "work": rng.choice([0, 0, 1])})
        for _ in range(rng.randrange(0, 3)):
            out.append(op(rng, names))
    return out


def item(rng):
    names = rng.sample(NAMES, rng.randrange(1, 4))
    ops = [op(rng, names) for _ in range(rng.randrange(2, 7))]
    if rng.random() < .5:
        ops += openings(rng, names)
    return {"ops": ops, "names": names}


def model_items(lines, rng):
    return [{"ops": [dict(o, style=rng.randrange(1 << 20)) if o["op"] == "put" else o for o in x["ops"]], "names": ["dev", "org/dev", "prod"]} for x in lines]
