"""Typed data (spec/Types.tla): random schemas, the source text of SDK-like modules that declare them, inputs and wire values."""

POOL = [("name", "name"), ("api_version", "apiVersion"), ("max_size", "maxSize"), ("from_", "from"), ("items", "items"), ("get", "get"),
        ("keys", "keys"), ("values", "values"), ("ref", "$ref"), ("x_kind", "x-kind"), ("self_link", "selfLink"), ("in_", "in"),
        ("snake_wire", "snake_wire"), ("kind", "Kind"), ("_private", "private"), ("update", "update"), ("apply", "apply")]
TOP = [p for p in POOL if p[0] not in ("get", "_private", "apply")]
ABSENT = {"t": "null"}
NULL = {"t": "null"}
S = lambda s: {"t": "str", "s": s}


def text(x):
    x = float(x)
    return str(int(x)) if x.is_integer() else repr(x)


def num(x):
    return {"t": "num", "s": text(x)}


LEAVES = ["str", "int", "float", "bool", "any", "union"]


def rtype(rng, d, classes, enums, plain=False):
    """a type; plain: no untyped things"""
    ks = list(LEAVES[:4] if plain else LEAVES)
    if enums:
        ks += ["enum", "enum"]
    if classes:
        ks += ["obj"] * 5
    if d > 0:
        ks += ["list"] * 4 + ["dict"] * 4
    k = rng.choice(ks)
    if k == "enum":
        return {"ty": "enum", "en": rng.choice(enums)["name"]}
    if k == "obj":
        return {"ty": "obj", "cl": rng.choice(classes)}
    if k in ("list", "dict"):
        return {"ty": k, "el": rtype(rng, d - 1, classes, enums, plain)}
    return {"ty": k}


def schema(rng, dry, mode):
    enums = []
    for i in range(rng.randrange(3)):
        b = rng.choice(["str", "int", "float"])
        vals = {"str": ["a", "b-c", "", "1"], "int": [0, 1, 7], "float": [0.5, 1.0, 2.5]}[b]
        vals = rng.sample(vals, rng.randrange(1, len(vals) + 1))
        enums.append({"name": "E%d" % i, "base": b, "vals": [S(v) if b == "str" else num(v) for v in vals]})
    names = ["C%d" % i for i in range(rng.randrange(1, 4))]
    cls = []
    for j, n in enumerate(names):
        fs = fields(rng, rng.sample(POOL, rng.randrange(0 if j else 1, 5)), lambda: rtype(rng, 2, names[:j] + ([n] if rng.random() < .2 else []), enums))
        for f in fs:
            if refers(f["ty"], n) and not f["opt"] and f["ty"]["ty"] == "obj":
                f["opt"] = True
        cls.append(mkcls(rng, n, fs))
    fs = fields(rng, rng.sample(TOP, rng.randrange(1, 6)), lambda: rtype(rng, 2, names, enums))
    top = mkcls(rng, "R", fs)
    top["dict_in"] = top["dict_in"] and mode == "meta"
    cls.append(top)
    return cls, enums


def fields(rng, pairs, ty):
    fs = [{"py": p, "wire": w, "ty": ty(), "opt": rng.random() < .6} for p, w in pairs]
    return fs


def refers(T, n):
    return T.get("cl") == n or "el" in T and refers(T["el"], n)


def mkcls(rng, n, fs):
    tr = rng.random() < .5
    c = {"name": n, "in_style": rng.choice(["anno", "getter", "getter"]), "out_style": rng.choice(["anno", "getter", "getter"]),
         "dict_in": rng.random() < .25, "dict_out": rng.random() < .7, "tr": tr}
    if c["in_style"] == "anno" or c["out_style"] == "anno":
        fs.sort(key=lambda f: f["opt"])  # as with dataclasses
    for f in fs:
        f["dk"] = f["py"]
        if tr and c["dict_out"]:
            # a table usually has every name, but may not
            f["tab"] = rng.random() < .85
            f["dk"] = f["py"] if f["tab"] else f["wire"]
    c["fields"] = fs
    return c


# ---------------------------------------------------------------- source text
def render(item, rng):
    cls, enums, mode = item["cls"], item["enums"], item["mode"]
    out = ["import enum", "import pulumi", "from typing import *", ""]
    blocks = []
    for e in enums:
        blocks.append(["class %s(%s, enum.Enum):" % (e["name"], e["base"])] +
                      ["    M%d = %s" % (i, repr(v["s"]) if v["t"] == "str" else (v["s"] if e["base"] == "int" else repr(float(v["s"])))) for i, v in enumerate(e["vals"])] + [""])
    for c in cls:
        blocks.append(in_class(c, rng))
        if c["name"] != "R":
            blocks.append(out_class(c, rng))
    rng.shuffle(blocks)
    for b in blocks:
        out += b
    for c in cls:
        if c["name"] != "R":
            # results of functions are types of their own
            pass
    out += res_class(cls[-1], mode, rng, item)
    return "\n".join(out)


def ri(T, rng, top=False):
    """the hint of an input"""
    k = T["ty"]
    if k == "any":
        b = "Any"
    elif k == "union":
        b = "Union[str, int]"
    elif k == "enum":
        b = rng.choice(["'%s'" % T["en"], "Union[str, '%s']" % T["en"]])
    elif k == "obj":
        b = rng.choice(["pulumi.InputType['%sArgs']", "pulumi.InputType['%sArgs']", "'%sArgs'"]) % T["cl"]
    elif k == "list":
        b = "%s[%s]" % (rng.choice(["Sequence", "Sequence", "List", "list"]), ri(T["el"], rng))
        if T["el"]["ty"] == "any" and rng.random() < .3:
            b = rng.choice(["list", "List", "Sequence"])
    elif k == "dict":
        b = "%s[str, %s]" % (rng.choice(["Mapping", "Mapping", "Dict", "dict"]), ri(T["el"], rng))
    else:
        b = k
    if rng.random() < .7:
        b = "pulumi.Input[%s]" % b
    if top and rng.random() < .3:
        b = "Optional[%s]" % b
    return b


def ro(T, rng):
    """the hint of an output"""
    k = T["ty"]
    b = {"any": "Any", "union": "Union[str, int]"}.get(k, k)
    if k == "enum":
        b = "'%s'" % T["en"]
    elif k == "obj":
        b = "'%s'" % T["cl"]
    elif k == "list":
        b = "%s[%s]" % (rng.choice(["Sequence", "Sequence", "List", "list"]), ro(T["el"], rng))
        if T["el"]["ty"] == "any" and rng.random() < .3:
            b = rng.choice(["list", "List", "Sequence"])
    elif k == "dict":
        b = "%s[str, %s]" % (rng.choice(["Mapping", "Mapping", "Dict", "dict"]), ro(T["el"], rng))
    if rng.random() < .25:
        b = "Optional[%s]" % b
    return b


CLASH = {"items", "get", "keys", "values", "update", "apply"}


def bases(c, suffix, inh, dic):
    """where the class gets its fields from: (base classes, how many of its fields they hold)"""
    if not inh:
        return [], "(dict)" if dic else ""
    b = ["%s%sB%d" % (c["name"], suffix, i) for i in range(inh)]
    return b, "(%s)" % ", ".join([b[-1]] + (["dict"] if dic else []))


def split(L, props, b):
    """moves the first half of the properties to the base classes"""
    if not b:
        return L + [x for p in props for x in p]
    n = (len(props) + 1) // 2
    pre = ["class %s:" % b[0]] + [x for p in props[:n] for x in p] + ["    pass", ""]
    for i in range(1, len(b)):
        pre += ["class %s(%s):" % (b[i], b[i - 1]), "    pass", ""]
    return pre + L + [x for p in props[n:] for x in p]


def in_class(c, rng):
    inh = rng.choice([0, 0, 1, 2, 3]) if c["in_style"] != "anno" else 0
    b, par = bases(c, "Args", inh, c["dict_in"])
    L = ["@pulumi.input_type", "class %sArgs%s:" % (c["name"], par)]
    if c["in_style"] == "anno":
        for f in c["fields"]:
            h = ri(f["ty"], rng, True)
            if f["opt"]:
                v = " = pulumi.property(%r, default=None)" % f["wire"]
            elif f["py"] != f["wire"] or f["py"] in CLASH or rng.random() < .5:
                v = " = pulumi.property(%r)" % f["wire"]
            else:
                v = ""
            L.append("    %s: %s%s" % (f["py"], h, v))
        return L + ["    pass", ""]
    fs = sorted(c["fields"], key=lambda f: f["opt"])
    if fs:
        L.append("    def __init__(__self__, *, %s):" % ", ".join(f["py"] + ("=None" if f["opt"] else "") for f in fs))
    for f in fs:
        L.append("        %spulumi.set(__self__, %r, %s)" % ("if %s is not None: " % f["py"] if f["opt"] else "", f["py"], f["py"]))
    props = []
    for f in fs:
        h = ri(f["ty"], rng, True)
        body = rng.choice(["return pulumi.get(self, %r)" % f["py"], "..."])
        P = ["    @property", "    @pulumi.getter%s" % ("(name=%r)" % f["wire"] if f["py"] != f["wire"] or rng.random() < .5 else ""),
             "    def %s(self) -> %s:" % (f["py"], h), "        " + body]
        P += ["    @%s.setter" % f["py"], "    def %s(self, value: %s):" % (f["py"], h), "        " + rng.choice(["pulumi.set(self, %r, value)" % f["py"], "..."])]
        props.append(P)
    return split(L, props, b) + ["    pass", ""]


def out_class(c, rng, name=None):
    inh = rng.choice([0, 0, 1, 2, 3]) if c["out_style"] != "anno" else 0
    b, par = bases(c, "Out" + (name or ""), inh, c["dict_out"])
    L = ["@pulumi.output_type", "class %s%s:" % (name or c["name"], par)]
    if c["dict_out"] and c["tr"]:
        L += ["    _TAB = %r" % {f["wire"]: f["py"] for f in c["fields"] if f.get("tab")},
              "    def _translate_property(self, prop):", "        return self._TAB.get(prop) or prop"]
    if c["out_style"] == "anno":
        for f in c["fields"]:
            h = ro(f["ty"], rng)
            if f["opt"]:
                v = " = pulumi.property(%r, default=None)" % f["wire"]
            elif f["py"] != f["wire"] or f["py"] in CLASH or rng.random() < .5:
                v = " = pulumi.property(%r)" % f["wire"]
            else:
                v = ""
            L.append("    %s: %s%s" % (f["py"], h, v))
        return L + ["    pass", ""]
    fs = sorted(c["fields"], key=lambda f: f["opt"])
    if fs:
        L.append("    def __init__(__self__, *, %s):" % ", ".join(f["py"] + ("=None" if f["opt"] else "") for f in fs))
    for f in fs:
        L.append("        %spulumi.set(__self__, %r, %s)" % ("if %s is not None: " % f["py"] if f["opt"] else "", f["py"], f["py"]))
    props = []
    for f in fs:
        props.append(["    @property", "    @pulumi.getter%s" % ("(name=%r)" % f["wire"] if f["py"] != f["wire"] or rng.random() < .5 else ""),
                      "    def %s(self) -> %s:" % (f["py"], ro(f["ty"], rng)), "        " + rng.choice(["return pulumi.get(self, %r)" % f["py"], "..."])])
    return split(L, props, b) + ["    pass", ""]


def res_class(c, mode, rng, item):
    L = ["class R(pulumi.%s):" % item["base"]]
    decl = []
    for f in c["fields"]:
        h = "pulumi.Output[%s]" % ro(f["ty"], rng)
        if rng.random() < .4:
            L.append("    %s: %s%s" % (f["py"], h, " = pulumi.property(%r)" % f["wire"] if f["py"] != f["wire"] or rng.random() < .5 else ""))
        else:
            decl += ["    @property", "    @pulumi.getter%s" % ("(name=%r)" % f["wire"] if f["py"] != f["wire"] or rng.random() < .5 else ""),
                     "    def %s(self) -> %s:" % (f["py"], h), "        " + rng.choice(["return pulumi.get(self, %r)" % f["py"], "..."])]
    L.append("    def __init__(self, name, props, opts=None):")
    last = ", remote=True" if item["base"] == "ComponentResource" else ""
    if item["copy"] and mode == "meta" and not c["dict_in"]:
        L += ["        __props__ = RArgs.__new__(RArgs)",
              "        for k in %r: __props__.__dict__[k] = getattr(props, k)" % [f["py"] for f in c["fields"]],
              "        super().__init__('pk:m:R', name, __props__, opts%s)" % last]
    else:
        L.append("        super().__init__('pk:m:R', name, props, opts%s)" % last)
    if mode == "over":
        L += ["    _IN = dict(%r)" % item["inkeys"], "    _OUT = dict(%r)" % item["keys"],
              "    def translate_input_property(self, prop): return self._IN.get(prop) or prop",
              "    def translate_output_property(self, prop): return self._OUT.get(prop) or prop"]
    return L + decl + [""]


# ---------------------------------------------------------------- values
class Vals:
    def __init__(self, rng, cls, enums, dry):
        self.rng, self.dry = rng, dry
        self.cls = {c["name"]: c for c in cls}
        self.enums = {e["name"]: e for e in enums}
        self.misfit = rng.random() < .15

    # -- inputs
    def wrap(self, v, d):
        rng = self.rng
        r = rng.random()
        if r < .75:
            return v
        if r < .9:
            return {"t": "out", "known": not (self.dry and rng.random() < .3), "secret": rng.random() < .3, "v": v}
        return {"t": "aw", "v": v}

    def gi(self, T, d=3):
        return self.wrap(self.gi0(T, d), d)

    def gi0(self, T, d):
        rng = self.rng
        k = T["ty"]
        if k == "any":
            if d <= 0 or rng.random() < .5:
                return self.leaf(rng.choice(["str", "int", "float", "bool"]))
            r = rng.random()
            if r < .35:
                return self.dict_(lambda: self.gi(T, d - 1))
            if r < .65:
                return {"t": "list", "l": [self.gi(T, d - 1) for _ in range(rng.randrange(3))]}
            n = rng.choice(sorted(self.cls))
            return self.obj(n, d - 1) if n != "R" else self.leaf("str")
        if k == "enum":
            e = self.enums[T["en"]]
            v = rng.choice(e["vals"])
            if rng.random() < .6:
                return {"t": "enum", "en": T["en"], "v": v}
            return v if v["t"] == "str" else {"t": "int" if e["base"] == "int" else "flt", "s": v["s"]}
        if k == "list":
            return {"t": "list", "l": [self.gi(T["el"], d - 1) for _ in range(rng.randrange(3))]}
        if k == "dict":
            return self.dict_(lambda: self.gi(T["el"], d - 1))
        if k == "obj":
            c = self.cls[T["cl"]]
            if rng.random() < .65:
                return self.obj(T["cl"], d - 1)
            ks, l = [], []
            for f in c["fields"]:
                if d <= 0 and f["ty"]["ty"] in ("obj", "list", "dict"):
                    continue
                if rng.random() < (.5 if f["opt"] else .95):
                    ks.append(f["py"] if rng.random() < .7 else f["wire"])
                    l.append(self.gi(f["ty"], d - 1) if rng.random() < .9 else NULL)
            if rng.random() < .15:
                ks.append("extra_one")
                l.append(self.leaf("str"))
            return {"t": "dict", "k": ks, "l": l}
        if k == "union":
            return self.leaf(rng.choice(["str", "int"]))
        if rng.random() < .05:
            k = "str"
        if k == "str" and rng.random() < .1:
            # some accept a document where a text is declared
            return {"t": "dict", "k": ["ab_cd"], "l": [S("doc")]} if self.misfit else S("x")
        return self.leaf(k)

    def dict_(self, el):
        ks = self.rng.sample(["k1", "ab_cd", "api_version", "max_size", "from_"], self.rng.randrange(3))
        return {"t": "dict", "k": ks, "l": [el() for _ in ks]}

    def leaf(self, k):
        rng = self.rng
        if k == "str":
            return S(rng.choice(["", "a", "b-c", "1", "é"]))
        if k == "bool":
            return {"t": "bool", "b": rng.random() < .5}
        if k == "int":
            return {"t": "int", "s": text(rng.choice([0, 1, 7, -3, 2 ** 40, 10 ** 15 + 3, 2 ** 52, -(2 ** 53)]))}
        return {"t": "flt", "s": text(rng.choice([0.5, 1.0, 2.5, -0.25]))}

    def obj(self, n, d):
        c = self.cls[n]
        l = []
        for f in c["fields"]:
            deep = d <= 0 and (f["ty"]["ty"] in ("obj", "list", "dict"))
            if f["opt"] and (deep or self.rng.random() < .4):
                l.append(NULL)
            elif deep:
                l.append({"t": "list", "l": []} if f["ty"]["ty"] == "list" else {"t": "dict", "k": [], "l": []} if f["ty"]["ty"] == "dict" else
                         self.obj(f["ty"]["cl"], d - 1))
            else:
                l.append(self.gi(f["ty"], d))
        return {"t": "obj", "cl": n, "l": l}

    # -- wire values
    def gw(self, T, d=3, sec=True):
        rng = self.rng
        r = rng.random()
        if r < .06:
            return NULL
        if r < .12 and self.dry:
            return {"t": "unk"}
        if sec and r < .2:
            return {"t": "sec", "v": self.gw(T, d, False)}
        k = T["ty"]
        if self.misfit and rng.random() < .04:
            return rng.choice([{"t": "list", "l": []}, {"t": "dict", "k": [], "l": []}, S("zzz"), num(99)])
        if k == "any":
            if d <= 0 or rng.random() < .6:
                return rng.choice([S("w"), num(3), num(1.5), {"t": "bool", "b": True}])
            if rng.random() < .5:
                return self.wdict(lambda: self.gw(T, d - 1, sec))
            return {"t": "list", "l": [self.gw(T, d - 1, sec) for _ in range(rng.randrange(3))]}
        if k == "enum":
            return rng.choice(self.enums[T["en"]]["vals"])
        if k == "list":
            return {"t": "list", "l": [self.gw(T["el"], d - 1, sec) for _ in range(rng.randrange(3))]}
        if k == "dict":
            return self.wdict(lambda: self.gw(T["el"], d - 1, sec))
        if k == "obj":
            return self.wobj(T["cl"], d - 1, sec)
        if k == "union":
            return rng.choice([S("u"), num(2)])
        if rng.random() < .05:
            k = rng.choice(["str", "bool"])
        if k == "int":
            return num(rng.choice([0, 1, 7, -3, 2 ** 40]))
        if k == "float":
            return num(rng.choice([0.5, 1.0, 2.5, -0.25]))
        return self.leaf(k)

    def wobj(self, n, d, sec=True):
        ks, l = [], []
        for f in self.cls[n]["fields"]:
            if d <= -1 and f["ty"]["ty"] in ("obj", "list", "dict"):
                continue
            if self.rng.random() < (.6 if f["opt"] else .9):
                ks.append(f["wire"])
                l.append(self.gw(f["ty"], d, sec))
        if self.rng.random() < .2:
            ks.append("undeclared")
            l.append(self.gw({"ty": "any"}, 1, sec))
        return {"t": "dict", "k": ks, "l": l}

    def wdict(self, el):
        ks = self.rng.sample(["k1", "abCd", "apiVersion", "maxSize", "from"], self.rng.randrange(3))
        return {"t": "dict", "k": ks, "l": [el() for _ in ks]}


def item(rng):
    dry = rng.random() < .4
    mode = rng.choice(["meta", "meta", "over"])
    cls, enums = schema(rng, dry, mode)
    return finish(rng, {"cls": cls, "enums": enums, "dry": dry, "mode": mode})


def finish(rng, it):
    cls, enums, dry, mode = it["cls"], it["enums"], it["dry"], it["mode"]
    it.update(base=rng.choice(["CustomResource", "CustomResource", "ComponentResource"]), copy=rng.random() < .6, keys=[], inkeys=[])
    top = cls[-1]
    if mode == "over":
        tab = [[f["py"], f["wire"]] for f in top["fields"] if f["py"] != f["wire"]]
        have = {p for p, _ in tab} | {w for _, w in tab}
        for p, w in (("ab_cd", "abCd"), ("api_version", "apiVersion")):
            if p not in have:
                tab.append([p, w])
        it["inkeys"], it["keys"] = tab, [[w, p] for p, w in tab]
    g = Vals(rng, cls, enums, dry)
    ops = []
    for _ in range(rng.randrange(1, 3)):
        o = g.obj("R", 3)
        if mode == "over":
            ix = [i for i, f in enumerate(top["fields"]) if o["l"][i] is not NULL or rng.random() < .6]
            o = {"t": "dict", "k": [top["fields"][i]["py"] for i in ix], "l": [o["l"][i] for i in ix]}
        st = g.wobj("R", 3)
        ops.append({"op": "reg", "args": o, "state": st, "lift": rng.random() < .5})
    names = [c["name"] for c in cls if c["name"] != "R" and c["fields"]]
    for _ in range(rng.randrange(0, 3)):
        n = rng.choice(names)
        call = rng.random() < .5
        ret = g.wobj(n, 3, call)
        if not ret["k"]:
            continue
        ops.append({"op": "invoke", "cl": n, "iscall": call, "args": g.dict_(lambda: g.gi({"ty": "any"}, 2)), "ret": ret})
    for _ in range(rng.randrange(0, 3)):
        ops.append({"op": "from", "x": g.wrap(g.obj(rng.choice(names), 3) if rng.random() < .7 else g.gi({"ty": "any"}, 3), 3)})
    it["ops"] = ops
    it["src"] = render(it, rng)
    return it


def model_items(lines, rng):
    """what Gen_Types emits: each input sent and each wire value answered, under classes written in any way"""
    by = {}
    for x in lines:
        by.setdefault(repr(x["ty"]), (x["ty"], [], []))[1 if x["what"] == "in" else 2].append(x["x"])
    F = lambda py, wire, ty, opt=True: {"py": py, "wire": wire, "ty": ty, "opt": opt}
    L = lambda k: {"ty": k}
    O = lambda n: {"ty": "obj", "cl": n}
    out = []
    for ty, ins, ws in by.values():
        n = max(len(ins), len(ws))
        for a in range(0, n, 12):
            mode = rng.choice(["meta", "meta", "over"])
            cls = [mkcls(rng, "I", [F("a_b", "aB", L("str"), rng.random() < .5), F("n", "n", L("int"))]),
                   mkcls(rng, "O", [F("in_", "in", O("I")), F("x_s", "xS", {"ty": "list", "el": O("I")}), F("m_p", "mP", {"ty": "dict", "el": O("I")}),
                                    F("e", "e", {"ty": "enum", "en": "E"})]),
                   mkcls(rng, "R", [F("p_p", "pP", ty)])]
            # fields stay in the order of the model
            cls[2]["dict_in"] = cls[2]["dict_in"] and mode == "meta"
            keys = [["aB", "a_b"], ["pP", "p_p"]] if mode == "over" else []
            it = {"cls": cls, "enums": [{"name": "E", "base": "str", "vals": [S("u"), S("v")]}], "dry": rng.random() < .3, "mode": mode,
                  "base": rng.choice(["CustomResource", "CustomResource", "ComponentResource"]), "copy": rng.random() < .6,
                  "keys": keys, "inkeys": [[b, c] for c, b in keys], "ops": []}
            for i in range(a, min(n, a + 12)):
                v = ins[i % len(ins)]
                w = ws[i % len(ws)]
                args = {"t": "obj", "cl": "R", "l": [v]} if mode == "meta" else {"t": "dict", "k": ["p_p"], "l": [v]}
                it["ops"].append({"op": "reg", "args": args, "lift": rng.random() < .3,
                                  "state": {"t": "dict", "k": ["pP"], "l": [w]} if rng.random() < .7 else {"t": "dict", "k": [], "l": []}})
            it["src"] = render(it, rng)
            out.append(it)
    return out
