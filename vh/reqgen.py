"""Seeded generator of programs for the requests family (options of every form, merges, aliases, transformations)."""
from .optx import urn_text

NAMES = ["foo_bar", "plain", "odd", "baz_qux_one", "foo_bar.sub_key"]
TYPES = ["pk:m:A", "pk:m:B", "qk:m:C", "pk:n/x:D"]
E0 = {"t": "dict", "k": [], "l": []}


def rand_urn(rng):
    return {"st": rng.choice(["stk", "old"]), "pr": rng.choice(["prj", "pold"]), "qt": [rng.choice(TYPES) for _ in range(1 + (rng.random() < 0.4))],
            "nm": rng.choice(["app", "app-x", "was", "n1"])}


def rand_alias(rng, res, dry=False):
    """In a preview an alias may be unknown ("unk")."""
    if rng.random() < 0.3:
        return {"k": "urn", "u": rand_urn(rng), "form": rng.choice(["", "", "out", "fut"] + ["unk"] * dry)}
    a = {"k": "alias", "form": rng.choice(["", "", "", "out", "fut"] + ["unk"] * dry)}
    if rng.random() < 0.5:
        a["name"] = rng.choice(["app", "app-x", "was", "n1", "old-name"])
    if rng.random() < 0.3:
        a["type_"] = rng.choice(TYPES)
    c = rng.random()
    if c < 0.15:
        a["parent"] = {"p": "root"}
    elif c < 0.3 and res:
        a["parent"] = {"p": rng.choice(["res", "resurn"]), "r": 1 + rng.randrange(len(res))}
    elif c < 0.4:
        a["parent"] = {"p": "urn", "u": rand_urn(rng), "form": rng.choice(["", "out"])}
    if rng.random() < 0.25:
        a["stack"] = rng.choice(["old", "dev"])
    if rng.random() < 0.25:
        a["project"] = rng.choice(["pold", "prj2"])
    if "stack" in a or "project" in a:
        a["sform"] = rng.choice(["", "", "out"] + ["unk"] * dry)
    return a


class G:
    def __init__(self, rng, focus="", dry=False):
        self.rng, self.focus, self.n, self.dry = rng, focus, 0, dry

    def some(self, p):
        return self.rng.random() < p

    def tf(self, i, res, par, leaf):
        self.n += 1
        rng = self.rng
        do = rng.choice(["none", "addprop", "addprop", "dropprop", "protect", "unprotect", "ignore", "version", "alias", "same", "tf"])
        if leaf and self.some(0.15) and res:
            do = rng.choice(["reparent", "unparent", "reparentmut"])
            return {"id": "t%d" % self.n, "do": do, "s": "", "r": 1 + rng.randrange(len(res))}
        return {"id": "t%d" % self.n, "do": do, "s": rng.choice(["x", "y", "z1"]), "r": 0}

    def rec(self, i, kind, res, par, pkg, leaf):
        rng = self.rng
        e = {"k": "rec"}
        d = {"opts": 0.35, "alias": 0.08, "tf": 0.1, "merge": 0.35}[self.focus]
        if par:
            e["par"] = par
        for k in ("protect", "dbr", "retain"):
            if self.some(d):
                e[k] = rng.choice("TF")
        for k, v in (("version", ["1.2.3", "0.1"]), ("url", ["https://x.y", "u2"])):
            if self.some(d):
                e[k] = rng.choice(v)
        if self.some(d) and kind != "read":
            e["import"] = rng.choice(["imp-1", "i2"])
        for k in ("ignore", "roc", "aso"):
            if self.some(d):
                e[k] = [rng.choice(NAMES) for _ in range(rng.randrange(3))]
        if self.some(d):
            e["ct"] = {"form": rng.choice(["dict", "obj"]), "v": [rng.choice(["", "5m", "1h"]) for _ in range(3)]}
        provs = [j for j in range(1, i) if res[j - 1]["kind"] == "prov"]
        if provs and kind != "prov":
            own = [j for j in provs if res[j - 1]["pkg"] == pkg]
            if self.some(0.3):
                if kind in ("cust", "read") and self.some(0.06):
                    e["prov"] = rng.choice(provs)
                elif own:
                    e["prov"] = rng.choice(own)
            if self.some(0.3):
                e["provs"] = {"form": rng.choice(["list", "list", "dict", "tuple", "udict"]), "l": []}
                for j in provs:
                    if self.some(0.6) and (e["provs"]["form"] not in ("dict", "udict") or res[j - 1]["pkg"] not in [res[x - 1]["pkg"] for x in e["provs"]["l"]]):
                        e["provs"]["l"].append(j)
        cands = [j for j in range(1, i) if res[j - 1]["kind"] in ("cust", "prov")]
        if cands and self.some(d):
            l = sorted(set(rng.choice(cands) for _ in range(1 + rng.randrange(3))))
            form = rng.choice(["list", "tuple", "listout", "listfut", "listmix", "out", "fut", "secretout", "coro"])
            if self.some(0.3):
                l, form = l[:1], rng.choice(["single", "outsingle", "futsingle", "corosingle"])
            e["deps"] = {"form": form, "l": l}
        if self.some({"alias": 0.75, "merge": 0.4}.get(self.focus, 0.1)):
            e["aliases"] = [rand_alias(rng, res, self.dry) for _ in range(rng.randrange(4))]
            e["aform"] = rng.choice(["list", "list", "tuple"])
        if self.some({"tf": 0.6, "merge": 0.3}.get(self.focus, 0.05)):
            e["tf"] = [self.tf(i, res, par, leaf) for _ in range(rng.randrange(4))]
        return e

    def opts(self, i, kind, res, par, pkg, leaf, depth=0):
        rng = self.rng
        if depth < 3 and self.some(0.65 if self.focus == "merge" and depth < 2 else 0.15):
            parts = [self.opts(i, kind, res, par if self.some(0.5) else 0, pkg, leaf, depth + 1) for _ in range(2)]
            if self.some(0.12):
                parts[rng.randrange(2)] = {"k": "none"}
            return {"k": "merge", "how": rng.choice(["static", "inst"]), "a": parts[0], "b": parts[1]}
        return self.rec(i, kind, res, par, pkg, leaf)


def recs(e):
    return [] if e["k"] == "none" else [e] if e["k"] == "rec" else recs(e["a"]) + recs(e["b"])


def rand_program(rng, focus, nmax=5):
    dry = rng.random() < 0.25
    g = G(rng, focus, dry)
    res = []
    n = rng.randrange(1, nmax + 1)
    for i in range(1, n + 1):
        kind = rng.choice(["cust"] * 5 + ["comp"] * 4 + ["rcomp", "read", "get"] + ["prov"] * 2)
        if focus in ("alias", "tf") and kind in ("prov", "get") and rng.random() < 0.7:
            kind = "comp"
        pkg = rng.choice(["pk", "pk", "qk"])
        if i < n and rng.random() < 0.25:
            kind = "prov"
        typ = "pulumi:providers:" + pkg if kind == "prov" else rng.choice([t for t in TYPES if t.startswith(pkg)])
        pars = [j for j in range(1, i) if res[j - 1]["kind"] in ("comp", "comp", "rcomp", "cust") and not res[j - 1].get("leaf")]
        par = rng.choice(pars) if pars and rng.random() < 0.65 and kind != "get" else 0
        name = "r%d" % i
        if par and rng.random() < 0.5:
            name = res[par - 1]["name"] + rng.choice(["-x", "y", "-b"]) + str(i)
        tr = rng.choice(["", "camel", "typed"]) if kind in ("cust", "read", "get") else ""
        pn = ["foo_bar", "odd", "plain"] if tr == "typed" else ["foo_bar", "baz_qux_one", "plain", "odd"]
        r = {"kind": kind, "type": typ, "pkg": pkg, "name": name, "tr": tr, "props": [[k, rng.choice(["v", "w"]) + str(i)] for k in pn if rng.random() < 0.6],
             "engid": "id-%d" % i, "outs": E0}
        leaf = i == n or kind == "read"
        r["leaf"] = leaf
        o = g.opts(i, kind, res, par, pkg, leaf)
        rs = recs(o)
        if not rs:
            rs = [{"k": "rec"}]
            o = rs[0]
        if kind == "read":
            x = rng.choice(rs)
            cust = [j for j in range(1, i) if res[j - 1]["kind"] == "cust"]
            x["id"] = {"form": rng.choice(["", "out", "fut", "sec", "coro"]), "s": "rid%d" % i, "r": 0}
            if cust and rng.random() < 0.3:
                x["id"] = {"form": "res", "r": rng.choice(cust), "s": ""}
        if kind == "get":
            u = {"st": "stk", "pr": "prj", "qt": [typ], "nm": name}
            rng.choice(rs)["urn"] = urn_text(u)
            r["urnv"] = u
        if kind == "prov" and rng.random() < 0.03:
            x = [j for j in range(1, i) if res[j - 1]["kind"] == "prov"]
            if x:
                rs[0]["prov"] = x[0]
        # what can be refused must be nobody's parent, provider or dependency: keep it last
        if any(t["do"] in ("reparent", "unparent", "reparentmut") for x in rs for t in x.get("tf", [])) or any("prov" in x for x in rs):
            r["leaf"] = True
        r["o"] = o
        r["fail"] = None
        res.append(r)
        if r["leaf"] and rng.random() < 0.3:
            break
    # nothing may refer to a leaf
    prog = {"res": res, "stacktf": [], "dry": dry}
    if rng.random() < 0.1:
        prog["noref"] = rng.choice(["1", "true", "TRUE", "0", "no"])
    if rng.random() < (0.6 if focus == "tf" else 0.05):
        prog["stacktf"] = [dict(g.tf(0, [], 0, False), at=1 + rng.randrange(len(res))) for _ in range(1 + rng.randrange(2))]
        prog["stacktf"].sort(key=lambda t: t["at"])
    # a resource that may be refused (by itself or through an inherited transformation) must not be referred to later:
    bad = set()
    for i, r in enumerate(res, 1):
        if any(t["do"] in ("reparent", "unparent", "reparentmut") for x in recs(r["o"]) for t in x.get("tf", [])) or any("prov" in x for x in recs(r["o"])):
            bad.add(i)
    refs = set()
    for r in res:
        for x in recs(r["o"]):
            refs.add(x.get("par", 0))
            refs |= set(x.get("deps", {}).get("l", []))
            refs |= {a["parent"]["r"] for a in x.get("aliases", []) if a.get("parent", {}).get("p") in ("res", "resurn")}
            refs |= set(x.get("provs", {}).get("l", [])) | {x.get("prov", 0)}
            if "id" in x:
                refs.add(x["id"]["r"])
    if refs & bad:
        return rand_program(rng, focus, nmax)
    for r in res:
        r.pop("leaf")
        r.pop("fail")
    return prog


def item(rng):
    return rand_program(rng, rng.choice(["opts", "alias", "alias", "tf", "tf", "merge", "merge"]))
