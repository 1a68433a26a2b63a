"""What a program with dynamic resources does: builds its providers from source as __main__ would have them, and registers resources."""
import sys


def build(text):
    from . import dyngen
    ns = {"__name__": "__main__", "__builtins__": __builtins__}
    exec(compile(dyngen.HEAD + text, "prog.py", "exec"), ns)
    return ns


class Seen:
    """remembers what was registered"""

    def __init__(self):
        import pulumi

        outer = self
        self.by = {}

        class Mocks(pulumi.runtime.Mocks):
            def call(self, args):
                return {}

            def new_resource(self, args):
                outer.by[args.name] = (args.typ, args.inputs)
                return [args.name, dict(args.inputs)]

        self.mocks = Mocks()


def register(todo):
    """todo: (provider, name, props, module, class name); gives what each sent, or the error"""
    import pulumi
    import pulumi.dynamic as d

    seen = Seen()
    pulumi.runtime.set_mocks(seen.mocks)
    out = {}

    @pulumi.runtime.test
    def run():
        for prov, name, props, module, kname in todo:
            class R(d.Resource, module=module, name=kname):
                pass
            try:
                R(prov, name, props)
            except Exception as ex:  # noqa
                out[name] = repr(ex)[:200]
            except RecursionError as ex:
                out[name] = repr(ex)[:200]

    try:
        run()
    except Exception as ex:  # noqa
        for _, name, *_r in todo:
            out.setdefault(name, repr(ex)[:200])
    return [out[n] if n in out else seen.by.get(n, "not registered") for _, n, *_r in todo]


def make(recipe, rng):
    k, v = recipe
    if k == "v":
        return v
    if k == "d":
        pairs = [(make(a, rng), make(b, rng)) for a, b in v]
        # of equal keys the first counts
        uniq = {}
        for a, b in pairs:
            if a not in uniq:
                uniq[a] = b
        items = list(uniq.items())
        rng.shuffle(items)
        return dict(items)
    xs = [make(x, rng) for x in v]
    if k in ("s", "f"):
        # of equal members the first counts
        uniq = []
        for x in xs:
            if x not in uniq:
                uniq.append(x)
        rng.shuffle(uniq)
        return set(uniq) if k == "s" else frozenset(uniq)
    return xs if k == "l" else tuple(xs)


def main():
    """reads [[source, number of providers, recipes of more state]], in a process of its own; prints the encodings"""
    import base64
    import hashlib
    import json
    import logging
    import random

    logging.disable(logging.CRITICAL)
    import dill

    rng = random.Random(int(sys.argv[1]))
    todo, made = [], []
    for k, (text, n, extras) in enumerate(json.load(sys.stdin)):
        ns = build(text)
        for i in range(1, n + 1):
            p = ns["make%d" % i]()
            p.extra = make(extras[i - 1], rng)
            todo.append((p, "r%d-%d" % (k, i), {}, "", "Resource"))
            made.append((k, i, p))
    out = []
    for (k, i, p), got in zip(made, register(todo)):
        if isinstance(got, str):
            out.append([k, i, False, got, False])
            continue
        enc = got[1]["__provider"]
        try:
            back = dill.loads(base64.b64decode(enc))
            same = back.extra == p.extra and type(back).__name__ == type(p).__name__ and kinds(back.extra) == kinds(p.extra)
        except Exception as ex:  # noqa
            same = False
        out.append([k, i, True, hashlib.sha256(enc.encode()).hexdigest(), same])
    # nothing but this goes to the standard output
    sys.stdout.write("\n" + json.dumps(out))


def kinds(x):
    if isinstance(x, dict):
        return ["dict", sorted(([kinds(k), kinds(v)] for k, v in x.items()), key=repr)]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [kinds(y) for y in x]]
    if isinstance(x, (set, frozenset)):
        return [type(x).__name__, sorted((kinds(y) for y in x), key=repr)]
    return type(x).__name__


if __name__ == "__main__":
    import os
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import importlib
    importlib.import_module("vh.dynprog").main()
