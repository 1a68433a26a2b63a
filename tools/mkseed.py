"""mkseed.py ID PROP FILE <<< python dict {old:..., new:..., needs:..., breaks:..., demo:...}: makes seeded/ID."""
import json, os, subprocess, sys
def mk(id, prop, file, old, new, needs, breaks, demo, more=()):
    R = "/repo"; d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    try:
        for f, o, n in [(file, old, new)] + list(more):
            p = os.path.join(R, "sdk/python/lib/pulumi", f) if not f.startswith("sdk/") else os.path.join(R, f)
            s = open(p).read()
            assert s.count(o) == 1, (id, f, s.count(o))
            open(p, "w").write(s.replace(o, n))
        diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE, text=True).stdout
        assert diff
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    if "demolib" in demo:
        subprocess.run(["cp", "/verif/tools/demolib.py", d + "/"])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
