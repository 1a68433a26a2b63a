"""claim.py ID technique note"""
import json, os, sys, subprocess
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "claimed.json")
d = json.load(open(p))
d[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
with open(p, "w") as fh:
    fh.write("{\n" + ",\n".join(" %s: %s" % (json.dumps(k), json.dumps(d[k])) for k in sorted(d)) + "\n}\n")
subprocess.run([sys.executable, os.path.join(os.path.dirname(p), "props.py")], check=True)
