"""Runs TLC and reads what it says."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class TLCError(Exception):
    pass


class Result:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.lines = []
        self.ok = False
        self.out = ""
        self.wall = 0.0
        self.coverage = {}


def run(module, cfg=None, env=None, workers=8, timeout=600, tag="@@", extra=(), heap="6g", coverage=False, constants=None,
        check_ok=True, simulate=None, depth=None, seed=None):
    """Runs spec/<module>.tla with spec/<cfg>.cfg. `constants` (dict) is appended to a copy of the cfg.
    Lines printed by the spec with PrintT(<tag><json>) are returned, decoded."""
    cfg = cfg or module
    work = tempfile.mkdtemp(prefix="tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla") or f.endswith(".cfg"):
                shutil.copy(os.path.join(SPEC, f), work)
        cfgpath = os.path.join(work, cfg + ".cfg")
        if constants:
            txt = open(cfgpath).read()
            for k, v in constants.items():
                txt, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?)%s\s*=.*$" % re.escape(k), lambda m: m.group(1) + "%s = %s" % (k, v), txt)
                if n == 0:
                    txt += "\nCONSTANT %s = %s\n" % (k, v)
            with open(cfgpath, "w") as fh:
                fh.write(txt)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp",
               _classpath(), "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(work, "md"), "-noGenerateSpecTE",
               "-config", cfgpath]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
            if depth:
                cmd += ["-depth", str(depth)]
            if seed is not None:
                cmd += ["-seed", str(seed)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += list(extra) + [os.path.join(work, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        r = Result()
        r.wall = time.time() - t0
        r.out = p.stdout
        r.rc = p.returncode
        for line in p.stdout.splitlines():
            s = line.strip()
            if s.startswith('"' + tag):
                s = s[1:-1].encode().decode("unicode_escape") if "\\" in s else s[1:-1]
                r.lines.append(json.loads(s[len(tag):]))
            elif s.startswith(tag):
                r.lines.append(json.loads(s[len(tag):]))
        r.lines.sort(key=lambda x: json.dumps(x, sort_keys=True))  # TLC's workers print in any order
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", p.stdout):
            pass
        if m:
            r.states, r.distinct = int(m.group(1)), int(m.group(2))
        if simulate:
            m = None
            for m in re.finditer(r"(\d+) states checked", p.stdout):
                pass
            if m:
                r.states = int(m.group(1))
        for m in re.finditer(r"<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)[^>]*>: (\d+):(\d+)", p.stdout):
            r.coverage[m.group(2) + "!" + m.group(1)] = int(m.group(4))
        r.ok = p.returncode == 0
        if check_ok and not r.ok:
            raise TLCError("TLC failed on %s/%s (rc %d):\n%s" % (module, cfg, p.returncode, "\n".join([y for y in p.stdout.splitlines() if not y.startswith(("Parsing file", "Semantic proc"))][-40:])))
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _classpath():
    d = "/opt/veriftools/tla"
    jars = [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar")]
    jars.sort(key=lambda p: 0 if p.endswith("tla2tools.jar") else 1)
    return ":".join(jars)
