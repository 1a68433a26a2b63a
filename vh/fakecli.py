"""A stand-in for the engine's CLI: a real executable named `pulumi`, first on PATH, that hands its command line, working
directory and environment to this process and does what it is told. What it answers is up to the handler."""
import json
import os
import shutil
import socket
import sys
import tempfile
import threading

SCRIPT = r'''#!%s -IS
import os, sys, socket, json, time
d = os.path.dirname(os.path.dirname(os.path.abspath(sys.argv[0])))
s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
s.connect(os.path.join(d, "s"))
f = s.makefile("rwb")
f.write(json.dumps({"argv": sys.argv[1:], "cwd": os.getcwd(), "env": dict(os.environ)}).encode() + b"\n")
f.flush()
for line in f:
    m = json.loads(line)
    if m[0] == "out":
        os.write(1, bytes.fromhex(m[1]))
    elif m[0] == "err":
        os.write(2, bytes.fromhex(m[1]))
    elif m[0] == "close":
        os.close(1)
    elif m[0] == "exit":
        os._exit(m[1])
    f.write(b"\n")
    f.flush()
os._exit(99)
'''

# The flags of the CLI (pkg/cmd/pulumi): those that take a value, and the others.
VALUED = {"stack", "message", "target", "replace", "target-replace", "policy-pack", "policy-pack-config", "parallel", "color", "verbose",
          "tracing", "plan", "save-plan", "exec-kind", "event-log", "client", "page-size", "page", "file", "secrets-provider", "config",
          "cwd", "exec-agent", "config-file", "server", "version"}
BOOL = {"yes", "skip-preview", "expect-no-changes", "diff", "target-dependents", "logflow", "logtostderr", "debug", "show-secrets", "json",
        "non-interactive", "secret", "plaintext", "force", "all", "path", "current", "refresh", "suppress-outputs", "preserve-config",
        "full-dates", "project", "exact", "reinstall", "remove", "emoji", "disable-integrity-checking"}
SHORT = {"s": "stack", "m": "message", "t": "target", "p": "parallel", "v": "verbose", "y": "yes", "r": "refresh", "d": "debug", "j": "json",
         "f": "force", "a": "all", "e": "emoji"}
WORDS = {"config": {"set", "set-all", "get", "rm", "rm-all", "refresh"}, "stack": {"init", "select", "rm", "ls", "output", "history", "export", "import"},
         "plugin": {"install", "rm", "ls"}, "up": set(), "preview": set(), "refresh": set(), "destroy": set(), "cancel": set(),
         "whoami": set(), "version": set()}


class Usage(Exception):
    pass


def parse(argv):
    """The command line as the CLI understands it: the command, its flags in order, and what else was said."""
    argv = list(argv)
    cmd, flags, pos = [], [], []
    i, rest = 0, False
    while i < len(argv):
        a = argv[i]
        i += 1
        if rest or a == "-" or not a.startswith("-"):
            if not rest and not pos and not cmd and a in WORDS:
                cmd.append(a)
            elif not rest and not pos and len(cmd) == 1 and a in WORDS[cmd[0]]:
                cmd.append(a)
            else:
                pos.append(a)
            continue
        if a == "--":
            rest = True
            continue
        val = None
        if a.startswith("--"):
            name = a[2:]
            if "=" in name:
                name, val = name.split("=", 1)
        else:
            name = SHORT.get(a[1:2])
            if name is None:
                raise Usage("unknown shorthand flag: %s" % a)
            if name == "force" and cmd[:1] == ["stack"] and False:
                pass
            if len(a) > 2:
                val = a[2:].lstrip("=")
        valued = name in VALUED or (cmd == ["config", "set-all"] and name in ("secret", "plaintext"))
        if valued:
            if val is None:
                if i >= len(argv):
                    raise Usage("flag needs an argument: %s" % a)
                val = argv[i]
                i += 1
        elif name in BOOL:
            if val in ("false", "0", "f", "False"):
                continue
            val = ""
        else:
            raise Usage("unknown flag: %s" % a)
        flags.append([name, val])
    if not cmd:
        raise Usage("unknown command")
    return {"cmd": cmd, "fl": flags, "pos": pos}


class FakeCLI:
    """`handler(call, out)` is called, in a thread per invocation, with the invocation and a function that makes the process
    do one thing: out("out", bytes), out("err", bytes); it returns the exit code."""

    def __init__(self, handler):
        self.dir = tempfile.mkdtemp(prefix="fakecli-")
        self.handler = handler
        self.errors = []
        os.makedirs(os.path.join(self.dir, "bin"))
        self.tmp = os.path.join(self.dir, "tmp")
        os.makedirs(self.tmp)
        p = os.path.join(self.dir, "bin", "pulumi")
        with open(p, "w") as fh:
            fh.write(SCRIPT % os.path.realpath(sys.executable))
        os.chmod(p, 0o755)
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.sock.bind(os.path.join(self.dir, "s"))
        self.sock.listen(16)
        self.saved = (os.environ.get("PATH", ""), tempfile.tempdir)
        os.environ["PATH"] = os.path.join(self.dir, "bin") + os.pathsep + self.saved[0]
        tempfile.tempdir = self.tmp
        threading.Thread(target=self._serve, daemon=True, name="fakecli").start()

    def _serve(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self._one, args=(c,), daemon=True, name="fakecli-call").start()

    def _one(self, c):
        f = c.makefile("rwb")
        try:
            call = json.loads(f.readline())

            def out(kind, data=b""):
                f.write(json.dumps([kind, data.hex()]).encode() + b"\n")
                f.flush()
                f.readline()
            try:
                code = self.handler(call, out)
            except Exception as ex:  # noqa
                import traceback
                self.errors.append(traceback.format_exc())
                code = 98
            f.write(json.dumps(["exit", code]).encode() + b"\n")
            f.flush()
            f.readline()
        except Exception:  # noqa
            pass
        finally:
            try:
                f.close()
            except Exception:  # noqa
                pass
            c.close()

    def close(self):
        os.environ["PATH"], tempfile.tempdir = self.saved
        self.sock.close()
        shutil.rmtree(self.dir, ignore_errors=True)
