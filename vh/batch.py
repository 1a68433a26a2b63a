"""Batch validation of recorded traces against a Trace_* specification, in parallel TLC runs."""
import json
import os
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import tlc


def validate(rep, module, traces, chunk=4000, par=4, workers=2, timeout=1800, env=None, constants=None, cfg=None):
    """Returns the verdict lines, with `tid` rebased to 1-based positions in `traces`."""
    work = tempfile.mkdtemp(prefix="traces-")
    try:
        jobs = []
        for k in range(0, len(traces), chunk):
            p = os.path.join(work, "t%d.json" % k)
            with open(p, "w") as fh:
                json.dump(traces[k:k + chunk], fh)
            jobs.append((k, p))

        def one(job):
            k, p = job
            e = {"TRACES": p}
            e.update(env or {})
            return k, tlc.run(module, cfg=cfg, env=e, workers=workers, timeout=timeout, heap="4g", constants=constants)

        out = []
        with ThreadPoolExecutor(par) as ex:
            for k, r in ex.map(one, jobs):
                rep.tlc(r)
                for v in r.lines:
                    v["tid"] += k
                    out.append(v)
        rep.notes.setdefault("trace_specs", [])
        if module not in rep.notes["trace_specs"]:
            rep.notes["trace_specs"].append(module)
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)


def confirmed(rep, module, verdicts, work, items, trace, again=2, cap=6, **kw):
    """The verdicts that come again when their items are run again: what real processes, ports and clocks did to a single run is no verdict.
    `trace(result, item)` gives what is validated; no more than `cap` items are run again for a clause, and those of the others that
    did not get a turn stand if any of theirs came again."""
    from . import pool
    if not verdicts:
        return verdicts
    turns, per = [], {}
    for v in verdicts:
        c = (v["prop"], v["clause"])
        if v["tid"] not in per.setdefault(c, []) and len(per[c]) < cap:
            per[c].append(v["tid"])
    turns = sorted({t for ts in per.values() for t in ts})
    idx = turns * again
    rs = pool.pmap(work, [items[t - 1] for t in idx], procs=8, crash=lambda *a: None)
    pairs = [(t, trace(r, items[t - 1])) for t, r in zip(idx, rs) if r is not None]
    came = {(pairs[v["tid"] - 1][0], v["prop"], v["clause"]) for v in validate(rep, module, [x for _, x in pairs], **kw)}
    stand = {(p, c) for _, p, c in came}
    out = []
    for v in verdicts:
        c = (v["prop"], v["clause"])
        if (v["tid"],) + c in came or (v["tid"] not in per[c] and c in stand):
            out.append(v)
    dropped = len(verdicts) - len(out)
    if dropped:
        rep.add("verdicts_that_did_not_come_again", dropped)
    return out
