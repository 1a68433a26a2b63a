"""Fans work out over processes started fresh (the SDK keeps process-wide state).

An item during which the SDK itself raises out of the driver, kills the process or never comes back is reported to
`crash(index, text)` and its result is None; an error of the driver alone raises (machinery error)."""
import multiprocessing as mp
import os
import queue as _q
import time
import traceback

ITEM_LIMIT = 120  # seconds; items take milliseconds


def _work(fn_path, items, q, wid, now):
    try:
        import logging
        logging.disable(logging.CRITICAL)
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        mod, name = fn_path.rsplit(".", 1)
        fn = getattr(__import__(mod, fromlist=[name]), name)
        out, sent = [], time.time()
        for idx, it in items:
            now[2 * wid] = idx
            now[2 * wid + 1] = time.time()
            try:
                out.append((idx, "ok", fn(it)))
            except BaseException as ex:  # noqa
                tb = traceback.extract_tb(ex.__traceback__)
                inside = any("/pulumi/" in f.filename and "/site-packages/" not in f.filename for f in tb[-6:])
                out.append((idx, "sdk" if inside else "err", traceback.format_exc()))
            if time.time() - sent > 2:
                q.put((wid, False, out))
                out, sent = [], time.time()
        now[2 * wid + 1] = 0
        q.put((wid, True, out))
    except BaseException:  # noqa
        q.put((wid, True, [(-1, "err", traceback.format_exc())]))


def pmap(fn_path, items, procs=8, crash=None, limit=ITEM_LIMIT):
    """fn_path: 'module.function', run on every item; returns results in order."""
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    items = list(enumerate(items))
    if not items:
        return []
    procs = max(1, min(procs, len(items)))
    now = ctx.Array("d", 2 * procs, lock=False)
    ps = []
    for w in range(procs):
        p = ctx.Process(target=_work, args=(fn_path, items[w::procs], q, w, now), daemon=True)
        p.start()
        ps.append(p)
    res = {}
    left = set(range(procs))
    bad = []
    while left:
        try:
            w, last, out = q.get(timeout=2)
        except _q.Empty:
            for w in list(left):
                if not ps[w].is_alive() and ps[w].exitcode not in (0, None):
                    bad.append((int(now[2 * w]), "the process died (%s)" % ps[w].exitcode))
                    left.discard(w)
                elif now[2 * w + 1] and time.time() - now[2 * w + 1] > limit:
                    bad.append((int(now[2 * w]), "does not terminate"))
                    ps[w].kill()
                    left.discard(w)
            continue
        if last:
            left.discard(w)
        for idx, kind, val in out:
            if kind == "ok":
                res[idx] = val
            elif kind == "sdk" and crash:
                bad.append((idx, val))
            else:
                for p in ps:
                    p.kill()
                raise RuntimeError("worker failed: %s" % val)
    for p in ps:
        p.join(5)
    if bad and not crash:
        raise RuntimeError("worker failed: %s" % (bad[0],))
    for idx, txt in bad[:20]:
        crash(idx, txt)
    return [res.get(i) for i in range(len(items))]
