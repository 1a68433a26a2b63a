"""A deterministic asyncio loop for driving the SDK.

* every `run_in_executor` call runs in its own real thread, which the loop waits for until the thread either finishes
  or *parks* inside a fake monitor call (see `Gate`);
* when the loop has nothing ready and no timer, a scheduler picks one parked call and lets it return: the order in
  which RPCs complete is therefore chosen by the driver (from a seed or from a TLC behaviour), never by the clock;
* when nothing is ready, nothing is parked and there is no timer, the program can never make progress again: `Hang`.
"""
import asyncio
import threading


class Hang(BaseException):
    pass


class Gate:
    """One parked call: the worker thread waits here until the scheduler decides the outcome."""

    def __init__(self, key, req=None, meta=None):
        self.key = key
        self.req = req
        self.meta = meta
        self.event = threading.Event()
        self.outcome = None


class Deferred:
    """Something the scheduler can make happen at an idle point without a thread (e.g. a leaf future resolves)."""

    def __init__(self, key, fire):
        self.key = key
        self.fire = fire


class DetLoop(asyncio.SelectorEventLoop):
    def __init__(self, choose=None):
        super().__init__()
        self.parked = []  # list[Gate], in the order they parked
        self.choose = choose or (lambda parked: (0, None))
        self.deferred = []
        self._tls = {}
        self._lockdet = threading.Lock()
        self.main_thread = threading.get_ident()
        self.on_idle = None
        self.max_idle_steps = 20000
        self.steps = 0

    # -- called by the worker threads, from inside a fake monitor
    def park(self, gate):
        job = self._tls.get(threading.get_ident())
        if job is None:
            # Called on a thread this loop does not manage (e.g. directly on the loop thread): cannot park.
            return False
        with self._lockdet:
            self.parked.append(gate)
        gate.job = job
        job["parked"].set()
        gate.event.wait()
        return True

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        job = {"parked": threading.Event(), "fut": fut, "done": False}

        def work():
            self._tls[threading.get_ident()] = job
            try:
                res, exc = func(*args), None
            except BaseException as e:  # noqa
                res, exc = None, e
            finally:
                self._tls.pop(threading.get_ident(), None)
            job["res"] = (res, exc)
            job["done"] = True
            job["parked"].set()

        t = threading.Thread(target=work, daemon=True)
        job["thread"] = t
        t.start()
        job["parked"].wait()
        if job["done"]:
            t.join()
            self._finish(job)
        return fut

    def _finish(self, job):
        res, exc = job["res"]
        fut = job["fut"]

        def fin():
            if fut.cancelled() or fut.done():
                return
            if exc is not None:
                if isinstance(exc, StopIteration):
                    fut.set_exception(RuntimeError(exc))
                else:
                    fut.set_exception(exc)
            else:
                fut.set_result(res)

        self.call_soon(fin)

    def release(self, gate, outcome=None):
        with self._lockdet:
            self.parked.remove(gate)
        gate.outcome = outcome
        job = gate.job
        job["parked"].clear()
        gate.event.set()
        job["parked"].wait()  # finished, or parked again in another call
        if job["done"]:
            job["thread"].join()
            self._finish(job)

    def _run_once(self):
        if not self._ready and not self._stopping:
            timers = [h for h in self._scheduled if not h._cancelled]
            while not timers and not self._ready:
                self.steps += 1
                if self.steps > self.max_idle_steps:
                    raise Hang("livelock")
                if self.on_idle is not None and self.on_idle():
                    continue
                cands = list(self.parked) + list(self.deferred)
                if not cands:
                    raise Hang("nothing ready, nothing in flight")
                i, outcome = self.choose(cands)
                c = cands[i]
                if isinstance(c, Deferred):
                    self.deferred.remove(c)
                    c.fire()
                else:
                    self.release(c, outcome)
                timers = [h for h in self._scheduled if not h._cancelled]
        super()._run_once()


def drain(loop, n=200):
    """Cancels everything left so the loop can be closed quietly."""
    for g in list(loop.parked):
        loop.release(g, ("abandon", None))
    try:
        tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
        for t in tasks:
            t.cancel()
        for _ in range(3):
            loop.call_soon(loop.stop)
            loop.run_forever()
    except BaseException:
        pass
    for t in asyncio.all_tasks(loop):
        t._log_destroy_pending = False
    try:
        loop.close()
    except BaseException:
        pass
