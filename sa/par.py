"""Worker processes for the rules, with an end in sight: a run that has already found plenty, or that has used up
its time, stops there and says which units it left undecided."""
import multiprocessing as mp, os, signal, time
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait

DEADLINE = None       # time.time() at which the whole check must be done
TARGET = None         # the property being decided
ENOUGH = 150          # findings of TARGET after which looking further adds nothing


class Stopped:
    def __init__(self, why):
        self.why = why


def _quiet(fs):
    return sum(1 for f in fs if TARGET is None or TARGET in f.props)


def run(fn, jobs, R):
    """Yields (job, fn(job)) in completion order; (job, Stopped(why)) for each job given up."""
    jobs = list(jobs)
    n = min(8, os.cpu_count() or 4)
    ex = ProcessPoolExecutor(n, mp_context=mp.get_context("fork"))
    why = None
    pend, it = {}, iter(jobs)
    left = None
    try:
        while True:
            while left is None and len(pend) < n + 2:
                j = next(it, it)
                if j is it:
                    left = []
                    break
                pend[ex.submit(fn, j)] = j
            if not pend:
                break
            t = None if DEADLINE is None else max(0.0, DEADLINE - time.time())
            done, _ = wait(pend, timeout=t, return_when=FIRST_COMPLETED)
            if not done:
                why = "the time for this check is used up"
                break
            for f in done:
                yield pend.pop(f), f.result()
            if _quiet(R.findings) >= ENOUGH:
                why = "enough findings already"
                break
        if why:
            if DEADLINE is not None and time.time() >= DEADLINE:
                R.floor = 0
            else:
                R.floor = 0 if R.findings else R.floor
            for f, j in pend.items():
                yield j, Stopped(why)
            for j in it:
                yield j, Stopped(why)
    finally:
        if why:
            for p in list((ex._processes or {}).values()):
                p.kill()
            ex.shutdown(wait=False, cancel_futures=True)
        else:
            ex.shutdown()


class limit:
    """Serial rules: raises exc repeatedly in this process once the deadline has passed."""

    def __init__(self, exc, R):
        self.exc, self.R = exc, R

    def __enter__(self):
        if DEADLINE is not None:
            def late(*_):
                self.R.floor = 0
                raise self.exc("the time for this check is used up")
            self.old = signal.signal(signal.SIGALRM, late)
            signal.setitimer(signal.ITIMER_REAL, max(0.1, DEADLINE - time.time()), 1.0)

    def __exit__(self, *_):
        if DEADLINE is not None:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)
        return False
