"""Fork pool over independent obligations (the program is shared copy-on-write)."""
import multiprocessing
import os

_fn = None


def _run(x):
    return _fn(x)


def pmap(fn, items, n=None):
    global _fn
    items = list(items)
    n = min(n or os.cpu_count() or 4, 8, max(1, len(items)))
    if n <= 1:
        return [fn(x) for x in items]
    _fn = fn
    with multiprocessing.get_context('fork').Pool(n) as pool:
        return pool.map(_run, items, chunksize=1)
