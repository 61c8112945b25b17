"""Fork-based parallel map: the loaded program is shared copy-on-write."""
import gc
import multiprocessing
import os
from .prog import Broken

_FN = None


def _work(chunk):
    out = []
    for x in chunk:
        try:
            out.append(_FN(x))
        except Broken as b:
            return ('broken', str(b))
    return ('ok', out)


def pmap(fn, items, procs=None, chunk=None):
    global _FN
    items = list(items)
    n = procs or min(8, os.cpu_count() or 1)
    if n <= 1 or len(items) < 2 * n:
        return [fn(x) for x in items]
    c = chunk or max(1, min(64, len(items) // (4 * n)))
    chunks = [items[i:i + c] for i in range(0, len(items), c)]
    _FN = fn
    gc.collect()
    gc.freeze()
    res = []
    with multiprocessing.get_context('fork').Pool(n) as pool:
        for k, r in pool.imap(_work, chunks):
            if k == 'broken':
                pool.terminate()
                raise Broken(r)
            res += r
    return res
