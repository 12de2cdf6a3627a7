import multiprocessing as mp, os
_work = None


def _call(i):
    return _work[0](_work[1][i])


def pmap(f, items, n=None):
    """Forked map; f may close over anything."""
    global _work
    items = list(items)
    if len(items) < 4 or os.environ.get('VERIF_NOFORK'):
        return [f(x) for x in items]
    _work = (f, items)
    ctx = mp.get_context('fork')
    with ctx.Pool(n or 8) as p:
        r = p.map(_call, range(len(items)), chunksize=1)
    _work = None
    return r
