import sys, time, traceback, pickle
sys.path.insert(0, '/verif')
import z3
from vc import front, logic as L, exec as X, cands
from vc.engine import *


def run_task(p, t, verbose=1):
    t0 = time.time(); L.stats.__init__()
    e = X.Engine(p, t.contracts, t.math, t.maxpaths, cands=cands.ALL); e.skip = t.key; L.set_opaque(t.opaque)
    err = None
    try: e.explore(t.fn)
    except Exception as ex: err = '%s: %s' % (type(ex).__name__, ex); tb = traceback.format_exc(limit=-5)
    nf = [o for o in e.order if not e.obl[o]['ok']]
    print('%-50s %s paths=%d restarts=%d obl=%d fail=%d %.1fs q=%d max=%.1f' % (t.name, err or '', e.paths, e.restarts, len(e.order), len(nf), time.time() - t0, L.stats.queries, L.stats.max), flush=True)
    if err and verbose: print(tb)
    if nf or verbose > 1:
        for o in e.order:
            r = e.obl[o]
            if verbose > 1 or not r['ok']: print('   ', 'ok ' if r['ok'] else 'FAIL', o, r['n'], [w[0] for w in r['why']][:2])
    if verbose > 1 or (nf and verbose):
        for l, c in e.loops.items(): print('   loop', l[-1] if len(l) else '', len(c), c[:30])
    return e
