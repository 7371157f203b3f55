#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current tree.

Every proof task of the property is regenerated from the current source (clang AST) and discharged by z3.
All obligations discharged: exit 0.  An obligation that fails: the replay oracle searches for an input on
the real code, and the check exits 1 with a VIOLATION line.  Code the verifier cannot read, or a solver
that runs out of resources, is decided by the bounded replay search alone, and labelled so."""
import json, multiprocessing as mp, os, signal, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vc import front, logic as L, exec as X, cands, oracle, registry
from vc.engine import Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))
PROG = TASKS = None
TASK_LIMIT = int(os.environ.get('VC_TASK_LIMIT', '240'))


class Late(Exception):
    pass


def run_task(i):
    t = TASKS[i]; t0 = time.time()
    r = dict(i=i, name=t.name, group=t.group, error=None, obligations=[], time=0.0, queries=0, solver=0.0, inlined=[], contracts=[], assumed=[], paths=0, normal=0)
    def late(*a): raise Late()
    signal.signal(signal.SIGALRM, late); signal.alarm(TASK_LIMIT)
    try:
        L.stats.__init__(); L.set_opaque(t.opaque)
        e = X.Engine(PROG, t.contracts, t.math, t.maxpaths, cands=cands.ALL); e.skip = t.key
        try: e.explore(t.fn)
        except Unsupported as ex: r['error'] = 'unsupported: %s' % ex
        except Late: r['error'] = 'time limit'
        except Exception as ex: r['error'] = 'engine: %s: %s %s' % (type(ex).__name__, ex, traceback.format_exc(limit=-3).replace('\n', ' | ')[-400:])
        signal.alarm(0)
        r['obligations'] = [dict(name=o, instances=e.obl[o]['n'], ok=e.obl[o]['ok'], why=sorted({str(w[0]) for w in e.obl[o]['why']})) for o in e.order]
        q = lambda k: PROG.decls[k]['q'] if k in PROG.decls else str(k)
        if not r['error'] and not e.live: r['error'] = 'vacuous: no path with satisfiable assumptions reaches the postcondition'
        r.update(queries=L.stats.queries, solver=L.stats.time, paths=e.paths, reached=sorted(e.reached), inlined=sorted({q(k) for k in e.inlined}), contracts=sorted({c.__class__.__name__ for c in e._c.values() if c is not None}), assumed=sorted(e.assumed),
                 loops=sum(1 for _ in e.loops))
    except Exception as ex: r['error'] = 'engine: %s: %s' % (type(ex).__name__, ex)
    finally: signal.alarm(0)
    r['time'] = time.time() - t0
    return r


def prove_all(prop, tier, budget, log):
    global PROG, TASKS
    t0 = time.time()
    PROG = front.load(); TASKS = registry.tasks_for(PROG, prop, tier)
    log('extracted %d functions from %d translation units in %.1f s; %d proof tasks' % (len(PROG.fns), len(PROG.sources), time.time() - t0, len(TASKS)))
    res = [None] * len(TASKS)
    with mp.get_context('fork').Pool(8, maxtasksperchild=20) as pool:
        pend = [(i, pool.apply_async(run_task, (i,))) for i in range(len(TASKS))]
        for i, a in pend:
            left = budget - (time.time() - t0)
            try: res[i] = a.get(timeout=max(1.0, left))
            except mp.TimeoutError: res[i] = dict(i=i, name=TASKS[i].name, group=TASKS[i].group, error='time budget of the check used up', obligations=[], time=0, queries=0, solver=0, inlined=[], contracts=[], assumed=[], paths=0)
            except Exception as ex: res[i] = dict(i=i, name=TASKS[i].name, group=TASKS[i].group, error='worker: %r' % (ex,), obligations=[], time=0, queries=0, solver=0, inlined=[], contracts=[], assumed=[], paths=0)
        pool.terminate()
    return res


def main():
    if sys.argv[1] == '--setup': front.load(); print(oracle.build()); return
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    def log(s): print('[%5.1f] %s' % (time.time() - t0, s), flush=True)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    exe = {}
    def bld():
        try: exe['p'] = oracle.build()
        except Exception as ex: exe['e'] = str(ex)
    th = threading.Thread(target=bld); th.start()
    results = []; xerr = None
    # the extractor and the proofs run in a child, so that nothing they do can end the check
    rq, wq = mp.Pipe(False)
    def child():
        try:
            rs = prove_all(prop, tier, 560 if tier == 'quick' else 3600, log); wq.send(('ok', rs))
        except BaseException as ex: wq.send(('err', '%s: %s' % (type(ex).__name__, str(ex)[-1500:])))
    pr = mp.get_context('fork').Process(target=child); pr.start(); wq.close()
    try:
        tag, val = rq.recv()
        if tag == 'ok': results = val
        else: xerr = val
    except EOFError: xerr = 'the proof process ended without a result'
    pr.join(10)
    failed, undecided = [], []
    for r in results:
        bad = [o for o in r['obligations'] if not o['ok']]
        hard = [o for o in bad if not all(('canceled' in w or 'resource' in w or 'timeout' in w or 'rlimit' in w) for w in o['why'])]
        if r['error']: undecided.append((r['name'], r['error']))
        elif hard: failed += [(r['name'], o) for o in hard]
        elif bad: undecided.append((r['name'], 'solver resources: ' + bad[0]['name']))
        elif not r['obligations']: undecided.append((r['name'], 'no obligations were generated'))
    nob = sum(len(r['obligations']) for r in results); ndis = sum(1 for r in results for o in r['obligations'] if o['ok'])
    log('%d tasks, %d obligations, %d discharged, %d failed, %d tasks undecided' % (len(results), nob, ndis, len(failed), len(undecided)))
    if xerr: log('extraction or proof generation stopped: ' + xerr)
    for n, e in undecided[:12]: log('undecided: %s: %s' % (n, e))
    for n, o in failed[:12]: log('FAILED OBLIGATION %s: %s (%s)' % (n, o['name'], ', '.join(o['why'])))
    th.join()
    total, budget = (200000, 20) if tier == 'quick' else (4000000, 900)
    incomplete = bool(undecided or xerr or failed)
    if incomplete: budget = 120 if tier == 'quick' else 1500; total *= 5
    ores = dict(run=0, fail=None, cmd=None, err=exe.get('e'))
    if 'p' in exe:
        ores = oracle.search(exe['p'], prop, seed, total, 400, budget)
        log('bounded replay search: %d generated cases%s' % (ores['run'], '; a case FAILS' if ores['fail'] else ''))
    else: log('replay oracle not built: ' + exe.get('e', '')[-600:])
    if xerr and 'p' not in exe: print('check error: neither the proofs nor the replay could be built'); sys.exit(2)
    viol = None
    if ores['fail']:
        viol = 'VIOLATION property=%s replay=%s' % (prop, write_replay(prop, failed, ores, undecided))
    elif failed:
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, write_replay(prop, failed, ores, undecided))
    evidence(prop, tier, seed, results, failed, undecided, xerr, ores, nob, ndis, time.time() - t0, 1 if viol else 0)
    for k in known(prop): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if viol: print(viol, flush=True); sys.exit(1)
    log('property %s: %s' % (prop, 'every obligation discharged' if not incomplete else 'not every obligation could be decided; the bounded search found no violation'))
    sys.exit(0)


def known(prop):
    out = []
    try:
        for l in open(HERE + '/KNOWN_FINDINGS.txt'):
            if l.startswith('known: property=%s ' % prop): out.append(l.split(' ', 2)[2].strip())
    except OSError: pass
    return out


def write_replay(prop, failed, ores, undecided):
    p = HERE + '/evidence/replay-%s.txt' % prop
    with open(p, 'w') as f:
        if failed:
            f.write('failed obligations (proof task: obligation: solver answer)\n')
            for n, o in failed: f.write('  %s: %s: %s\n' % (n, o['name'], ', '.join(o['why'])))
        for n, e in undecided: f.write('undecided: %s: %s\n' % (n, e))
        if ores['fail']:
            f.write('\nfailing input on the real code (rerun: %s)\n%s\n' % (ores['cmd'], ores['fail']))
        elif failed: f.write('\nno failing input was found in %d generated programs\n' % ores['run'])
    return p


TRUSTED = ['clang 18 front end and the AST extraction plugin (/verif/extract)', 'symbolic semantics of the C++ subset (/verif/vc/engine.py, exec.py)', 'contracts of the C++ standard library (/verif/vc/builtins_.py)', 'z3 4.13 and the lemma instantiation of /verif/vc/logic.py']


def evidence(prop, tier, seed, results, failed, undecided, xerr, ores, nob, ndis, wall, nv):
    meta = json.load(open(HERE + '/MANIFEST.json')) if os.path.exists(HERE + '/MANIFEST.json') else {'checks': []}
    level = next((c['level'] for c in meta['checks'] if c['property'] == prop), 'proof')
    groups = {}
    for r in results:
        g = groups.setdefault(r['group'], dict(tasks=0, proved=0, obligations=0, discharged=0, queries=0, solver_s=0.0))
        g['tasks'] += 1; g['proved'] += not r['error'] and bool(r['obligations']) and all(o['ok'] for o in r['obligations'])
        g['obligations'] += len(r['obligations']); g['discharged'] += sum(o['ok'] for o in r['obligations']); g['queries'] += r['queries']; g['solver_s'] = round(g['solver_s'] + r['solver'], 2)
    fns = sorted({f for r in results for f in r['inlined']})
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(wall, 1), violations=nv,
              coverage=dict(obligations=nob, discharged=ndis, checker_cmd='python check.py %s %s' % (prop, tier), trusted_base=TRUSTED,
                            proof_tasks=len(results), proof_groups=groups, functions_under_contract=sorted({c for r in results for c in r['contracts']}), functions_verified_from_source=fns,
                            back_end='z3 (python API), ground lemma instantiation', solver_time_s=round(sum(r['solver'] for r in results), 1),
                            failed_obligations=['%s: %s' % (n, o['name']) for n, o in failed][:50], undecided=['%s: %s' % u for u in undecided][:50], extraction_error=xerr,
                            obligation_samples=[dict(task=r['name'], obligations=[o['name'] for o in r['obligations']][:6]) for r in results[:3]],
                            bounded_replay=dict(label='bounded: random programs against an independent executable semantics, sanitizers on', cases=ores['run']),
                            **(dict(explanation='Deductive proof of the functions listed (obligations discharged by z3, all inputs), and for the rest of the property a bounded random replay of the real code against an independent executable semantics.') if level == 'other' else {})),
              assumptions=sorted({a for r in results for a in r['assumed']} | set(registry.ASSUME)))
    json.dump(ev, open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)


if __name__ == '__main__':
    try: main()
    except SystemExit: raise
    except BaseException as ex:
        traceback.print_exc(); print('check error: nothing decided'); sys.exit(2)
