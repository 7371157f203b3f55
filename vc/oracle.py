"""Builds the replay oracle (real sources of /repo + replay/oracle.cpp, sanitizers on) and runs it."""
import glob, hashlib, os, subprocess, shutil, time, threading
from concurrent.futures import ThreadPoolExecutor
from .front import VERIF, REPO

CXX = ['g++', '-std=c++20', '-O1', '-g1', '-include', 'algorithm', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-access-control']


def key(repo):
    h = hashlib.sha256()
    for f in sorted(glob.glob(repo + '/src/**/*', recursive=True) + glob.glob(repo + '/include/**/*', recursive=True)) + [VERIF + '/replay/oracle.cpp']:
        if os.path.isfile(f): h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def build(repo=REPO):
    bd = os.path.join(VERIF, 'build'); os.makedirs(bd, exist_ok=True)
    exe = os.path.join(bd, 'oracle-' + key(repo))
    if os.path.exists(exe): return exe
    tmp = exe + '.d%d' % os.getpid(); os.makedirs(tmp, exist_ok=True)
    try:
        srcs = sorted(glob.glob(repo + '/src/**/*.cpp', recursive=True)) + [VERIF + '/replay/oracle.cpp']
        def one(a):
            i, s = a; o = '%s/o%d.o' % (tmp, i)
            p = subprocess.run(CXX + ['-I' + repo + '/include', '-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode: raise BuildError('%s: %s' % (s, p.stdout[-1500:]))
            return o
        # largest first
        order = sorted(enumerate(srcs), key=lambda a: -os.path.getsize(a[1]))
        with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, order))
        p = subprocess.run(['g++', '-fsanitize=address,undefined', '-o', tmp + '/oracle'] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise BuildError(p.stdout[-1500:])
        os.replace(tmp + '/oracle', exe)
        old = sorted(glob.glob(bd + '/oracle-*'), key=os.path.getmtime)
        for f in old[:-3]:
            if os.path.isfile(f): os.unlink(f)
        return exe
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def search(exe, prop, seed, total, chunk, budget, workers=8):
    """runs `total` generated cases of `prop`; returns (cases run, failure text or None, sample text)"""
    t0 = time.time(); nxt = [0]; lock = threading.Lock(); res = dict(run=0, fail=None, cmd=None, err=None)

    def work():
        while True:
            with lock:
                if res['fail'] or nxt[0] >= total or time.time() - t0 > budget: return
                a = nxt[0]; nxt[0] += chunk
            n = min(chunk, total - a)
            cmd = [exe, prop, str(seed), str(a), str(n)]
            try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=max(60, budget), env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1'))
            except subprocess.TimeoutExpired as ex:
                with lock: res['err'] = 'time limit on ' + ' '.join(cmd)
                return
            with lock:
                if p.returncode == 0: res['run'] += n
                elif not res['fail']: res['fail'] = p.stdout[-6000:]; res['cmd'] = ' '.join(cmd)
    ths = [threading.Thread(target=work) for _ in range(workers)]
    for t in ths: t.start()
    for t in ths: t.join()
    return res
