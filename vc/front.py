"""Runs the extractor on /repo's translation units and loads the result."""
import json, os, subprocess, sys, hashlib, glob, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('INNC_REPO', '/repo')


class Ty:
    __slots__ = ('s', 'c', 'const', 'e', 'bits', 'sg', 'n', 'ta', 'lam', 'rv', 'kind_')

    def __repr__(self): return '<%s>' % self.s


class Ast(dict):
    __slots__ = ()


class TU:
    pass


class Program:
    def __init__(self):
        self.fns = {}      # key -> (tu, record)
        self.decls = {}    # key -> decl record
        self.classes = {}
        self.tus = []

    def add(self, path, idx):
        d = json.load(open(path))
        tu = TU(); tu.idx = idx; tu.globals = d['globals']
        tu.types = []
        recs = d['types']
        for r in recs:
            t = Ty(); t.s = r['s']; t.c = r.get('c', 'other'); t.const = r.get('const', 0); t.bits = r.get('bits', 0); t.sg = r.get('sg', 0)
            t.n = r.get('n'); t.lam = ('L%d:%s' % (idx, r['lam'])) if 'lam' in r else None; t.rv = r.get('rv', 0); t.kind_ = None; t.e = None; t.ta = None
            tu.types.append(t)
        def fix(x):
            if isinstance(x, list): return [fix(y) for y in x]
            if isinstance(x, int): return tu.types[x]
            return x
        for t, r in zip(tu.types, recs):
            if 'e' in r: t.e = tu.types[r['e']]
            if 'ta' in r: t.ta = fix(r['ta'])
        self.tus.append(tu)
        def key(k): return k if '#' not in k and '@' not in k else 'T%d|%s' % (idx, k)
        def walk(x):
            if isinstance(x, dict):
                if 't' in x and isinstance(x['t'], int): x['t'] = tu.types[x['t']]
                for f in ('at', 'ct', 'rt', 'ft', 'base'):
                    if f in x and isinstance(x[f], int): x[f] = tu.types[x[f]]
                if 'fn' in x and isinstance(x['fn'], str): x['fn'] = key(x['fn'])
                if 'inh' in x: x['inh'] = key(x['inh'])
                if 'd' in x and isinstance(x['d'], int): x['d'] = (idx, x['d'])
                if 'lam' in x and isinstance(x['lam'], int): x['lam'] = 'L%d:%s' % (idx, x['lam'])
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        for k, r in d['decls'].items():
            r['ret'] = tu.types[r['ret']]; r['pt'] = [tu.types[i] for i in r['pt']]
            if 'ta' in r: r['ta'] = fix(r['ta'])
            if 'inh' in r: r['inh'] = key(r['inh'])
            if 'lam' in r: r['lam'] = 'L%d:%s' % (idx, r['lam'])
            if 'ct' in r: r['ct'] = tu.types[r['ct']]
            r['key'] = key(k)
            self.decls.setdefault(key(k), r)
        for k, r in d['fns'].items():
            kk = key(k)
            if kk in self.fns: continue
            walk(r); r['key'] = kk; r['tu'] = tu
            self.fns[kk] = r
        for g in d['globals'].values():
            g['t'] = tu.types[g['t']]; walk(g.get('v'))
        for n, c in d['classes'].items():
            if n in self.classes or not c: continue
            c['bases'] = [tu.types[i] for i in c['bases']]
            for f in c['fields']:
                f['t'] = tu.types[f['t']]
                if 'init' in f: walk(f['init'])
            c['virt'] = {s: (key(v) if v else None) for s, v in c['virt'].items()}
            self.classes[n] = c

    def index(self):
        self.byname = {}
        for k in self.fns: self.byname.setdefault(self.decls[k]['q'], []).append(k)
        self.lamfn = {}
        for k in self.fns:
            if 'lam' in self.decls[k] and self.decls[k]['n'] == 'operator()': self.lamfn.setdefault(self.decls[k]['lam'], []).append(k)
        self.size_t = next(t for tu in self.tus for t in tu.types if t.s == 'unsigned long')
        self.subs = {}
        for n, c in self.classes.items():
            for b in c['bases']: self.subs.setdefault(b.n, []).append(n)

    def subclasses(self, n):
        r = [n]
        for m in self.subs.get(n, []): r += self.subclasses(m)
        return r

    def is_sub(self, n, base):
        if n == base: return True
        c = self.classes.get(n)
        return bool(c) and any(self.is_sub(b.n, base) for b in c['bases'])


def plugin():
    src = os.path.join(VERIF, 'extract', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    bd = os.path.join(VERIF, 'build'); os.makedirs(bd, exist_ok=True)
    so = os.path.join(bd, 'extract-%s.so' % h)
    if not os.path.exists(so):
        tmp = so + '.%d' % os.getpid()
        subprocess.check_call(['g++', '-std=c++17', '-O1', '-fno-rtti', '-fPIC', '-shared', '-I/usr/lib/llvm-18/include', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp], stderr=subprocess.DEVNULL)
        os.replace(tmp, so)
    return so


class ExtractError(Exception):
    pass


def load(repo=None, work=None):
    repo = repo or REPO
    so = plugin()
    work = work or os.path.join('/tmp', 'innc-ext.%d' % os.getpid()); os.makedirs(work, exist_ok=True)
    srcs = sorted(glob.glob(repo + '/src/**/*.cpp', recursive=True))
    def one(a):
        i, s = a
        out = '%s/%d.json' % (work, i)
        arg = []
        for x in ('-root', repo + '/', '-out', out): arg += ['-Xclang', '-plugin-arg-innc-extract', '-Xclang', x]
        p = subprocess.run(['clang++-18', '-fsyntax-only', '-w', '-std=c++20', '-include', 'algorithm', '-I' + repo + '/include', '-Xclang', '-load', '-Xclang', so, '-Xclang', '-plugin', '-Xclang', 'innc-extract'] + arg + [s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode or not os.path.exists(out): raise ExtractError('%s: %s' % (s, p.stdout[-2000:]))
        return out
    try:
        with ThreadPoolExecutor(8) as ex: outs = list(ex.map(one, enumerate(srcs)))
        pr = Program()
        for i, o in enumerate(outs): pr.add(o, i)
        pr.index()
        pr.sources = srcs
        return pr
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    import time
    t = time.time(); p = load(); print(len(p.fns), len(p.classes), time.time() - t)
