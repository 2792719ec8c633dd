"""Runs the contracts of one property: compile, verify, replay, report."""
import os, sys, re, json, time, hashlib, subprocess, glob, traceback, multiprocessing, fcntl, random
from concurrent.futures import ThreadPoolExecutor

from . import exec as _exec

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
SRC = REPO + '/src/PROPOSAL/detail/PROPOSAL/'
CACHE = os.environ.get('VF_CACHE', os.path.join(VERIF, '.cache'))
CLANG = 'clang++'
OPT = '/usr/lib/llvm-18/bin/opt'
FLAGS = ['-std=c++14', '-DNDEBUG', '-O1', '-Xclang', '-disable-llvm-passes', '-frounding-math', '-ffp-contract=off',
         '-fno-access-control', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DSPDLOG_COMPILED_LIB', '-DSPDLOG_SHARED_LIB', '-DSPDLOG_FMT_EXTERNAL', '-DFMT_SHARED', '-w', '-fno-discard-value-names', '-fmacro-prefix-map=%s=/repo' % REPO]

def incs():
    # generated version.h lives in the build tree; make our own copy from the template so that
    # checks do not depend on the build directory
    inc = [VERIF + '/contracts/stubs', REPO + '/src/PROPOSAL', VERIF + '/contracts']
    b = REPO + '/_build'
    if os.path.exists(b + '/PROPOSAL/version.h'):
        inc.append(b)
    else:
        inc.append(VERIF + '/contracts/fallback')
    return ['-I' + i for i in inc]

_hh = None
def header_hash():
    global _hh
    if _hh is None:
        h = hashlib.sha256()
        files = []
        for root in (REPO + '/src/PROPOSAL/PROPOSAL', VERIF + '/contracts/stubs'):
            for d, _, fs in os.walk(root):
                files += [os.path.join(d, f) for f in fs]
        for f in sorted(files) + [VERIF + '/contracts/vf.h'] + sorted(glob.glob(VERIF + '/contracts/*.hpp')):
            h.update(f.encode())
            h.update(open(f, 'rb').read())
        _hh = h.hexdigest()
    return _hh

def compile_ir(path):
    """source -> .ll (cached by content)"""
    data = open(path, 'rb').read()
    # a source may include other .cxx/.h files next to it
    extra = b''
    for inc in re.findall(rb'#include\s+"([^"]+)"', data):
        q = os.path.join(os.path.dirname(path), inc.decode())
        if os.path.exists(q):
            extra += open(q, 'rb').read()
    key = hashlib.sha256((path + header_hash() + ' '.join(FLAGS)).encode() + data + extra).hexdigest()[:24]
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, key + '.ll')
    if os.path.exists(out):
        return out
    lock = open(out + '.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(out):
            return out
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run([CLANG] + FLAGS + incs() + ['-S', '-emit-llvm', path, '-o', tmp + '.raw'], capture_output=True, text=True)
        if r.returncode:
            raise CompileError(path, r.stderr[-3000:])
        r = subprocess.run([OPT, '-S', '-passes=function(sroa,early-cse,simplifycfg)', tmp + '.raw', '-o', tmp], capture_output=True, text=True)
        if r.returncode:
            raise CompileError(path, r.stderr[-3000:])
        os.unlink(tmp + '.raw')
        os.rename(tmp, out)
        return out
    finally:
        try:
            os.unlink(out + '.lock')
        except OSError:
            pass
        lock.close()

class CompileError(Exception):
    pass

_srcs = None
def all_sources():
    global _srcs
    if _srcs is None:
        _srcs = []
        for d, _, fs in os.walk(SRC):
            for f in sorted(fs):
                if f.endswith('.cxx'):
                    p = os.path.join(d, f)
                    _srcs.append((p, open(p, errors='replace').read()))
    return _srcs

def make_loader(eng):
    tried = set()
    def loader(sym):
        d = eng.demangled.get(sym)
        if d is None:
            d = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt', sym], capture_output=True, text=True).stdout.strip()
        if 'PROPOSAL' not in d:
            p = VERIF + '/contracts/support/stdinst.cpp'
            if 'basic_string<char' in d and p not in tried:
                tried.add(p)
                eng.load(compile_ir(p), p)
                return True
            return False
        from .exec import strip_ret
        x = re.sub(r'^(?:vtable for |typeinfo for |typeinfo name for |guard variable for )', '', d)
        x = strip_ret(x)
        x = re.sub(r'<[^()]*>', '', x.split('(')[0].replace('[abi:cxx11]', '')) if '(' in x or '<' in x else x
        parts = x.split('::')
        cands = []
        if len(parts) >= 3:
            cands.append(re.compile(re.escape(parts[-2]) + r'\s*::\s*' + re.escape(parts[-1]) + r'\b'))
        cands.append(re.compile(r'\b' + re.escape(parts[-1]) + r'\b'))
        cands.append(re.compile(r'\b' + re.escape(parts[-1]) + r'::'))
        loaded = set(m.name for m in eng.modules)
        for rx in cands:
            ms = [(len(rx.findall(t)), p) for p, t in all_sources() if rx.search(t)]
            ms.sort(key=lambda z: -z[0])
            for _, p in ms[:12]:
                if p in loaded or (p in tried):
                    continue
                try:
                    ll = compile_ir(p)
                except CompileError:
                    tried.add(p)
                    continue
                txt = open(ll).read()
                if re.search(r'^define [^@]*@"?%s"?\(' % re.escape(sym), txt, re.M) or re.search(r'^@"?%s"? = (?!external)' % re.escape(sym), txt, re.M):
                    eng.load(ll, p)
                    return True
        return False
    return loader

DEFAULT_REPLACE = [
    (r'^PROPOSAL::Integral::Integrate\(', 'BUILTIN:vfr_integrate'),
]

def parse_directives(path):
    t = open(path).read()
    d = {'ideal_hash': 'VF-IDEAL-HASH' in t, 'sources': [], 'replace': [], 'nodefault': 'VF-NODEFAULT' in t, 'bounded': [], 'assume': [], 'harness': []}
    for m in re.finditer(r'//\s*VF-SOURCES:\s*(.*)', t):
        d['sources'] += m.group(1).split()
    for m in re.finditer(r'//\s*VF-REPLACE:\s*(.*?)\s*=>\s*(\S+)', t):
        only = re.match(r'\s*\[in=([^\]]+)\]', t[m.end():].split('\n')[0])
        d['replace'].append((m.group(1), m.group(2), only and only.group(1)))
    for m in re.finditer(r'//\s*VF-BOUNDED:\s*(.*)', t):
        d['bounded'].append(m.group(1).strip())
    for m in re.finditer(r'//\s*VF-ASSUME:\s*(.*)', t):
        d['assume'].append(m.group(1).strip())
    for m in re.finditer(r'VF_CONTRACT\((\w+)\)', t):
        d['harness'].append('vfc_' + m.group(1))
    return d

def contract_files(prop):
    return sorted(glob.glob(VERIF + '/contracts/%s_*.cpp' % prop) + glob.glob(VERIF + '/contracts/%s.cpp' % prop))

def build_engine(cfile, harness=None, opts=None):
    from .exec import Engine, BUILTIN
    d = parse_directives(cfile)
    paths = [cfile] + [SRC + s for s in d['sources']]
    with ThreadPoolExecutor(8) as ex:
        lls = list(ex.map(compile_ir, paths))
    eng = Engine(opts)
    eng.ideal_hash = d['ideal_hash']
    for p, ll in zip(paths, lls):
        eng.load(ll, p)
    reps = [(rx, t) for rx, t, only in d['replace'] if not only or harness is None or re.search(only, harness)]
    if not d['nodefault']:
        reps += DEFAULT_REPLACE
    for rx, tgt in reps:
        if tgt.startswith('BUILTIN:'):
            tgt = BUILTIN[tgt[8:]]
        eng.replace_pat.append((re.compile(rx), tgt))
    eng.loader = make_loader(eng)
    return eng, d

def run_one(args):
    cfile, h, budget, maxpaths = args
    t0 = time.time()
    eng = ENG[cfile][0]
    eng.deadline = time.time() + budget
    res = {'file': os.path.basename(cfile), 'harness': h, 'error': None}
    try:
        r = eng.run_harness(h)
        res['paths'] = r['paths']
    except Exception as e:
        res['paths'] = 1
        if not (eng.nfail and type(e).__name__ in ('EnoughFailures', 'Budget')):
            res['error'] = '%s: %s' % (type(e).__name__, e)
            res['trace'] = traceback.format_exc()[-3000:] + '\n'.join(getattr(e, 'at', []) + getattr(e, 'path', []))
            res['paths'] = 0
    res['obligations'] = [{'name': o.name, 'status': o.status, 'method': o.method, 'time': round(o.time, 4), 'kind': o.kind,
                           'detail': str(o.detail)[:3000], 'path': [str(x)[:400] for x in o.path[:40]], 'model': o.model} for o in eng.obligations]
    res['functions'] = sorted(eng.demangled.get(f, f) for f in eng.calls_seen if f.startswith('_Z') and 'PROPOSAL' in f)
    res['assumptions'] = sorted(eng.assumptions)
    # covers
    cov = {}
    from .norm import Ctx
    for (hh, n), fl in eng.covers.items():
        ok = None
        for facts in fl[:6]:
            c = Ctx(eng.table)
            for f in facts:
                c.assume(f)
            if not c.infeasible(2000):
                ok = True
                break
            ok = False
        cov[n] = ok
    res['covers'] = cov
    res['replaced'] = sorted(set((eng.demangled.get(k, k)[:160], v if isinstance(v, str) else 'builtin contract') for k, v in eng.replace.items() if v))
    res['wall'] = time.time() - t0
    return res

ENG = {}

def _build(cfile):
    return cfile, build_engine(cfile)

def verify_prop(prop, tier='quick', only=None, jobs=8, budget=None):
    files = contract_files(prop)
    # compile everything first, in parallel
    paths = []
    for f in files:
        d = parse_directives(f)
        paths.append(f)
        paths += [SRC + s for s in d['sources']]
    paths = list(dict.fromkeys(paths))
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(compile_ir, paths))
    tasks = []
    budget = budget or (300 if tier == 'quick' else 1500)
    results = []
    procs = []
    ctx = multiprocessing.get_context('fork')
    q = []
    for f in files:
        d = parse_directives(f)
        for h in d['harness']:
            if only and not re.search(only, h):
                continue
            tasks.append((f, h, budget, 0))
    if not tasks:
        raise RuntimeError('no contracts for ' + prop)
    # one process per task; engine built in the child from cached IR
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        results = pool.map(task_main, tasks, chunksize=1)
    return results

RETRY = {'eq_timeout': 20000, 'assert_timeout': 25000, 'feas_timeout': 2000}

def retry(tasks, budget=150, jobs=8):
    """second attempt at contracts whose obligations failed without a failing input: solver limits far above the first ones"""
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        return pool.map(task_retry, [(f, h, budget, 0) for f, h in tasks], chunksize=1)

def task_retry(t):
    return task_main(t, RETRY)

def task_main(t, opts=None):
    try:
        ENG[t[0]] = build_engine(t[0], t[1], opts)
    except Exception as e:
        return {'file': os.path.basename(t[0]), 'harness': t[1], 'error': '%s: %s' % (type(e).__name__, str(e)[:2000]), 'trace': traceback.format_exc()[-2000:], 'obligations': [],
                'functions': [], 'assumptions': [], 'covers': {}, 'paths': 0, 'replaced': [], 'wall': 0.0}
    return run_one(t)

if __name__ == '__main__':
    prop = sys.argv[1]
    args_ = [a for a in sys.argv[2:] if a[0] != '-']
    only = args_[0] if args_ else None
    t0 = time.time()
    rs = verify_prop(prop, only=only)
    for r in rs:
        ob = r['obligations']
        bad = [o for o in ob if o['status'] != 'discharged']
        print('%-50s paths=%-4d obligations=%-4d failed=%-3d wall=%.1f %s' % (r['harness'], r['paths'], len(ob), len(bad), r['wall'], 'ERROR ' + r['error'] if r['error'] else ''))
        if r['error'] and '-v' in sys.argv:
            print(r['trace'])
        for o in bad[:6]:
            print('    FAILED %s: %s' % (o['name'], o['detail'][:1500]))
            if '-v' in sys.argv:
                for p in o['path']:
                    print('         |', p)
        for c, v in r['covers'].items():
            if v is False:
                print('    COVER unreachable', c)
    print('total %.1f' % (time.time() - t0))
