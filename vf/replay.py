"""Native replay: compiles a contract against the real code and searches / replays inputs."""
import os, subprocess, hashlib, json, shutil, time
from concurrent.futures import ThreadPoolExecutor
from . import driver as D

NFLAGS = ['-std=c++14', '-O1', '-DNDEBUG', '-ffp-contract=off', '-fno-access-control', '-w', '-fPIC', '-DSPDLOG_COMPILED_LIB', '-DSPDLOG_SHARED_LIB', '-DSPDLOG_FMT_EXTERNAL', '-DFMT_SHARED']

def obj(path, extra=()):
    data = open(path, 'rb').read()
    key = hashlib.sha256((path + D.header_hash() + ' '.join(NFLAGS)).encode() + data).hexdigest()[:24]
    d = os.path.join(D.CACHE, 'native')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, key + '.o')
    if os.path.exists(out):
        return out
    tmp = out + '.%d' % os.getpid()
    r = subprocess.run([D.CLANG] + NFLAGS + D.incs() + list(extra) + ['-c', path, '-o', tmp], capture_output=True, text=True)
    if r.returncode:
        return None
    os.rename(tmp, out)
    return out

def build(cfile):
    srcs = [p for p, _ in D.all_sources()]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(obj, [cfile, D.HERE + '/native/vf_native.cpp'] + srcs))
    if objs[0] is None or objs[1] is None:
        return None
    main, lib = objs[:2], [o for o in objs[2:] if o]
    h = hashlib.sha256(' '.join(objs[0:2] + lib).encode()).hexdigest()[:24]
    exe = os.path.join(D.CACHE, 'native', h + '.exe')
    if os.path.exists(exe):
        return exe
    ar = exe + '.a'
    if os.path.exists(ar):
        os.unlink(ar)
    subprocess.run(['ar', 'crs', ar] + lib, check=True)
    r = subprocess.run([D.CLANG, '-o', exe + '.tmp'] + main + [ar, '-rdynamic', '-Wl,--unresolved-symbols=ignore-all', '-lspdlog', '-lfmt', '-ldl', '-lpthread'], capture_output=True, text=True)
    if r.returncode:
        print('replay link failed', r.stderr[-500:])
        return None
    os.rename(exe + '.tmp', exe)
    os.unlink(ar)
    return exe

def parse(out):
    res = []
    cur = None
    for l in out.split('\n'):
        f = l.split('\t')
        if f[0] in ('FAIL', 'UNSTABLE') and len(f) >= 3:
            cur = {'stable': f[0] == 'FAIL', 'obligation': f[1], 'detail': f[2], 'inputs': {}}
        elif f[0] == 'I' and cur is not None:
            cur['inputs'][f[1]] = int(f[2])
        elif f[0] == 'R' and cur is not None:
            cur['inputs'][f[1]] = f[2]
        elif f[0] == 'END' and cur is not None:
            res.append(cur)
            cur = None
    return res

def search(exe, harness, models, seed, secs, accept, tol=None):
    """accept(obligation name) -> bool.  returns best failing input or None, and statistics"""
    work = os.path.join(D.CACHE, 'run%d_%s' % (os.getpid(), harness))
    os.makedirs(work, exist_ok=True)
    env = dict(os.environ)
    if tol:
        env['VF_TOL'] = str(tol)
    try:
        files = []
        for i, m in enumerate(models[:24]):
            p = os.path.join(work, 'm%d' % i)
            with open(p, 'w') as f:
                for k, v in m.items():
                    f.write('%s %s\n' % (k, float(v).hex() if not isinstance(v, int) else v))
            files.append(p)
        def go(k):
            try:
                r = subprocess.run([exe, 'search', harness, str(seed * 64 + k), str(secs)] + (files if k == 0 else []),
                                   capture_output=True, text=True, errors='replace', cwd=work, env=env, timeout=secs + 60)
                return r.stdout
            except subprocess.TimeoutExpired as e:
                return (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(go, range(8)))
        found = []
        stats = []
        for o in outs:
            found += [x for x in parse(o) if accept(x['obligation'])]
            stats += [l for l in o.split('\n') if l.startswith('NONE')]
        found.sort(key=lambda x: (not x['stable'],))
        return (found[0] if found else None), stats
    finally:
        shutil.rmtree(work, ignore_errors=True)
