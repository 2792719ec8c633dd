#!/usr/bin/env python3
"""Plants the bugs of tools/seeds/*.py in a scratch copy (/tmp/r), confirms them and writes /verif/seeded/<id>/.
usage: mkseed.py ID-REGEX"""
import sys, re, os, subprocess, json, glob, shutil, textwrap
V = '/verif'; R = '/tmp/r'; P = 'src/PROPOSAL/detail/PROPOSAL/'; H = 'src/PROPOSAL/PROPOSAL/'
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)
DEMO_SH = '''#!/bin/bash
# exit 0 if the behaviour is right, nonzero if it is broken; run in the repository after the build
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -I"$PWD/src/PROPOSAL" -I"$PWD/_build" "$here/demo.cpp" "$PWD/_build/libPROPOSAL.a" -lspdlog -lfmt -lpthread -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 120 ./demo
'''
PRE = '''#include <cmath>
#include <cstdio>
#include <iostream>
static int bad = 0;
static void near(double got, double want, const char* what, double rel = 1e-6) {
    double s = std::max(std::fabs(want), 1e-300);
    if (!(std::fabs(got - want) <= rel * s)) { std::printf("%s: got %.12g, expected %.12g\\n", what, got, want); bad = 1; }
}
static void check(bool ok, const char* what) { if (!ok) { std::printf("%s\\n", what); bad = 1; } }
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def sync():
    sh('cd %s && git checkout -q -- . ; rsync -a --exclude _build --exclude .git /repo/ %s/; rsync -a --delete /repo/.git/ %s/.git/' % (R, R, R))
def build():
    r = sh('ninja -C %s/_build 2>&1 | tail -30' % R); return r.stdout
def demo(d):
    r = sh('bash %s/demo.sh' % d, cwd=R, timeout=300); return r.returncode, (r.stdout + r.stderr)[-600:]
def main():
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')): exec(open(f).read(), globals())
    ids = [i for i in SEEDS if re.fullmatch(sys.argv[1], i)]
    sync(); build()
    for i in ids:
        s = SEEDS[i]; d = '%s/seeded/%s' % (V, i); t = '/tmp/seed_' + i
        shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        open(t + '/demo.sh', 'w').write(DEMO_SH)
        open(t + '/demo.cpp', 'w').write(PRE + s['demo'].strip() + '\n')
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(t + '/meta.json', 'w'), indent=1)
        rc, out = demo(t)
        if rc: print(i, 'demo fails on clean tree', rc, out); continue
        ok = True
        for fn, a, b in s['edits']:
            fn2 = R + '/' + (P + fn if os.path.exists(R + '/' + P + fn) else H + fn)
            x = open(fn2).read()
            if x.count(a) != 1: print(i, fn, 'occurrences', x.count(a)); ok = False; break
            open(fn2, 'w').write(x.replace(a, b))
        if ok:
            open(t + '/patch.diff', 'w').write(sh('git diff', cwd=R).stdout)
            o = build()
            if 'FAILED' in o or 'error:' in o: print(i, 'does not build', o[-800:]); ok = False
        if ok:
            rc, out = demo(t)
            r = sh('rm -f _build/Interpol*_Save.txt*; ctest --test-dir _build -j1 --timeout 300', cwd=R)
            failed = [x for x in re.findall(r'\d+ - (\S+) \((?:Failed|SEGFAULT|Subprocess aborted|Timeout)', r.stdout) if x in base]
            if rc == 0: print(i, 'demo does not notice'); ok = False
            if failed: print(i, 'existing tests fail', failed[:4]); ok = False
            if ok:
                shutil.rmtree(d, ignore_errors=True); shutil.copytree(t, d); print(i, 'kept;', out.strip()[:160])
        shutil.rmtree(t, ignore_errors=True)
        sh('git checkout -q -- .', cwd=R)
    build()
main()
