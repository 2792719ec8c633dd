#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] | check.py --replay FILE"""
import os, sys, json, time, re, hashlib, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import driver as D, replay as R
import z3

VERIF = D.VERIF

def kfs(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop and k['status'] == 'open']

def main():
    if sys.argv[1] == '--replay':
        return do_replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    error = None
    try:
        results = D.verify_prop(prop, tier)
    except D.CompileError as e:
        results = []
        error = 'the contract or the code under contract does not compile: %s %s' % (e.args[0], e.args[1][-1500:])
    known = kfs(prop)
    viol = []      # (harness file, harness, obligation, record)
    printed = set()
    nob = ndis = 0
    # contracts whose lists, degrees or iterations are bounded: reported apart, never counted as proved
    bdefs = [(re.compile(m.group(1)) if m else re.compile('.*'), b[m.end():].strip() if m else b)
             for f in D.contract_files(prop) for b in D.parse_directives(f)['bounded'] for m in [re.match(r'\[in=(.*?)\]\s', b)]]
    bcount = {}
    methods = {}
    solver = 0.0
    fns, assume, bounded, replaced, kinds = set(), set(), [], set(), {}
    harn = []
    covers_bad = []
    def judge(r):
        """-> (failed obligations by name, number of obligations, discharged by method)"""
        fails, n, by = {}, 0, {}
        for o in r['obligations']:
            kf = next((k for k in known if k['harness'] == r['harness'] and k['obligation'] == o['name']), None)
            if kf is not None:
                if o['status'] != 'discharged' and kf['id'] not in printed:
                    printed.add(kf['id'])
                    print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
                continue
            n += 1
            if o['status'] == 'discharged':
                by[o['method']] = by.get(o['method'], 0) + 1
            else:
                fails.setdefault(o['name'], []).append(o)
        if not r['error']:
            iskf = any(k['harness'] == r['harness'] for k in known)
            if r['paths'] == 0 and not iskf:
                fails.setdefault('contract-not-vacuous', []).append({'detail': 'no path of the contract completes: the function never returns normally under the precondition', 'model': None, 'path': []})
            elif not r['obligations']:
                fails.setdefault('contract-not-vacuous', []).append({'detail': 'no obligation was generated', 'model': None, 'path': []})
            for c, ok in r['covers'].items():
                if ok is False:
                    fails.setdefault('cover:' + c, []).append({'detail': 'case is unreachable under the contract', 'model': None, 'path': []})
        return fails, n, by
    def account(r, n, by):
        nonlocal nob, ndis, solver
        bound = next((t for rx, t in bdefs if rx.fullmatch(r['harness'].replace('vfc_', '', 1))), None)
        if bound is not None:
            c = bcount.setdefault(bound, {'bound': bound, 'contracts': [], 'obligations': 0, 'discharged': 0})
            c['contracts'].append(r['harness']); c['obligations'] += n; c['discharged'] += sum(by.values())
        else:
            nob += n
        for k, v in by.items():
            methods[k] = methods.get(k, 0) + v
            if bound is None:
                ndis += v
        solver += sum(o['time'] for o in r['obligations'])
        fns.update(r['functions'])
        assume.update(r['assumptions'])
        for a, b in r['replaced']:
            replaced.add('%s -> %s' % (a, b))
        harn.append({'contract': r['harness'], 'paths': r['paths'], 'obligations': len(r['obligations']), 'wall_s': round(r['wall'], 2)})
    for r in results:
        fails, n, by = judge(r)
        if r['error'] or fails:
            viol.append((r, fails, n, by))
        else:
            account(r, n, by)
    out_lines = []
    nviol = 0
    rep = {}
    if error:
        rp = write_replay(prop, 'compile', {'property': prop, 'obligation': 'compiles', 'verifier_output': error})
        out_lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        nviol += 1
    exes = {}
    undecided = []
    secs = max(4, min(40, 160 / max(1, len(viol)))) if viol else 0
    found = {}
    def search(r, fails, secs):
        cf = os.path.join(VERIF, 'contracts', r['file'])
        if cf not in exes:
            exes[cf] = R.build(cf)
        if not exes[cf]:
            return None, []
        models = [o['model'] for os_ in fails.values() for o in os_ if o.get('model')]
        kfn = set(k['obligation'] for k in known if k['harness'] == r['harness'])
        acc = (lambda n: n not in kfn) if r['error'] else (lambda n: n in fails)
        return R.search(exes[cf], r['harness'], models, seed, secs, acc, 1e-3 if r['error'] and not fails else None)
    for r, fails, n, by in viol:
        found[r['harness']] = search(r, fails, secs)
    # no failing input: the solver may have run out of time, try again with larger limits
    again = [(os.path.join(VERIF, 'contracts', r['file']), r['harness']) for r, fails, n, by in viol if fails and not found[r['harness']][0]]
    if again and len(again) <= 16:
        second = {r['harness']: r for r in D.retry(again, 150 if len(again) <= 8 else 100)}
        for k, (r, fails, n, by) in enumerate(viol):
            r2 = second.get(r['harness'])
            if r2 is None:
                continue
            fails2, n2, by2 = judge(r2)
            if not r2['error'] and not fails2:
                viol[k] = (r2, fails2, n2, by2)
    for r, fails, n, by in viol:
        account(r, n, by)
        if not r['error'] and not fails:
            continue
        hit, stats = found[r['harness']]
        exe = exes.get(os.path.join(VERIF, 'contracts', r['file']))
        if r['error'] and not fails and not hit:
            ran = sum(int(l.split()[1]) for l in stats if len(l.split()) > 1 and l.split()[1].isdigit())
            if exe and ran >= 200:
                # the verifier could not finish this contract: bounded stand-in, never counted as proved
                undecided.append('%s: not decided by the verifier (%s); bounded stand-in: the contract held on %d sampled inputs' % (r['harness'], r['error'][:200], ran))
                print('contract %s: %s' % (r['harness'], undecided[-1]))
                continue
        rec = {'property': prop, 'contract': r['file'], 'harness': r['harness'],
               'failed_obligations': {n: [{'verifier_output': o['detail'], 'path_condition': o.get('path', []), 'model': o.get('model')} for o in os_[:3]] for n, os_ in fails.items()},
               'engine_error': r['error'], 'search': stats[:3], 'failing_input': hit}
        rp = write_replay(prop, r['harness'], rec)
        nviol += 1
        names = ', '.join(list(fails)[:4]) or ('verifier stopped: %s' % r['error'])
        print('contract %s: obligation not discharged: %s' % (r['harness'], names[:600]))
        if hit:
            print('  failing input (%s): %s' % (hit['obligation'], json.dumps(hit['inputs'])[:600]))
            print('  %s' % hit['detail'])
            out_lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
        else:
            out_lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    dirs = [D.parse_directives(f) for f in D.contract_files(prop)]
    for d in dirs:
        assume |= set(d['assume'])
    bounded = list(bcount.values())
    for b in bounded:
        assume.add('bounded contracts (%s): %s' % (', '.join(x.replace('vfc_', '', 1) for x in b['contracts'])[:300], b['bound']))
    nb, ndb = sum(b['obligations'] for b in bounded), sum(b['discharged'] for b in bounded)
    level = 'proof' if nob else 'other'
    assume |= {'machine arithmetic on doubles is treated as real arithmetic (rounding, overflow to infinity and NaN propagation are outside the contracts); equality of formulas is decided up to a relative 2e-11 on numeric constants',
               'arguments of sqrt, log and non-integer powers are assumed inside their domain where the code evaluates them',
               'clang 18 -O1 front end (LLVM IR) represents the source that gcc compiles'}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {'explanation': '%d obligations discharged for all inputs without bound; %d of %d obligations discharged for all real inputs but with bounded sizes of lists, degrees or iterations (see bounded), which are not counted as proved' % (ndis, ndb, nb),
                       'obligations': nob, 'discharged': ndis,
                       'checker_cmd': 'python3-vt /verif/check.py %s' % prop,
                       'trusted_base': ['vf (symbolic executor / verification-condition generator over LLVM IR, /verif/vf)', 'clang 18 front end and opt sroa/early-cse/simplifycfg', 'vf normal-form equality prover', 'z3 %s' % z3.get_version_string(), 'models of libm and the C++ runtime in vf/builtins.py'],
                       'back_ends': methods, 'solver_s': round(solver, 2),
                       'functions_under_contract': sorted(f[:200] for f in fns), 'contracts': harn,
                       'callees_replaced_by_contract': sorted(replaced), 'bounded': bounded + undecided,
                       'known_findings_reported': sorted(printed)},
          'assumptions': sorted(assume), 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    # lines with a failing input first
    out_lines.sort(key=lambda l: l.endswith('no-failing-input-found'))
    for l in out_lines:
        print(l)
    print('%s: %d of %d obligations discharged%s, %d contracts, %d functions, %.1f s' % (prop, ndis, nob, ', %d of %d with bounded sizes' % (ndb, nb) if nb else '', len(harn), len(fns), time.time() - t0))
    return 1 if nviol else 0

def write_replay(prop, name, rec):
    d = os.path.join(VERIF, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s_%s.json' % (prop, re.sub(r'\W', '_', name)))
    with open(p, 'w') as f:
        json.dump(rec, f, indent=1)
    return p

def do_replay(path):
    rec = json.load(open(path))
    hit = rec.get('failing_input')
    if not hit:
        print('no failing input recorded; failed obligations:')
        print(json.dumps(rec.get('failed_obligations', rec), indent=1)[:4000])
        return 1
    exe = R.build(os.path.join(VERIF, 'contracts', rec['contract']))
    tmp = path + '.in'
    with open(tmp, 'w') as f:
        for k, v in hit['inputs'].items():
            f.write('%s %s\n' % (k, v))
    r = subprocess.run([exe, 'replay', rec['harness'], tmp])
    os.unlink(tmp)
    return r.returncode

if __name__ == '__main__':
    sys.exit(main())
