#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current tree."""
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time

if os.environ.get('PYTHONHASHSEED') != '0':
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from e57v import build, unit, trusted  # noqa: E402
from e57v.ir import Module  # noqa: E402


def native(tree, name, seed, ms, timeout, replay=None):
    """run a native harness; -> dict(status ok|fail|error, ...)"""
    try:
        exe = tree.harness(name)
    except build.BuildError as x:
        return {'status': 'error', 'out': 'harness does not build: ' + str(x)[-1500:]}
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=3000',
               UBSAN_OPTIONS='print_stacktrace=1:exitcode=77', TMPDIR='/tmp')
    args = [exe, str(seed), str(ms)] if replay is None else [exe, 'case', replay]
    try:
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
        out, code = p.stdout.decode(errors='replace'), p.returncode
    except subprocess.TimeoutExpired as x:
        out, code = (x.stdout or b'').decode(errors='replace'), 'timeout'
    r = {'exe': exe, 'args': args[1:], 'out': out[-6000:], 'code': code, 'cases': 0, 'distinct': 0, 'samples': [], 'case': None}
    for ln in out.splitlines():
        if ln.startswith('CASES '):
            f = ln.split()
            r['cases'], r['distinct'] = int(f[1]), int(f[3])
        elif ln.startswith('SAMPLE '):
            r['samples'].append(ln[7:])
        elif ln.startswith('CASE '):
            r['case'] = ln[5:]
    if code == 0:
        r['status'] = 'ok'
    elif code == 'timeout':
        r['status'] = 'fail' if r['case'] and 'HANG' in out else 'error'
    elif 'FAIL' in out or code == 77 or (isinstance(code, int) and code < 0):
        r['status'] = 'fail'
    else:
        r['status'] = 'error'
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--unit', default=None)
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    P = importlib.import_module('e57v.units.' + a.property.lower())
    tree = build.Tree()
    units = [u for u in P.UNITS if (tier == 'thorough' or not u.thorough) and (a.unit is None or a.unit in u.name)]
    problems = []
    res = []
    try:
        ll, dbg = tree.ir()
        mod = Module(ll, dbg)
        res = unit.run_all(mod, units, tier, seed, total=650 if tier == 'quick' else 3000)
    except build.BuildError as x:
        print('EXTRACTION failed:', str(x)[-3000:])
        problems.append('extraction: ' + str(x)[-800:])
    except Exception as x:
        problems.append('extraction: %r' % x)
        print('EXTRACTION failed: %r' % x)
    refuted, unknown, errors = [], [], []
    nob = ndis = bnob = bdis = 0
    for r in res:
        bad = [o for o in r['obligations'] if o['result'] != 'proved']
        if r.get('bounded'):
            bnob += len(r['obligations'])
            bdis += len(r['obligations']) - len(bad)
        else:
            nob += len(r['obligations'])
            ndis += len(r['obligations']) - len(bad)
        refuted += [(r, o) for o in bad if o['result'] == 'refuted']
        unknown += [(r, o) for o in bad if o['result'] != 'refuted']
        if r['error']:
            errors.append(r)
        state = 'error' if r['error'] else 'refuted' if any(o['result'] == 'refuted' for o in bad) else 'unknown' if bad else 'accepted'
        r['state'] = state
        print('unit %-44s %-9s %3d/%d obligations  %.1fs%s' % (r['unit'], state, len(r['obligations']) - len(bad), len(r['obligations']),
              r.get('wall_s', 0), ('  [%s]' % r['error'].splitlines()[0]) if r['error'] else ''))
        for o in bad:
            print('    failed obligation (%s): %s %s' % (o['result'], o['name'], (o['model'] or '') if a.v else ''))
        if a.v:
            if r['error']:
                print(r['error'])
            for o in r['obligations']:
                print('      ', o['result'], o['name'], o['backend'], o['time'])
    suspicious = bool(refuted or unknown or errors or problems)
    nat = None
    if getattr(P, 'NATIVE', None) and not a.no_native:
        ms = getattr(P, 'NATIVE_MS', 8000)
        if suspicious:
            ms *= 5
        if tier == 'thorough':
            ms *= 6
        cx = None
        um = {u.name: u for u in units}
        for r, o in refuted:
            tc = um[r['unit']].to_case
            if tc and o['model']:
                try:
                    case = tc(o['model'])
                except Exception:
                    case = None
                if case:
                    cx = native(tree, P.NATIVE, seed, ms, 60, case)
                    if cx['status'] == 'fail':
                        break
        if cx and cx['status'] == 'fail':
            nat = cx
            nat['from'] = "the verifier's counterexample"
        else:
            nat = native(tree, P.NATIVE, seed, ms, ms / 1000 * 2 + 120)
            nat['from'] = 'bounded native cross-check'
        print('native %s: %s (%d cases) %s' % (P.NATIVE, nat['status'], nat.get('cases', 0), nat.get('case') or ''))
        if nat['status'] == 'error':
            print(nat['out'][-1500:])
    found = nat is not None and nat['status'] == 'fail'
    viol = None
    if found or refuted:
        d = os.path.join(ROOT, '.replay')
        os.makedirs(d, exist_ok=True)
        lines = ['property %s, tree %s' % (a.property, tree.key), '']
        for r, o in refuted + unknown:
            lines += ['failed obligation (%s): %s' % (o['result'], o['name']), '  unit: %s' % r['unit'], '  contract: %s' % r.get('statement', ''),
                      '  back end: %s' % o['backend'], '  path: %s' % ' > '.join(o['trace']), '  model: %s' % json.dumps(o['model']), '']
        for r in errors:
            lines += ['unit not decided: %s: %s' % (r['unit'], r['error']), '']
        if nat:
            lines += ['native run (%s): %s' % (nat['from'], nat['status']), 'command: %s %s' % (nat.get('exe'), ' '.join(map(str, nat.get('args', [])))),
                      'rebuild with: python3-vt %s/check.py %s' % (ROOT, a.property), 'failing case: %s' % nat.get('case'), '', nat['out']]
        body = '\n'.join(lines) + '\n'
        path = os.path.join(d, '%s-%s.txt' % (a.property, hashlib.sha256(body.encode()).hexdigest()[:10]))
        with open(path, 'w') as fh:
            fh.write(body)
        viol = 'VIOLATION property=%s replay=%s' % (a.property, path)
        if not found:
            viol += ' no-failing-input-found'
    known = []
    kf = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(kf):
        with open(kf) as fh:
            known = [k for k in json.load(fh) if k['property'] == a.property]
    for k in known:
        if k['status'] == 'known':
            print('KNOWN-FINDING: property=%s %s' % (a.property, k['what']))
    funcs = sorted({f for r in res for f in r.get('functions', [])})
    ev = {
        'property': a.property, 'tier': tier, 'seed': seed, 'level': 'exploration' if suspicious or not nob else 'proof',
        'coverage': {
            'obligations': nob, 'discharged': ndis,
            'bounded_units': {'label': 'bounded, not counted as proved', 'obligations': bnob, 'discharged': bdis, 'bounds': {r['unit']: r['bounded'] for r in res if r.get('bounded')}},
            'checker_cmd': 'python3-vt %s %s --tier %s' % (os.path.join(ROOT, 'check.py'), a.property, tier),
            'trusted_base': trusted.base(res),
            'units': [{k: r.get(k) for k in ('unit', 'statement', 'state', 'bounded', 'error', 'covers', 'queries', 'solver_s', 'wall_s', 'loops')} | {'obligations': len(r['obligations'])} for r in res],
            'functions_under_contract': funcs,
            'backends': {b: sum(1 for r in res for o in r['obligations'] if o['backend'] == b and o['result'] == 'proved') for b in sorted({str(o['backend']) for r in res for o in r['obligations']})},
            'solver_s': round(sum(r.get('solver_s', 0) for r in res), 2),
            'not_discharged': ['%s: %s' % (r['unit'], o['name']) for r, o in refuted + unknown] + ['%s: %s' % (r['unit'], r['error'].splitlines()[0]) for r in errors] + problems,
            'samples': [o['name'] for r in res for o in r['obligations'] if o.get('info') != 'inv'][:12],
            'native_cross_check': None if nat is None else {'label': 'bounded, not counted as proved', 'status': nat['status'], 'evaluations': nat.get('cases', 0),
                                                            'distinct_nontrivial': nat.get('distinct', 0), 'samples': nat.get('samples', [])[:6]},
        },
        'assumptions': trusted.GENERAL + list(getattr(P, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0,
    }
    if a.unit is None:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', a.property + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
            fh.write('\n')
    print('%s: %d/%d obligations discharged%s, %d functions under contract, %.1fs' % (a.property, ndis, nob, ' and %d/%d of bounded units' % (bdis, bnob) if bnob else '', len(funcs), time.time() - t0))
    if viol:
        print(viol)
        sys.exit(1)
    if suspicious and (nat is None or nat['status'] != 'ok'):
        print('ERROR: obligations not discharged for tool reasons and no native check could stand in: no answer')
        sys.exit(2)
    if suspicious:
        print('DEGRADED: obligations not discharged for tool reasons (see evidence); the bounded native check stood in and held')
    sys.exit(0)


if __name__ == '__main__':
    main()
