#!/usr/bin/env python3-vt
"""vc.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree.

1. compiles the real sources (through the harness TUs) to IR, 2. generates and discharges the proof obligations of the
functions under contract, 3. runs the native drivers (public API) that replay the contracts on the compiled code,
4. prints a verdict and writes evidence/<id>.json.
"""
import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, 'engine'), os.path.join(ROOT, 'specs')]
import runner   # noqa: E402
import front    # noqa: E402
import llvm_ir  # noqa: E402

TRUSTED = ['clang-18 front end and opt-18 normalisation passes (inlining, sroa, instcombine) that produce the verified IR from /repo sources',
           'engine/ (this repository\'s verification-condition generator and its contracts for libc/libstdc++ runtime functions)',
           'z3 4.x and cvc5 1.1.2 (unsat answers)', 'x86-64 data layout: 64-bit size_t, IEEE-754 float/double']


def known():
    d = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding: property='):
                pid, rest = ln[len('finding: property='):].split(' ', 1)
                key, _, what = rest.partition(' | ')
                d.setdefault(pid, []).append((key.strip(), what.strip()))
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('--only', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    reg = importlib.import_module('registry')
    P = reg.get(pid)
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    rc = 2
    try:
        rc = decide(pid, P, tier, seed, tmp, a, t0)
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(pid, P, tier, seed, tmp, a, t0):
    tool = []
    units = []
    mods = P.get('modules', {})
    from concurrent.futures import ThreadPoolExecutor

    def build(item):
        name, m = item
        bc = os.path.join(tmp, name + '.bc')
        try:
            src = m['src'] if m['src'].startswith('/') else os.path.join(ROOT, 'harness', m['src'])
            front.compile_bc(src, bc, m['keep'], lang=m.get('lang', 'c++'), defs=m.get('defs', ()), incs=m.get('incs', ()),
                             flags=m.get('flags', ()), noaccess=m.get('noaccess', True))
            return name, bc, None
        except Exception as e:
            return name, None, str(e)
    if mods:
        with ThreadPoolExecutor(8) as tp:
            for name, bc, err in tp.map(build, mods.items()):
                if err:
                    tool.append(('module ' + name, 'build: ' + err[-3000:]))
                else:
                    try:
                        runner.MODULES[name] = llvm_ir.Module(bc)
                    except Exception as e:
                        tool.append(('module ' + name, 'load: %s' % e))
    t_build = time.time() - t0
    for mk in P['units']:
        try:
            units += mk(tier)
        except Exception as e:
            tool.append(('units', 'setup: %r' % e))
    units = [u for u in units if u.module is None or u.module in runner.MODULES]
    if a.only:
        units = [u for u in units if a.only in u.name]
    natives = [] if a.no_native else P.get('natives', lambda t: [])(tier)
    res, nres = runner.run_all(units, natives, tmp, tier, seed)

    match = P.get('match') or (lambda o: True)
    fails, unknowns, proved, skipped = [], [], 0, 0
    by_backend, by_kind = {}, {}
    contract_calls = {}
    stepped = set()
    solver = 0.0
    queries = 0
    bounded_ob = 0
    rows = []
    unit_tab = {}
    vac_bad = []
    for u in units:
        name, obls, err, wall, st, qn, stp, used, notes = res[u.name]
        solver += st
        queries += qn
        stepped |= set(stp)
        for k, v in used.items():
            contract_calls[k] = contract_calls.get(k, 0) + v
        if err:
            tool.append((u.name, err))
        n = 0
        for o in obls:
            if o['kind'] == 'vacuity':
                if o['status'] != 'ok':
                    vac_bad.append((u.name, o['name']))
                continue
            if not match(o):
                skipped += 1
                continue
            n += 1
            o['unit'] = u.name
            if o['status'] == 'ok':
                if u.bounded:
                    bounded_ob += 1
                else:
                    proved += 1
                by_backend[o['backend']] = by_backend.get(o['backend'], 0) + 1
                by_kind[o['kind']] = by_kind.get(o['kind'], 0) + 1
            elif o['status'] == 'fail':
                fails.append(o)
            else:
                unknowns.append(o)
        if not err and n == 0 and obls:
            pass
        unit_tab[u.name] = {'obligations': n, 'wall_s': round(wall, 2)}
        if u.bounded:
            unit_tab[u.name]['bounded'] = u.bounded
        if a.v:
            print('%-40s obls=%d bad=%d %.1fs %s' % (u.name, n, len([1 for o in obls if o['status'] != 'ok' and match(o)]), wall, (err or '').strip()[-1500:]))
    nat_fail = [(n, r) for n, r in nres.items() if r[1] == 'fail']
    nat_err = [(n, r) for n, r in nres.items() if r[1] == 'error']
    for n, r in nat_err:
        tool.append(('native ' + n, r[2][-1500:]))
    if a.v:
        for n, r in nres.items():
            print('native %-20s %s %.1fs %s' % (n, r[1], r[3], r[2][-400:].strip() if r[1] != 'pass' else r[2].strip()[-100:]))
        for o in fails[:30]:
            print('  FAIL', o['unit'], '|', o['name'], '|', o['kind'], o['loc'], 'exact' if o['exact'] else 'inexact', {k: v for k, v in list((o['model'] or {}).items())[:12]})
        for o in unknowns[:10]:
            print('  UNKNOWN', o['unit'], '|', o['name'], o['loc'])
        for x in vac_bad:
            print('  VACUOUS', x)

    # --- known findings (native or obligation keyed) ---
    kf = known().get(pid, [])
    hit_known = []

    def is_known(text):
        for key, what in kf:
            if key in text:
                if (key, what) not in hit_known:
                    hit_known.append((key, what))
                return True
        return False
    fails_new = [o for o in fails if not is_known('%s: %s' % (o['unit'], o['name']))]
    nat_new = [(n, r) for n, r in nat_fail if not is_known('%s: %s' % (n, r[2]))]

    edir = os.environ.get('VERIF_EVIDENCE_DIR', os.path.join(ROOT, 'evidence'))
    rdir = os.path.join(edir, 'replay')
    verdict = 0
    line = None
    sure = [o for o in fails_new if o['exact'] or P.get('alarm_inexact') or set(o['tags']) & set(P.get('alarm_tags', ()))]
    if nat_new:
        sure = fails_new          # the failing input settles it: these obligations fail on the code, not on the abstraction
    if nat_new or sure:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s_%d.txt' % (pid, int(time.time())))
        with open(rp, 'w') as f:
            f.write('property %s\n' % pid)
            for o in fails_new:
                f.write('\nFAILED OBLIGATION %s\n  unit: %s\n  kind: %s\n  at: %s\n  back end: %s\n  counterexample: %s\n' % (
                    o['name'], o['unit'], o['kind'], o['loc'], o['backend'], json.dumps(o['model'])))
            for n, r in nat_new:
                f.write('\nREPLAY AGAINST THE COMPILED CODE (driver native/%s)\n  command: %s\n%s\n' % (n, r[4], r[2]))
        verdict = 1
        line = 'VIOLATION property=%s replay=%s' % (pid, rp)
        if not nat_new:
            line += ' no-failing-input-found'
    elif tool or unknowns or vac_bad or fails_new:
        nat_ok = nres and not nat_err
        verdict = 0 if nat_ok else 2
    for key, what in hit_known:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    degraded = [{'unit': n, 'reason': e[:1500]} for n, e in tool] + \
        [{'unit': o['unit'], 'reason': 'undecided: ' + o['name']} for o in unknowns] + \
        [{'unit': o['unit'], 'reason': 'not proved (possibly imprecise abstraction), not reproduced on the compiled code: ' + o['name']} for o in fails_new if o not in sure] + \
        [{'unit': u, 'reason': 'vacuous: ' + n} for u, n in vac_bad]
    total = proved + bounded_ob + len(fails) + len(unknowns)
    full = proved > 0 and not degraded and not fails_new
    cov = {
        'obligations': proved + len(fails) + len(unknowns), 'discharged': proved,
        'bounded_obligations': bounded_ob,
        'checker_cmd': 'python3-vt vc.py %s --tier %s' % (pid, tier),
        'trusted_base': TRUSTED + P.get('trusted', []),
        'functions_under_contract': P.get('functions', []),
        'units': unit_tab,
        'by_backend': by_backend, 'by_kind': by_kind,
        'solver_time_s': round(solver, 2), 'solver_queries': queries, 'build_s': round(t_build, 2),
        'functions_stepped_into': len(stepped),
        'assumed_contracts_used': {k: v for k, v in sorted(contract_calls.items())},
        'native_replay_drivers': {n: {'result': r[1], 'wall_s': round(r[3], 1), 'output': r[2].strip()[-200:] if r[1] == 'pass' else r[2][-600:], 'kind': 'bounded cross-check, not counted as proved'} for n, r in nres.items()},
        'undecided': degraded,
        'evaluations': total,
    }
    lev = P.get('level', 'proof')
    if proved == 0:
        lev = 'other'
        cov['explanation'] = 'no obligation could be generated on this tree; only the bounded native drivers ran'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': lev, 'coverage': cov,
          'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
          'violations': 1 if verdict == 1 else 0}
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged (%d bounded), %d failed, %d undecided, %d tool problems; native %s; %.1f s' % (
        pid, total, proved + bounded_ob, bounded_ob, len(fails), len(unknowns), len(tool),
        {n: r[1] for n, r in nres.items()}, time.time() - t0))
    for d in degraded[:8]:
        print('  undecided: %s: %s' % (d['unit'], d['reason'].strip().replace('\n', ' ')[-600:]))
    if line:
        for o in sure[:5]:
            print('  failed obligation: %s: %s (%s)' % (o['unit'], o['name'], o['loc']))
        for n, r in nat_new[:3]:
            print('  replay: %s: %s' % (n, r[2].strip()[:400]))
        print(line)
    return verdict


if __name__ == '__main__':
    main()
