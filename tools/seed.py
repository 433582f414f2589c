#!/usr/bin/env python3
"""seed.py DEF.py [--check] [--check-only ID]: builds and confirms planted bugs (used while developing; no check reads this).

DEF.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ text, cc=extra flags, src=extra sources)].
Everything happens in a scratch copy bind-mounted over /repo in a private mount namespace."""
import json, os, shutil, subprocess, sys, runpy
V = '/verif'
defs = runpy.run_path(sys.argv[1])['SEEDS']
sel = [x for x in sys.argv[2:] if not x.startswith('--')]
check = '--check' in sys.argv
checkonly = '--check-only' in sys.argv
DEMO = '''#!/bin/bash
# run in the repository's root; exit 0 when the property holds
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
%s
'''
for s in defs:
    if sel and s['id'] not in sel:
        continue
    d = os.path.join(V, 'seeded', s['id'])
    sc = '/tmp/w/sc/' + s['id']
    shutil.rmtree(sc, ignore_errors=True)
    os.makedirs('/tmp/w/sc', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', sc], check=True)
    ok = True
    for f, old, new in s['edits']:
        p = os.path.join(sc, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(s['id'], 'EDIT MATCHES', t.count(old), 'times:', f, repr(old[:60])); ok = False; break
        open(p, 'w').write(t.replace(old, new))
    if not ok:
        continue
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', sc, 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if 'demo' in s:
        open(d + '/demo.cpp', 'w').write(s['demo'].lstrip())
    run = s.get('run') or ('g++ -std=c++17 -w %s -Iinclude -I. -isystem /usr/include/liquid "$D/demo.cpp" %s -o "$T/demo" %s -lpthread || exit 3\ncd "$T" && timeout 200 ./demo' % (s.get('cc', '-O1'), s.get('src', ''), s.get('libs', '')))
    open(d + '/demo.sh', 'w').write(DEMO % run)
    os.chmod(d + '/demo.sh', 0o755)
    script = r'''
mount --bind %(sc)s /repo || exit 90
cd /repo
git stash -q
bash %(d)s/demo.sh > /tmp/w/sc/%(id)s.clean 2>&1; echo "clean demo rc=$?"
git stash pop -q
''' % dict(sc=sc, d=d, id=s['id'])
    if not checkonly:
        script += r'''
bash /opt/vp/build.sh > /tmp/w/sc/%(id)s.build 2>&1; echo "build rc=$?"
bash /opt/vp/test.sh /tmp/w/sc/%(id)s.json > /tmp/w/sc/%(id)s.test 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/w/sc/%(id)s.json'))
def names(x, k):
    v=x.get(k, [])
    return set(v if isinstance(v, list) else v.keys())
st=set(b['stable'])
ps=names(r,'passed')
print('stable', len(st), 'passing', len(ps & st), 'missing', sorted(st-ps)[:5])
P
bash %(d)s/demo.sh > /tmp/w/sc/%(id)s.demo 2>&1; echo "patched demo rc=$?"; tail -3 /tmp/w/sc/%(id)s.demo
''' % dict(d=d, id=s['id'])
    if check or checkonly:
        for pid in [s['property']] + s.get('also', []):
            script += 'mkdir -p /tmp/w/ev; cd /verif; VERIF_EVIDENCE_DIR=/tmp/w/ev VERIF_SEED=1 python3-vt vc.py %s > /tmp/w/sc/%s.%s.log 2>&1; echo "check %s rc=$?"; grep -E "failed obl|replay:|VIOLATION|undecided:" /tmp/w/sc/%s.%s.log | cut -c1-220 | head -8\n' % (pid, s['id'], pid, pid, s['id'], pid)
    r = subprocess.run(['unshare', '-Urm', 'bash', '-c', script], capture_output=True, text=True)
    print('==', s['id']); print(r.stdout + r.stderr[-500:]); sys.stdout.flush()
    shutil.rmtree(sc, ignore_errors=True)
