#!/usr/bin/env python3
"""Planted changes: `seed.py make FILE.py...` writes seeded/<id>/ from a description; `seed.py test ID...` applies each to /repo,
builds, runs the stable tests, the demonstration and the check of its property, and undoes it."""
import sys, os, subprocess, json, shutil, tempfile, runpy
V = '/verif'; R = os.environ.get('SEED_REPO', '/repo')
LIBS = {
 'common': ['trajopt_common/src/%s.cpp' % f for f in ('utils','logging','stl_to_string','clock')],
 'collision_types': ['trajopt_common/src/collision_types.cpp','trajopt_common/src/collision_utils.cpp'],
 'ifopt': None, 'sqp': None, 'sco': None, 'json': ['trajopt/src/json_marshal.cpp'], 'trajopt': ['trajopt/src/trajectory_costs.cpp','trajopt/src/utils.cpp'],
 'optimizers': ['trajopt_sco/src/optimizers.cpp'], 'osqp': ['trajopt_sco/src/osqp_interface.cpp'],
}
def sh(cmd, **k): return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
def make(path):
    for s in runpy.run_path(path)['SEEDS']:
        d = f"{V}/seeded/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        w = tempfile.mkdtemp(prefix='seedwt'); shutil.rmtree(w)
        assert sh(f'git -C {R} worktree add --detach {w} HEAD').returncode == 0
        try:
            for f, old, new in s['edits']:
                t = open(f'{w}/{f}').read(); assert t.count(old) == 1, (s['id'], f, t.count(old), old); open(f'{w}/{f}', 'w').write(t.replace(old, new))
            open(f'{d}/patch.diff', 'w').write(sh(f'git -C {w} diff').stdout)
        finally:
            sh(f'git -C {R} worktree remove --force {w}')
        open(f'{d}/demo.cpp', 'w').write(s['demo'])
        if s.get('stubs'): shutil.copytree(f'{V}/stubs', f'{d}/stubs')
        for f in s.get('files', []): shutil.copy(f, d)
        srcs = ' '.join(s.get('srcs', [])); libs = ' '.join(s.get('libs', []))
        open(f'{d}/demo.sh', 'w').write(f'''#!/bin/bash
# Exit 0 if the behaviour is right. Run with cwd /repo after the build.
set -u
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cd "$t"
inc="-I$d -I$d/stubs -I$r/trajopt_common/include -I$r/trajopt_ifopt/include -I$r/trajopt_optimizers/trajopt_sqp/include -I$r/trajopt_sco/include -I$r/trajopt/include -I$r/trajopt_ext/vhacd/include"
sys="-isystem /usr/include/eigen3 -isystem /usr/include/jsoncpp -isystem /usr/include/bullet"
src=""; for f in {srcs}; do src="$src $r/$f"; done
g++ -std=c++17 -O0 -w -ffunction-sections -fdata-sections -Wl,--gc-sections $inc $sys "$d/demo.cpp" $src -L"$r/_build" {libs} -o demo {s.get('flags','')} -lpthread || exit 9
TRAJOPT_LOG_THRESH=FATAL timeout {s.get('timeout',120)} ./demo
''')
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json','w'), indent=1)
        print('made', s['id'])
def test(i, checks=True):
    d = f'{V}/seeded/{i}'; prop = json.load(open(d+'/meta.json'))['property']; out = {}
    assert sh(f'git -C {R} status --porcelain').stdout.strip() == '', 'repo dirty'
    tmp = tempfile.mkdtemp(prefix='seeddemo'); shutil.copytree(d, tmp+'/x')
    for f in ('patch.diff','meta.json'): os.remove(f'{tmp}/x/{f}')
    sh('bash /opt/vp/build.sh')
    r = sh(f'bash {tmp}/x/demo.sh', cwd=R); out['demo_clean'] = r.returncode
    if r.returncode: print(r.stdout[-1500:], r.stderr[-1500:])
    a = sh(f'git -C {R} apply {d}/patch.diff'); assert a.returncode == 0, a.stderr
    try:
        b = sh('bash /opt/vp/test.sh /tmp/seedtest.json'); j = json.load(open('/tmp/seedtest.json'))
        out['build'] = b.returncode; out['passed'] = len(j['passed']); out['failed'] = j['failed']
        r = sh(f'bash {tmp}/x/demo.sh', cwd=R); out['demo_patched'] = r.returncode; out['demo_out'] = (r.stdout+r.stderr)[-300:]
        if checks:
            c = sh(f'timeout 900 bash run.sh {prop} quick', cwd=V); out['check'] = c.returncode
            out['check_out'] = '\n'.join(l for l in c.stdout.splitlines()[:6])
    finally:
        sh(f'git -C {R} checkout -- .'); shutil.rmtree(tmp)
    sh('bash /opt/vp/build.sh')
    ok = out['demo_clean']==0 and out['demo_patched'] not in (0,9) and out['passed']>=35 and not out['failed']
    print(i, prop, 'VALID' if ok else 'INVALID', 'CAUGHT' if out.get('check')==1 and f'VIOLATION property={prop}' in out['check_out'] else 'MISSED', json.dumps(out)[:1500], flush=True)
if sys.argv[1] == 'make': [make(p) for p in sys.argv[2:]]
else: [test(i) for i in sys.argv[2:]]
