#!/usr/bin/env python3
"""Mechanical changes to the sources, to find what the checks miss:  mutate.py WORKER SHARDS PER_FILE SEED FILE=CHECK,CHECK ...
Works on copies /tmp/mw<WORKER>/{repo,build}; prints one line per change that no listed check notices."""
import sys, os, re, random, subprocess, shutil
w, shards, per, seed = sys.argv[1:5]; per = int(per)
D = f'/tmp/mw{w}'; R = D + '/repo'
OPS = [
 (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
 (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\b0\b(?!\.)', '1'), (r'\b1\b(?!\.)', '0'), (r'\b2\b(?!\.)', '3'),
 (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'std::max\b', 'std::min'), (r'std::min\b', 'std::max'), (r'cwiseMax', 'cwiseMin'), (r'\+\+', '--'), (r'if \((?!auto|const)([^;{]*)\)$', r'if (!(\1))'),
 (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'\bfirst\b', 'second'), (r'\bsecond\b', 'first'), (r'lower', 'upper'), (r'upper', 'lower'), (r'-INFINITY', 'INFINITY'), (r'\.rows\(\)', '.cols()'), (r'\.cols\(\)', '.rows()'), (r'\bi\b(?=[\],)])', '(i + 1)'), (r'\bj\b(?=[\],)])', '(j + 1)'),
]
STMT = re.compile(r'^\s+(?!return\b|const\b|auto\b|assert|LOG|CONSOLE|std::cout|using|throw|PRINT)[A-Za-z_][\w.\->\[\]():]*( [-+*]?= [^;]*|\([^;]*\))?;\s*$')
SKIP = re.compile(r'LOG_|CONSOLE_BRIDGE|assert|#include|^\s*//|^\s*\*|std::cout|fprintf|printf|static_assert|template|PRINT_AND_THROW|throw |stream|std::abs\(|runtime_error')
def mutants(path):
    L = open(path).read().split('\n'); out = []; com = False
    for i, l in enumerate(L):
        if '/*' in l: com = True
        if com or SKIP.search(l):
            if '*/' in l: com = False
            continue
        code = l.split('//')[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if n != code: out.append((i, n))
        if STMT.match(code): out.append((i, ''))
    return L, out
def sh(c, t=900):
    try: return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired: return None
if not os.path.isdir(R): os.makedirs(D, exist_ok=True); sh(f'git clone -q /repo {R}')
sh(f'git -C {R} checkout -q -- .; git -C {R} pull -q')
tot = 0
for spec in sys.argv[5:]:
    f, checks = spec.split('='); p = f'{R}/{f}'; src = open(p).read()
    L, ms = mutants(p); random.Random(seed + f).shuffle(ms); killed = bad = 0; left = []
    for i, n in ms[:per]:
        open(p, 'w').write('\n'.join(L[:i] + [n] + L[i+1:])); res = 'survived'
        for c in checks.split(','):
            r = sh(f'cd /verif && REPO={R} VERIF_BUILD={D}/build nice -n 10 timeout 600 ./run.sh {c} quick --shards {shards}', 700)
            if r is None or r.returncode == 124: res = 'timeout'; break
            if r.returncode == 2 and 'BUILD-ERROR' in r.stdout: res = 'nobuild'; break
            if r.returncode != 0: res = 'killed'; break
        if res == 'nobuild': bad += 1
        elif res == 'killed': killed += 1
        else: print(f'{res.upper()} {f}:{i+1}\n   - {L[i].strip()}\n   + {n.strip()}', flush=True)
        tot += 1
    open(p, 'w').write(src)
    print(f'== {f}: {min(per,len(ms))} of {len(ms)} changes, {bad} do not build, {killed} noticed', flush=True)
