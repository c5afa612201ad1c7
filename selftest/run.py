#!/usr/bin/env python3
"""Tests the analyzer both ways, on scratch copies of /repo.

Each case in cases*.txt is an edit to the repository with the checks that must
report it (or "quiet": no check may report it;
"undecided": a change that no check is able to decide).  Format:

    @@ name | C01 C05          (or: @@ name | quiet)
    file path
    <<<<
    old text
    ====
    new text
    >>>>
    (more file blocks)

usage: run.py [-p PROP[,PROP]] [-n NAME] [--test] [cases files]
"""
import os, re, shutil, subprocess, sys, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
ap = argparse.ArgumentParser()
ap.add_argument('-p', default='')
ap.add_argument('-n', default='')
ap.add_argument('--test', action='store_true', help='also run the stable tests on each copy')
ap.add_argument('-v', action='store_true')
ap.add_argument('-q', action='store_true', help='only the quiet cases')
ap.add_argument('-j', type=int, default=4)
ap.add_argument('files', nargs='*')
a = ap.parse_args()
files = a.files or sorted(os.path.join(here, f) for f in os.listdir(here) if f.startswith('cases') and f.endswith('.txt'))
cases = []
for f in files:
    cur = None
    lines = open(f).read().split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('@@ '):
            name, props = [x.strip() for x in l[3:].split('|')]
            cur = dict(name=name, props=['quiet'] if props == 'undecided' else props.split(), edits=[])
            cases.append(cur)
        elif l == '<<<<':
            path = lines[i-1].strip()
            j = i+1
            old, new = [], []
            while lines[j] != '====':
                old.append(lines[j]); j += 1
            j += 1
            while lines[j] != '>>>>':
                new.append(lines[j]); j += 1
            cur['edits'].append((path, '\n'.join(old), '\n'.join(new)))
            i = j
        i += 1
env = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
    GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GO111MODULE='on', GOSUMDB='off', VERIF_SEED='1')
tmp = tempfile.mkdtemp(prefix='selftest')
binp = os.path.join(tmp, 'vc')
subprocess.run(['go', 'build', '-o', binp, '.'], cwd=os.path.join(here, '..', 'analyzer'), env=env, check=True)
allprops = [x for x in subprocess.run([binp], stdout=subprocess.PIPE, env=env).stdout.decode().strip('[]\n').split()]
def run(case):
    d = tempfile.mkdtemp(prefix='c', dir=tmp)
    repo = os.path.join(d, 'repo')
    shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git'))
    out = ''
    for path, old, new in case['edits']:
        p = os.path.join(repo, path)
        if old == '':
            s = new
        else:
            s = open(p).read()
            if s.count(old) < 1:
                return case, None, 'edit does not apply: ' + path + ': ' + old[:60]
            s = s.replace(old, new, 1)
        open(p, 'w').write(s)
    b = subprocess.run(['go', 'build', './...'], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if b.returncode:
        return case, None, 'does not build: ' + b.stdout.decode()[:400]
    if a.test:
        pkgs = subprocess.run("go list -e ./... | grep -v chemspell$", shell=True, cwd=repo, env=env, stdout=subprocess.PIPE).stdout.decode().split()
        t = subprocess.run(['go', 'test', '-vet=off'] + pkgs, cwd=repo, env=dict(env, TMPDIR=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out += ''.join(l + '\n' for l in t.stdout.decode().split('\n') if '--- FAIL' in l and 'TestCases' not in l and 'ExamplePackageName' not in l)
    want = a.p.split(',') if a.p else allprops
    v = os.path.join(d, 'verif'); os.makedirs(v)
    kf = os.path.join(here, '..', 'known_findings.txt')
    if os.path.exists(kf): shutil.copy(kf, v)
    fired = {}
    r = subprocess.run([binp, '-repo', repo, '-verif', v] + want, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = r.stdout.decode(errors='replace')
    for w in want:
        if 'VIOLATION property=%s ' % w in o:
            txt = open(os.path.join(v, 'evidence', w + '.violation.txt'), errors='replace').read()
            fired[w] = txt.strip().split('\n')
        elif 'OK property=%s ' % w not in o:
            fired[w] = ['NO ANSWER ' + o[-400:]]
    out += ' '.join(l[:160] for l in o.split('\n') if l.startswith('UNDECIDED'))
    shutil.rmtree(d, ignore_errors=True)
    return case, fired, out
sel = [c for c in cases if (not a.q or c['props'] == ['quiet']) and (not a.n or re.search(a.n, c['name'])) and (not a.p or c['props'] == ['quiet'] or set(c['props']) & set(a.p.split(',')))]
bad = 0
with ThreadPoolExecutor(a.j) as ex:
    for case, fired, out in ex.map(run, sel):
        if fired is None:
            print('BROKEN  %-40s %s' % (case['name'], out)); bad += 1; continue
        exp = [] if case['props'] == ['quiet'] else [p for p in case['props'] if not a.p or p in a.p.split(',')]
        miss = [p for p in exp if p not in fired]
        extra = [p for p in fired if p not in case['props']]
        st = 'ok' if not miss and not (case['props'] == ['quiet'] and fired) else ('MISSED' if miss else 'ALARM')
        if st != 'ok': bad += 1
        print('%-7s %-40s want %s fired %s' % (st, case['name'], ' '.join(case['props']), ' '.join(sorted(fired))), out.strip().replace('\n', ' '))
        if a.v or st == 'ALARM':
            for p in fired:
                for l in fired[p][:4]: print('      ', p, l[:300])
shutil.rmtree(tmp, ignore_errors=True)
print('%d cases, %d bad' % (len(sel), bad))
sys.exit(1 if bad else 0)
