#!/usr/bin/env python3
"""Applies each textual mutation of tools/mut/*.txt to a scratch copy of /repo and runs checks on it.
A mutation block:   CHECK file
                    <<<
                    old
                    ===
                    new
                    >>>
CHECK may be a comma list (any of them must report). 'quiet' in front: no check may report (behaviour kept)."""
import sys, os, json, subprocess, shutil, re, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
def parse(p):
    for m in re.finditer(r'^(\S+) (\S+)\n<<<\n(.*?)\n===\n(.*?)\n?>>>$', open(p).read(), re.S | re.M):
        yield m.groups()
def overlay(d):
    o = json.load(open('/opt/vp/overlay/overlay.json'))
    o['Replace'] = {k.replace('/repo/', d + '/', 1): v for k, v in o['Replace'].items()}
    p = d + '/.overlay.json'; json.dump(o, open(p, 'w')); return p
def run(job):
    i, (chk, f, old, new) = job
    d = f'/tmp/mut{i}'
    subprocess.run(['rm', '-rf', d]); subprocess.run(['cp', '-a', '/repo', d], check=True)
    try:
        p = os.path.join(d, f); s = open(p).read()
        if s.count(old) < 1: return (i, chk, f, old, new, 'NO-MATCH', '')
        open(p, 'w').write(s.replace(old, new, 1))
        env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-overlay=' + overlay(d))
        r = subprocess.run(['go', 'build', './' + os.path.dirname(f).split('/', 1)[1] + '/...'], cwd=os.path.join(d, f.split('/')[0]), env=env, capture_output=True, text=True)
        note = 'DOES NOT BUILD ' + r.stderr[:300] if r.returncode else ''
        quiet = chk.startswith('quiet:'); ids = os.environ.get('CHK') or chk.split(':')[-1]
        r = subprocess.run(['/verif/bin/analyzer', '-check', ids, '-repo', d, '-n'], capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or l.startswith('  ')]
        hit = r.returncode == 1 and any('VIOLATION' in l for l in r.stdout.splitlines())
        ok = (not hit) if quiet else hit
        return (i, chk, f, old, new, ('ok' if ok else 'MISS') + ' ' + note, r.stdout)
    finally:
        subprocess.run(['rm', '-rf', d])
jobs = []
for a in sys.argv[1:]:
    jobs += list(parse(a if os.path.exists(a) else os.path.join(here, a + '.txt')))
sel = os.environ.get('ONLY')
jobs = [(i, j) for i, j in enumerate(jobs) if not sel or sel in j[0] or str(i) in sel.split(',')]
with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for i, chk, f, old, new, res, out in ex.map(run, jobs):
        print(f'[{i}] {chk} {f}: {res}')
        if not res.startswith('ok ') or res.strip() != 'ok' or os.environ.get('V'):
            print('   -', old.replace('\n', '\n     ')); print('   +', new.replace('\n', '\n     '))
            print('     ' + '\n     '.join(out.splitlines()[:8]))
        sys.stdout.flush()
