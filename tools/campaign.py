#!/usr/bin/env python3
"""Runs checks against patched scratch copies of /repo.

usage: campaign.py [-p C01,C02|own|all] [-j N] [-base REV] patch.diff|seeded-dir...

The copy lives in /tmp and the monitors are built against it; /repo is not touched.
"""
import json, os, subprocess, sys, tempfile, time, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod', CGO_ENABLED='1', VERIF_SEED='1', VERIF_TIER='quick')
ALL = ['C%02d' % i for i in range(1, 32)]
props, jobs, rev, args = 'own', 1, 'HEAD', sys.argv[1:]
while args and args[0].startswith('-'):
    o = args.pop(0)
    if o == '-p': props = args.pop(0)
    elif o == '-j': jobs = int(args.pop(0))
    elif o == '-base': rev = args.pop(0)
if not args: args = ['']

def run(spec):
    patch, own = spec, None
    if spec and os.path.isdir(spec):
        patch = spec + '/patch.diff'
        own = json.load(open(spec + '/meta.json'))['property']
    name = os.path.basename(os.path.dirname(patch) if patch.endswith('/patch.diff') else patch) or rev
    d = tempfile.mkdtemp(prefix='camp.')
    try:
        w = d + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        subprocess.run(['git', '-C', w, 'checkout', '-q', rev], check=True)
        if patch:
            r = subprocess.run(['git', '-C', w, 'apply', os.path.abspath(patch)], capture_output=True, text=True)
            if r.returncode: return name, {'apply': r.stderr}
        mod = open(V + '/harness/go.mod').read().replace('/repo/protocol', w + '/protocol')
        open(d + '/go.mod', 'w').write(mod)
        subprocess.run(['cp', V + '/harness/go.sum', d + '/go.sum'])
        want = ALL if props == 'all' else [own] if props == 'own' else props.split(',')
        res = {}
        for p in want:
            race = ['-race'] if p == 'C21' else []
            exe = d + '/vmon' + ('r' if race else '')
            if not os.path.exists(exe):
                r = subprocess.run(['go', 'build', '-modfile', d + '/go.mod', *race, '-o', exe, './vmon'], cwd=V + '/harness', env=ENV, capture_output=True, text=True)
                if r.returncode: return name, {'build': r.stderr[:500]}
            t = time.time()
            try:
                r = subprocess.run([exe, '-prop', p, '-evidence', d + '/ev', '-replays', d + '/rp', '-findings', V + '/known-findings.txt'], capture_output=True, text=True, env=ENV, timeout=890, errors='replace')
                out = r.stdout + r.stderr
                vs = [l for l in out.splitlines() if 'VIOLATION' in l]
                ex = [l for l in out.splitlines() if l.startswith('INCONCLUSIVE') or 'violat' in l.lower()]
                res[p] = (r.returncode, round(time.time() - t, 1), len(vs), (ex or [''])[0][:170])
            except subprocess.TimeoutExpired:
                res[p] = ('timeout', 890, 0, '')
        return name, res
    finally:
        subprocess.run(['rm', '-rf', '--', d])

with cf.ThreadPoolExecutor(jobs) as ex:
    for name, res in ex.map(run, args):
        flag = {p: v for p, v in res.items() if not (isinstance(v, tuple) and v[0] == 0)}
        print(name, 'CAUGHT' if any(isinstance(v, tuple) and v[0] == 1 and v[2] for v in res.values()) else 'MISSED', flush=True)
        for p, v in (flag or res).items():
            print('   ', p, v, flush=True)
