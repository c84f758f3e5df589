#!/usr/bin/env python3
"""Builds and confirms the planted bugs in seeded/ from tools/seeds/*.py.

usage: mkseeds.py [id...]   (all when no id is given)

Each bug is confirmed in a scratch worktree of /repo: it builds, the existing
tests pass, its demonstration passes on the unchanged tree and fails with it.
"""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwt'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=readonly')

def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)

SEEDS = []
def seed(id, prop, needs, breaks, edits, main, race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, race=race))

for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    exec(compile(open(f).read(), f, 'exec'))
assert len({s['id'] for s in SEEDS}) == len(SEEDS)

want = sys.argv[1:]
sh('git', '-C', '/repo', 'worktree', 'remove', '--force', WT)
sh('git', '-C', '/repo', 'worktree', 'prune')
r = sh('git', '-C', '/repo', 'worktree', 'add', '--detach', WT, 'HEAD')
assert r.returncode == 0, r.stderr
bad = 0
try:
    for s in SEEDS:
        if want and s['id'] not in want:
            continue
        d = f"{V}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        main = s['main']
        open(d + '/main.go', 'w').write(main)
        r = sh('gofmt', '-w', d + '/main.go')
        if r.returncode:
            print(s['id'], 'GOFMT', r.stderr); bad += 1; continue
        if '// nokit' in main:
            if os.path.exists(d + '/kit.go'): os.remove(d + '/kit.go')
        else:
            shutil.copy(V + '/tools/seedkit/kit.go', d + '/kit.go')
        demo = open(V + '/tools/seedkit/demo.sh').read().replace(' RACE', ' -race' if s['race'] else '')
        open(d + '/demo.sh', 'w').write(demo)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        sh('git', '-C', WT, 'checkout', '--', '.')
        clean = sh('bash', d + '/demo.sh', cwd=WT)
        ok = True
        for f, old, new in s['edits']:
            p = f'{WT}/protocol/{f}'
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT', f, t.count(old), repr(old)); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok:
            bad += 1; continue
        g = sh('gofmt', '-l', *[f'{WT}/protocol/{f}' for f, _, _ in s['edits']])
        diff = sh('git', '-C', WT, 'diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        b = sh('go', 'vet', './...', cwd=WT + '/protocol', env=ENV)
        t = sh('go', 'test', '-count=1', './...', cwd=WT + '/protocol', env=ENV)
        broken = sh('bash', d + '/demo.sh', cwd=WT)
        sh('git', '-C', WT, 'checkout', '--', '.')
        good = clean.returncode == 0 and t.returncode == 0 and broken.returncode not in (0, 3) and not g.stdout
        print(s['id'], 'ok' if good else f"BAD clean={clean.returncode} test={t.returncode} broken={broken.returncode} fmt={g.stdout!r}", flush=True)
        print('     ', (broken.stdout.strip().splitlines() or broken.stderr.strip().splitlines() or ['?'])[0][:160])
        if not good:
            bad += 1
            print(clean.stdout[-600:], clean.stderr[-1500:])
            if t.returncode: print(b.stderr[-800:], '\n'.join(l for l in t.stdout.splitlines() if 'FAIL' in l or 'rror' in l)[:1500])
            if not broken.returncode: print(broken.stderr[-500:])
finally:
    sh('git', '-C', '/repo', 'worktree', 'remove', '--force', WT)
    sh('git', '-C', '/repo', 'worktree', 'prune')
sys.exit(1 if bad else 0)
