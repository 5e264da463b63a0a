#!/usr/bin/env python3
"""Applies each patch of a directory to /repo, runs checks, and restores /repo.

tools/seeds.py [IDS]             planted bugs (seeded/): each must be reported by the check of its property
tools/seeds.py --all [IDS]       ... all checks
tools/seeds.py --reverse-fixes   the fix commits, taken back one by one, must be reported
tools/seeds.py --refactor [IDS]  tools/refactor/*.diff: no check may report anything
tools/seeds.py --lines           patches which change lines which commits after the base added
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
def run(*c, **k): return subprocess.run(c, capture_output=True, text=True, **k)
def clean(): run('git', '-C', R, 'checkout', '--', '.')
def check(p):
    t = time.time(); r = run('./check', p, '--tier', 'quick', cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'), timeout=1000)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return r.returncode, time.time() - t, v, (r.stdout + r.stderr)[-1500:]
def props(): return [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]; o = [x for x in sys.argv[1:] if x.startswith('--')]
    if run('git', '-C', R, 'status', '--porcelain').stdout.strip(): sys.exit('/repo is not clean')
    jobs = []
    if '--refactor' in o:
        d = V + '/tools/refactor'
        for f in sorted(os.listdir(d)):
            if f.endswith('.diff') and (not a or f[:-5] in a): jobs.append((f[:-5], d + '/' + f, props(), False))
    elif '--reverse-fixes' in o:
        for l in open(V + '/known_findings.jsonl'):
            k = json.loads(l); c = k['commit'][:7]
            if a and c not in a: continue
            p = '/tmp/rev_%s.diff' % c
            open(p, 'w').write(run('git', '-C', R, 'show', '-R', '--format=', k['commit']).stdout)
            jobs.append((c + ' ' + k['property'], p, [k['property']], True))
    else:
        d = V + '/seeded'
        for f in sorted(os.listdir(d)):
            if a and f not in a: continue
            p = json.load(open(d + '/' + f + '/meta.json'))['property']
            jobs.append((f, d + '/' + f + '/patch.diff', props() if '--all' in o else [p], True))
    n = 0
    for name, patch, ps, want in jobs:
        if '--lines' in o:
            # the lines taken away, by the commit which added them
            h = None; s = set()
            for l in open(patch):
                if l.startswith('--- a/'): f = l[6:].strip()
                elif l.startswith('@@'): at = int(l.split()[1][1:].split(',')[0])
                elif l.startswith('-') and not l.startswith('---'):
                    s.add(run('git', '-C', R, 'blame', '-s', '-L%d,%d' % (at, at), 'HEAD', '--', f).stdout.split()[0]); at += 1
                elif l.startswith(' '): at += 1
            print(name, *s); continue
        r = run('git', '-C', R, 'apply', patch)
        if r.returncode: print('%-40s does not apply: %s' % (name, r.stderr[:200])); n += 1; continue
        try:
            for p in ps:
                c, t, v, out = check(p); bad = (c != 1 or not v or ('property=' + p) not in v[0]) if want else c != 0
                if bad: n += 1
                if bad or want or '--verbose' in o: print('%-4s %-40s %s exit %d %4.0f s %s' % ('MISS' if bad and want else 'BAD' if bad else 'ok', name, p, c, t, v[0][:100] if v else ''), flush=True)
                if bad and not want or c not in (0, 1): print(out)
        finally: clean()
    print('%d patches, %d not as they should be' % (len(jobs), n))
    sys.exit(1 if n else 0)
main()
