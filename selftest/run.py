#!/usr/bin/env python3
"""Plants the edits of selftest/cases_*.py in a scratch copy of /repo and runs the checks on it.
   break: some listed check must report;  keep: none of the listed checks (or all) may report."""
import importlib.util, os, shutil, subprocess, sys, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
cases = []
pat = sys.argv[1] if len(sys.argv) > 1 else ''
for f in sorted(glob.glob(os.path.join(V, 'selftest', 'cases_*.py'))):
    sp = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for c in m.CASES: cases.append((os.path.basename(f)[6:-3],) + c)
cases = [c for c in cases if pat in c[0] + ':' + c[1]]


def one(c):
    grp, name, kind, checks, edits = c
    d = tempfile.mkdtemp(prefix='p4self.')
    try:
        shutil.copytree('/repo/crates', d + '/crates', ignore=shutil.ignore_patterns('target', 'node_modules'))
        for x in ('Cargo.toml', 'packages', 'docs'):
            s = '/repo/' + x
            if os.path.isdir(s): shutil.copytree(s, d + '/' + x, ignore=shutil.ignore_patterns('node_modules', 'out', 'dist'))
            elif os.path.exists(s): shutil.copy(s, d)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if old not in s: return (grp, name, kind, 'BADEDIT ' + old[:60])
            open(p, 'w').write(s.replace(old, new, 1))
        ev = d + '/ev'; os.makedirs(ev)
        r = subprocess.run([os.path.join(V, 'check')] + checks, env=dict(os.environ, P4_REPO=d, P4_EVIDENCE=ev), capture_output=True, text=True)
        out = r.stdout
        if r.returncode not in (0, 1) or r.stderr.strip(): return (grp, name, kind, 'ERROR ' + r.stderr[-600:])
        if 'does not type-check' in out: return (grp, name, kind, 'NOBUILD ' + out[:1200])
        hit = 'VIOLATION' in out
        good = hit == (kind == 'break')
        det = ' | '.join(l.strip() for l in out.splitlines() if l.startswith('  ') and '[' in l)[:300]
        return (grp, name, kind, ('ok   ' if good else 'WRONG') + ' ' + det)
    finally: shutil.rmtree(d)


bad = 0
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, cases):
        if not r[3].startswith('ok'): bad += 1
        print('%-8s %-44s %-6s %s' % r, flush=True)
print('%d cases, %d wrong' % (len(cases), bad))
