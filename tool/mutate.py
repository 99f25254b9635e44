#!/usr/bin/env python3
"""Self-test of the rules: applies one textual change after another to a scratch copy of /repo and shows what the rules say.
   mutate.py FILE [filter...]     FILE: python file with M = [(name, file, old, new, expected property or '' for none)]
   Not part of any check."""
import sys, os, subprocess, shutil, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ONE = '''
import sys, os
sys.path.insert(0, %r); sys.setrecursionlimit(20000)
import run, lib, db
run.load_rules()
try:
    if not set(%r.split()) & lib.SOURCE_ONLY: db.get()
except db.BuildError as e:
    print('  BUILD', str(e)[:300]); sys.exit()
kids = []
for pid in (%r.split() or sorted(lib.RULES)):
    if os.fork() == 0:
        cx = lib.Cx(pid, 'quick')
        errs = cx.run()
        kf = run.known().get(pid, {})
        seen = set()
        out = ''
        for v in cx.violations:
            k = v.ident()
            if k in kf or k in seen: continue
            seen.add(k)
            if len(seen) < 4: out += '   %%s %%s | %%s [%%s]\\n' %% (pid, v.where()[:110], v.what, v.rule)
        for e in errs: out += '   %%s ERR %%s\\n' %% (pid, e[:160])
        sys.stdout.write(out); sys.stdout.flush()
        os._exit(0)
    kids.append(1)
    if len(kids) >= 3: os.wait(); kids.pop()
while kids: os.wait(); kids.pop()
'''


def one(m):
    name, file, old, new, exp = m[:5]
    d = tempfile.mkdtemp(prefix='mut')
    try:
        for b in ('include', 'src'):
            shutil.copytree('/repo/' + b, d + '/' + b)
        edits = [(file, old, new)] if isinstance(old, str) else [((file if isinstance(file, str) else file[i]), o, n) for i, (o, n) in enumerate(zip(old, new))]
        for f, o, n in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if o not in s:
                return name, False, '== %s PATTERN NOT FOUND %s\n' % (name, o[:60])
            open(p, 'w').write(s.replace(o, n, 1))
        r = subprocess.run([sys.executable, '-c', ONE % (os.path.join(VERIF, 'rules'), exp, exp)], capture_output=True, text=True, env=dict(os.environ, COBALT_REPO=d))
        hit = exp and any(l.split()[:1] == [exp] and ' ERR ' not in l for l in r.stdout.splitlines())
        clean = not exp and not r.stdout.strip()
        return name, bool(hit or clean), '== %s %s\n%s%s' % (name, 'OK' if hit or clean else '*** MISSED expected %s' % exp, r.stdout, r.stderr[-1500:])
    finally:
        shutil.rmtree(d)


def main():
    M = runpy.run_path(sys.argv[1])['M']
    flt = [a for a in sys.argv[2:] if a != '-q']
    quiet = '-q' in sys.argv
    bad = []
    with ThreadPoolExecutor(3) as ex:
        for name, ok, out in ex.map(one, [m for m in M if not flt or any(f in m[0] or f == m[4] for f in flt)]):
            if not ok:
                bad.append(name)
            if not ok or not quiet:
                print(out, end='')
                sys.stdout.flush()
    print('missed:', bad)


main()
