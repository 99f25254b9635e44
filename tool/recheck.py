#!/usr/bin/env python3
"""Runs the check of each planted change against a scratch copy with that change (not part of any check)."""
import os, subprocess, json, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = '/tmp/sw'
cf = os.path.join(V, 'tool', 'caught.json')


def sh(c, **kw):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **kw)


def main():
    by = {}
    for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
        i = os.path.basename(d)
        if sys.argv[1:] and i not in sys.argv[1:]:
            continue
        pid = json.load(open(d + '/meta.json'))['property']
        sh('git checkout -q -- . ; git fetch -q /repo HEAD; git checkout -q -f FETCH_HEAD', cwd=SW)
        a = sh('git apply %s/patch.diff' % d, cwd=SW)
        if a.returncode:
            print(i, 'PATCH DOES NOT APPLY'); continue
        r = sh('python3 %s/rules/run.py %s' % (V, pid), env=dict(os.environ, COBALT_REPO=SW))
        fired = sorted({l[l.rindex('[') + 1:-1] for l in r.stdout.splitlines() if l.endswith(']') and ': ' in l})
        print(i, pid, 'rc', r.returncode, fired); sys.stdout.flush()
        by = json.load(open(cf)) if os.path.exists(cf) else {}
        by[i] = ('%s: %s' % (pid, ', '.join(fired))) if r.returncode == 1 else 'MISSED'
        json.dump(by, open(cf, 'w'), indent=1, sort_keys=True)
    sh('git checkout -q -- .', cwd=SW)


main()
