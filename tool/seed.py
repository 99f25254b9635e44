#!/usr/bin/env python3
"""Plants a bug: seed.py SPEC.py [names]   (not part of any check)
   SPEC.py: S = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=cpp text, src='*.cpp ...')]
   Works in the scratch copy /tmp/sw (built by /tmp/swb.sh, tested by /tmp/swt.sh); writes /verif/seeded/<id>/."""
import sys, os, subprocess, json, runpy, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = '/tmp/sw'
DEMO = '''#!/bin/bash
# compiles demo.cpp with the sources of the tree it is run in, and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
fl="-std=gnu++20 -O0 -g %(flags)s -w -DBOOST_ASIO_NO_DEPRECATED -DBOOST_COBALT_STATIC_LINK=1 -Iinclude"
pids=()
for f in %(src)s; do
  g++ $fl -c "$f" -o "$d/$(echo "$f" | tr / _).o" & pids+=($!)
done
g++ $fl -c "$here/demo.cpp" -o "$d/demo.o" & pids+=($!)
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
[ $rc = 0 ] && { g++ $fl "$d"/*.o -o "$d/demo" -lboost_system %(libs)s -lpthread || rc=1; }
if [ $rc = 0 ]; then
  ( cd "$d" && timeout 60 ./demo ) || rc=1
fi
rm -rf "$d"
exit $rc
'''


def sh(c, **kw):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **kw)


def main():
    S = runpy.run_path(sys.argv[1])['S']
    for s in S:
        if sys.argv[2:] and s['id'] not in sys.argv[2:]:
            continue
        sh('git checkout -q -- . ; git fetch -q /repo HEAD; git checkout -q -f FETCH_HEAD', cwd=SW)
        d = os.path.join(VERIF, 'seeded', s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.cpp', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO % dict(src=s.get('src', 'src/*.cpp src/detail/*.cpp'), flags=s.get('flags', ''), libs=s.get('libs', '')))
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd=SW)
        print('==', s['id'], 'clean demo rc', a.returncode, (a.stdout + a.stderr)[-1500:] if a.returncode else '')
        if a.returncode:
            continue
        ok = True
        for f, o, n in s['edits']:
            t = open(SW + '/' + f).read()
            if o not in t:
                print('   PATTERN NOT FOUND', o[:80]); ok = False
            open(SW + '/' + f, 'w').write(t.replace(o, n, 1))
        if not ok:
            continue
        open(d + '/patch.diff', 'w').write(sh('git diff', cwd=SW).stdout)
        b = sh('bash /tmp/swb.sh')
        if b.returncode:
            print('   BUILD FAILS', (b.stdout + b.stderr)[-1500:]); continue
        t = sh('bash /tmp/swt.sh /tmp/swo.json')
        print('   tests', t.stdout.strip().splitlines()[-1:])
        a = sh('bash %s/demo.sh' % d, cwd=SW)
        print('   patched demo rc', a.returncode, (a.stdout + a.stderr)[-300:].replace('\n', ' | '))
        r = sh('python3 %s/rules/run.py %s' % (VERIF, s['property']), env=dict(os.environ, COBALT_REPO=SW))
        print('   check rc', r.returncode, '\n      '.join(r.stdout.strip().splitlines()[:4])[:900])
        fired = sorted({l[l.rindex('[') + 1:-1] for l in r.stdout.splitlines() if l.endswith(']') and ': ' in l})
        cf = os.path.join(VERIF, 'tool', 'caught.json')
        by = json.load(open(cf)) if os.path.exists(cf) else {}
        by[s['id']] = ('%s: %s' % (s['property'], ', '.join(fired))) if r.returncode == 1 else 'MISSED'
        json.dump(by, open(cf, 'w'), indent=1, sort_keys=True)
        sys.stdout.flush()
    sh('git checkout -q -- .', cwd=SW)


main()
