#!/usr/bin/env python3
"""Decide one property:  run.py ID [quick|thorough]"""
import sys, os, json, time, glob, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import db as _db
import lib


def load_rules():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(glob.glob(os.path.join(here, 'r_*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])


def known():
    """known-findings file: lines 'known: property=ID key=KEY :: text' suppress that very violation"""
    out = {}
    p = os.path.join(lib.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                head, _, text = l[7:].partition(' :: ')
                pid, _, key = head.partition(' key=')
                out.setdefault(pid.replace('property=', '').strip(), {})[key.strip()] = text
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    load_rules()
    if pid not in lib.RULES:
        print('no rules for', pid)
        return 2
    try:
        cx = lib.Cx(pid, tier)
    except _db.BuildError as e:
        print('ERROR: the program could not be analysed:\n%s' % e)
        return 2
    errs = cx.run()
    kf = known().get(pid, {})
    seen, viol, listed = set(), [], {}
    for v in cx.violations:
        k = v.ident()
        if k in kf:
            listed.setdefault(k, v)
            continue
        if k in seen:
            continue
        seen.add(k)
        viol.append(v)
    rdir = os.path.join(lib.VERIF, 'build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for k, v in listed.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]))
    vrec = []
    for i, v in enumerate(viol):
        rp = os.path.join(rdir, '%s-%d.txt' % (pid, i))
        with open(rp, 'w') as fh:
            fh.write('property %s, rule %s\n%s\n%s\nkey: %s\n' % (pid, v.rule, v.where(), v.what, v.ident()))
            if v.path is not None:
                fh.write(lib.describe(v.path) + '\n')
        print('%s: %s [%s]' % (v.where(), v.what, v.rule))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        vrec.append({'rule': v.rule, 'where': v.where(), 'what': v.what, 'replay': rp})
    for e in errs:
        print('UNDECIDED: ' + e)
    cov = {
        'explanation': 'Static analysis of the current tree: %d translation units (%d functions, %d records) parsed and type-checked by clang 18; '
                       'for this property %d functions were interpreted abstractly (%d more inlined), %d abstract paths, %d obligations decided by %d rules: %s'
                       % (len(cx.db.units), len(cx.db.fns), len(cx.db.recs), len(cx.fn_seen), len(cx.inlined - cx.fn_seen), cx.paths_seen, cx.obl,
                          len(cx.per_rule), '; '.join('%s (%d)' % (n, cx.per_rule.get(n, 0)) for n, _, _ in lib.RULES[pid])),
        'obligations': cx.obl, 'paths': cx.paths_seen, 'functions_analysed': len(cx.fn_seen), 'functions_inlined': len(cx.inlined - cx.fn_seen),
        'translation_units': len(cx.db.units),
        'undecided_rules': errs,
        'rules': [{'name': n, 'rule': ' '.join(t.split()), 'obligations': cx.per_rule.get(n, 0)} for n, t, _ in lib.RULES[pid]],
        'functions': sorted({cx.db.fns[f]['q'].split('(')[0][:160] for f in cx.fn_seen})[:400],
    }
    if pid in lib.SOURCE_ONLY:
        cov['explanation'] = '%d obligations decided by %d rules on the headers of the current tree with the clang 18 front end: %s' % \
            (cx.obl, len(cx.per_rule), '; '.join('%s (%d)' % (n, cx.per_rule.get(n, 0)) for n, _, _ in lib.RULES[pid]))
    cov.update(cx.extra)
    evd = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
           'assumptions': ASSUME, 'violations': len(viol)}
    os.makedirs(os.path.join(lib.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(lib.VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(evd, fh, indent=1)
    print('%s: %d obligations over %d paths of %d functions, %d violations, %d known findings, %.1fs'
          % (pid, cx.obl, cx.paths_seen, len(cx.fn_seen), len(viol), len(listed), time.time() - t0))
    if viol:
        return 1
    if errs and (os.environ.get('COBALT_STRICT') or len(errs) * 2 > len(lib.RULES[pid])):
        return 2            # too little of the property could be decided
    return 0


ASSUME = ['calls into Boost and the standard library behave as documented and keep no hidden aliases of the analysed objects',
          'loops are unrolled until the abstract state repeats, at most 2 (quick) or 3 (thorough) iterations',
          'templates are analysed in the instantiations of /verif/drivers']

if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
