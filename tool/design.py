#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md (between their markers) from the rules, the findings and the planted changes."""
import os, re, sys, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'rules'), os.path.join(V, 'tool')]
sys.setrecursionlimit(20000)
import run, lib, props


def section(text, name, body):
    b, e = '<!-- %s -->' % name, '<!-- end %s -->' % name
    if 'GENERATED-' + name in text:
        return text.replace('GENERATED-' + name, b + '\n' + body + '\n' + e)
    i, j = text.index(b), text.index(e)
    return text[:i] + b + '\n' + body + '\n' + text[j:]


def main():
    run.load_rules()
    o = []
    for p in props.PROPS:
        if p['na']:
            continue
        o.append('**%s - %s.** (%s)' % (p['id'], p['title'], p['text'] if 'text' in p else ''))
        if p['id'] not in lib.RULES:
            o.append('* no check')
        for n, t, _ in lib.RULES.get(p['id'], []):
            o.append('* `%s`: %s' % (n, ' '.join(t.split())))
        o.append('')
    kf = [l.strip() for l in open(os.path.join(V, 'known_findings.txt')) if l.startswith(('fixed:', 'known:'))]
    f = []
    for l in kf:
        k, pid, rest = l.split(' ', 2)
        f.append('* %s %s: %s' % ('repaired,' if k == 'fixed:' else '**recorded**,', pid.replace('property=', ''), rest))
    s = ['| change | property | needs | caught by |', '|---|---|---|---|']
    try:
        by = json.load(open(os.path.join(V, 'tool', 'caught.json')))
    except OSError:
        by = {}
    for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        j = json.load(open(m))
        i = os.path.basename(os.path.dirname(m))
        s.append('| %s | %s | %s | %s |' % (i, j['property'], j['needs'].replace('|', '/'), by.get(i, '')))
    fn = os.path.join(V, 'DESIGN.md')
    t = open(fn).read()
    for n, b in (('RULES', o), ('FINDINGS', f), ('SEEDS', s)):
        t = section(t, n, '\n'.join(b))
    open(fn, 'w').write(t)


main()
