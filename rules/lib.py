"""Framework of the rules: obligations, anchors, abstract paths, reports."""
import os, sys, time, json, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import db as _db
import engine as en
from engine import Engine, State, show, show_path, cv, NULL, TRUE, FALSE, short, Thrown

VERIF = _db.VERIF
RULES = {}       # property id -> list of (name, text, function)


class Anchor(Exception):
    """The program no longer contains what a rule is about."""


def rule(*pids, text=''):
    def deco(f):
        for p in pids:
            RULES.setdefault(p, []).append((f.__name__, text or (f.__doc__ or '').strip(), f))
        return f
    return deco


NS = 'boost::cobalt::'


class Violation:
    def __init__(s, rule, fn, what, path=None, line=None, key=None):
        s.rule, s.fn, s.what, s.path, s.line = rule, fn, what, path, line
        s.key = key

    def where(s):
        if s.fn is None:
            return ''
        return '%s:%s in %s' % (s.fn['file'], s.line or s.fn['line'], s.fn['q'])

    def ident(s):
        return '%s|%s|%s' % (s.rule, s.fn['n'] if s.fn else '', s.key or s.what)


# properties of the headers themselves: whether the drivers compile does not matter
SOURCE_ONLY = {'P32'}


class NoProgram:
    units, fns, recs, enums = [], {}, {}, {}


class Cx:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.db = NoProgram() if pid in SOURCE_ONLY else _db.get()
        self.extra = {}
        self.violations = []
        self.rule = ''
        self.obl = 0
        self.per_rule = {}
        self.fn_seen = set()
        self.paths_seen = 0
        self.events_seen = 0
        self.inlined = set()
        self._cache = {}
        self.notes = []

    # -- anchors ------------------------------------------------------------
    def fns(self, name, need=1, body=True, pred=None, **kw):
        """Functions with this pattern name (template arguments dropped)."""
        n = name if name.startswith(('boost::', 'std::', 'drv', '::')) or name == 'main' else NS + name
        out = []
        for f in self.db.find(n):
            if body and 'body' not in f and 'inits' not in f:
                continue
            if any(f.get(k) != v for k, v in kw.items()):
                continue
            if pred and not pred(f):
                continue
            out.append(f)
        if len(out) < need:
            raise Anchor('no function %s (%s) found in the program' % (n, kw or ''))
        return out

    def fn(self, name, **kw):
        return self.fns(name, **kw)[0]

    def recs(self, name, need=1):
        n = name if name.startswith(('boost::', 'std::')) else NS + name
        out = self.db.records_named(n)
        if len(out) < need:
            raise Anchor('no record %s found in the program' % n)
        return out

    def field(self, rec, pref, typ=None):
        """Name of the field playing a role: the preferred name, else the only field of that type."""
        for f in rec['fields']:
            if f['n'] == pref:
                return f['n']
        c = [f['n'] for f in rec['fields'] if typ and typ(f['t'])]
        if len(c) == 1:
            return c[0]
        raise Anchor('no field for %s in %s' % (pref, rec['n']))

    # -- analysis -----------------------------------------------------------
    def paths(self, fn, this=None, args=None, seed=None, facts=None, state=None, **opts):
        if isinstance(fn, str):
            fn = self.fn(fn)
        st = state.copy() if state is not None else State()
        for k, v in (seed or {}).items():
            st.store[k] = v
        for k, v in (facts or {}).items():
            st.facts[k] = v
        opts.setdefault('loop', 3 if self.tier == 'thorough' else 2)
        e = Engine(self.db, **opts)
        self.engine = e
        ps = e.run(fn, this=this, args=args, state=st)
        ps = [p for p in ps if not self.assert_fail(p)]
        if not ps:
            raise Anchor('no path through %s' % fn['q'])
        self.fn_seen.add(fn['id'])
        self.inlined |= e.inlined
        self.paths_seen += len(ps)
        for p in ps:
            p.fn = fn
        return ps

    def assert_fail(self, p):
        if p.outcome != 'throw' or not p.value:
            return False
        v = p.value
        return v[0] == 'o' and v[1] == 'noret' and v[2] in ('__assert_fail', 'std::terminate', 'abort', 'std::abort', '__builtin_unreachable', 'boost::assertion_failed')

    def closure(self, clo, state, args=None, **opts):
        opts.setdefault('loop', 3 if self.tier == 'thorough' else 2)
        e = Engine(self.db, **opts)
        ps = e.run_closure(clo, state, args)
        if ps is None:
            return None
        self.inlined |= e.inlined
        self.paths_seen += len(ps)
        return [p for p in ps if not self.assert_fail(p)]

    def closures(self, p, e=None, state=None, args=None):
        """abstract paths of every closure handed to the calls of path p (up to event e): [(event, [paths])]"""
        out, seen = [], set()
        for x in p.events:
            if x.kind in ('call', 'ctor', 'coop'):
                for a, v in zip(list(x.args), list(x.argv or [])):
                    if v is not None and v[0] == 'lam' and v[1] not in seen:
                        qs = self.closure(a, state or p.state, args)
                        if qs is None:
                            qs = self.closure(v, state or p.state, args)
                        if qs is not None:
                            seen.add(v[1])
                            out.append((x, qs))
            if x is e:
                break
        return out

    # -- obligations --------------------------------------------------------
    def ob(self, ok, fn, what, path=None, line=None, key=None):
        self.obl += 1
        self.per_rule[self.rule] = self.per_rule.get(self.rule, 0) + 1
        if not ok:
            self.violations.append(Violation(self.rule, fn, what, path, line, key))
        return ok

    def run(self):
        errs = []
        for name, text, f in RULES.get(self.pid, []):
            self.rule = name
            before = self.obl
            try:
                f(self)
            except Anchor as a:
                errs.append('%s: %s' % (name, a))
                continue
            except en.EngineError as a:
                errs.append('%s: %s' % (name, a))
                continue
            except Exception as a:                      # an unforeseen shape of the code: this rule has no answer
                if os.environ.get('COBALT_STRICT'):
                    raise
                errs.append('%s: %s: %s' % (name, type(a).__name__, a))
                continue
            if self.obl == before:
                errs.append('%s: the rule found nothing to decide' % name)
        return errs


# -- helpers over paths -------------------------------------------------------

def ev(p, *kinds, name=None, obj=None):
    out = []
    for e in p.events:
        if kinds and e.kind not in kinds:
            continue
        if name is not None and not (e.name == name or (callable(name) and name(e.name)) or (isinstance(name, (set, tuple, list)) and e.name in name)):
            continue
        out.append(e)
    return out


def calls(p, *names):
    """External calls or inlined calls with one of these names (last component or full)."""
    out = []
    for e in p.events:
        if e.kind in ('call', 'enter') and (e.name in names or short(e.name) in names):
            out.append(e)
    return out


def idx(p, e):
    return p.events.index(e)


def fact(p, v):
    """truth of an abstract value at the end of the path: True/False/None"""
    return truth_of(p.state, v)


def truth_of(st, v):
    neg = False
    while True:
        c = cv(v)
        if c is not None:
            return bool(c) != neg
        if v[0] == 'o' and v[1] == '!':
            neg, v = not neg, v[2]
            continue
        break
    if v[0] in ('p', 'L', 'fn', 'lam'):
        return not neg
    f = st.facts.get(v)
    return None if f is None else f != neg


def load(p, path):
    return ENG.load(p.state, path)


ENG = Engine(None)


def holds(p, path, want):
    """the location holds what `want` held when the function started (as a whole, or member by member)"""
    if path is None:
        return False
    if load(p, path) == ('i', want):
        return True
    n = len(path)
    kids = [(k[n:], v) for k, v in p.state.store.items() if len(k) > n and k[:n] == path]
    return bool(kids) and all(v == ('i', want + r) for r, v in kids)


def yields(p, want):
    """the function returns what `want` held when it started"""
    v = p.value
    if v is None:
        return False
    if v[0] == 'L':
        return holds(p, v[1], want)
    return v == ('i', want)


def P(path):
    return ('p', path)


def I(path):
    return ('i', path)


def root(name):
    return (('obj', name),)


def contains(v, pred):
    """does abstract value v contain a subterm for which pred holds"""
    if pred(v):
        return True
    if isinstance(v, tuple):
        return any(contains(x, pred) for x in v if isinstance(x, tuple))
    return False


def mentions(v, what):
    return contains(v, lambda x: x == what)


def has_sym(v, s):
    """does the abstract value mention string s anywhere"""
    if isinstance(v, str):
        return s in v
    if isinstance(v, tuple):
        return any(has_sym(x, s) for x in v)
    return False


def describe(p, limit=60):
    out = ['outcome: %s %s' % (p.outcome, show(p.value) if p.value else '')]
    out.append('assumptions: ' + '; '.join('%s is %s' % (show(k), v) for k, v in list(p.state.facts.items())[:30]))
    evs = [e for e in p.events if e.kind not in ('enter', 'leave', 'iter', 'deref')]
    for e in evs[:limit]:
        out.append('  %s:%s %s %s %s' % (e.file, e.line, e.kind, e.name, ('-> ' + show(e.val)[:160]) if e.val is not None else ''))
    return '\n'.join(out)


# -- vocabulary of this code base ---------------------------------------------
SLOT = 'boost::asio::cancellation_slot'
SLOT_EMPLACE = SLOT + '::emplace'
SLOT_ASSIGN = SLOT + '::assign'
SLOT_CLEAR = SLOT + '::clear'
SLOT_CONN = SLOT + '::is_connected'
EMIT = 'boost::asio::cancellation_signal::emit'


def uniq(fs):
    seen, out = set(), []
    for f in fs:
        if f['id'] not in seen:
            seen.add(f['id'])
            out.append(f)
    return out
