"""Path-sensitive abstract interpretation over the resolved program.

The domain is finite: every memory location (root variable + field path) holds
an abstract value - a constant, the address of a location, the value a location
had on entry, or a named unknown - and a set of branch facts (atom -> bool)
prunes branches that contradict each other. Functions defined in the repository
are inlined through their resolved callees, everything else is an event. Loops
are iterated until the abstract state repeats, at most LOOP times. Nothing is
executed and no constraint is handed to a solver; the result of analysing a
function is its set of abstract paths: an outcome, a final store, and the
ordered events on the way.
"""
import re, itertools

DECIDED_ITERATIONS = 24
LOOP = 2
MAXDEPTH = 24
MAXPATHS = 60000



def quiet_await(db, e):
    """a co_await that neither suspends nor throws"""
    ms = [e.get(k) or {} for k in ('ready', 'suspend', 'resume')]
    if ms[0].get('cls') == 'std::suspend_never':
        return True
    return False


def await_cannot_throw(db, e):
    for k in ('ready', 'suspend', 'resume'):
        m = e.get(k) or {}
        b = db.fns.get(m.get('id')) if m else None
        if not m.get('ne') and not (b is not None and empty_body(b)):
            return False
    return True


def empty_body(f):
    b = f.get('body')
    return isinstance(b, dict) and not contains_call(b)


def contains_call(n):
    if isinstance(n, dict):
        if n.get('k') in ('call', 'ctor', 'new', 'throw', 'co_await', 'delete'):
            return True
        return any(contains_call(v) for v in n.values())
    if isinstance(n, list):
        return any(contains_call(v) for v in n)
    return False


class EngineError(Exception):
    pass


class Event:
    __slots__ = ('kind', 'name', 'fn', 'obj', 'args', 'line', 'file', 'val', 'extra', 'depth', 'func', 'argv')

    def __init__(s, kind, name='', fn=None, obj=None, args=(), line=0, file='', val=None, extra=None, depth=0, func=None, argv=()):
        s.kind, s.name, s.fn, s.obj, s.args, s.line, s.file, s.val, s.extra, s.depth, s.func, s.argv = \
            kind, name, fn, obj, args, line, file, val, extra, depth, func, argv

    def __repr__(s):
        return '%s %s obj=%s args=%s val=%s @%s:%s' % (s.kind, s.name, show(s.obj), [show(a) for a in s.args], show(s.val), s.file.split('/')[-1], s.line)


def show(v):
    if isinstance(v, tuple):
        if v and v[0] == 'L':
            return '&' + show_path(v[1])
        if v and v[0] == 'p':
            return 'ptr(' + show_path(v[1]) + ')'
        if v and v[0] == 'i':
            return 'init(' + show_path(v[1]) + ')'
        if v and v[0] == 'c':
            return str(v[1])
        if v and v[0] == 'e':
            return v[1].split('::')[-1]
        if v and v[0] == 'u':
            return '?%s' % (v[1],)
        if v and v[0] == 'o':
            return '%s(%s)' % (v[1], ', '.join(show(a) for a in v[2:]))
        if v and isinstance(v[0], tuple):
            return show_path(v)
        return '(' + ' '.join(show(x) for x in v) + ')'
    return str(v)


def show_path(p):
    out = []
    for i, s in enumerate(p):
        if i == 0 and isinstance(s, tuple):
            if s[0] == 'v':
                out.append(s[3] if len(s) > 3 else 'v%s' % (s[1],))
            elif s[0] == 'd':
                out.append('(*' + show(s[1]) + ')')
            elif s[0] == 't':
                out.append('tmp@%s' % (s[1],))
            else:
                out.append(str(s[-1]))
        else:
            out.append(s if isinstance(s, str) else show(s))
    return '.'.join(out)


class State:
    __slots__ = ('store', 'facts', 'trace', 'cnt', 'temps')

    def __init__(s):
        s.store = {}
        s.facts = {}
        s.trace = None      # linked list (prev, event, length)
        s.cnt = {}
        s.temps = ()

    def copy(s):
        n = State()
        n.store = dict(s.store)
        n.facts = dict(s.facts)
        n.trace = s.trace
        n.cnt = dict(s.cnt)
        n.temps = s.temps
        return n

    def events(s):
        out = []
        t = s.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Frame:
    """One activation: the inlined function, its context key and this-location."""
    __slots__ = ('fn', 'ctx', 'this', 'closure', 'parent', 'depth', 'opq')

    def __init__(s, fn, ctx, this, closure, parent):
        s.fn, s.ctx, s.this, s.closure, s.parent = fn, ctx, this, closure, parent
        s.depth = parent.depth + 1 if parent else 0
        s.opq = {}


class Thrown(tuple):
    """A raised exception: Thrown((value,))."""
    __slots__ = ()


def T(v):
    return isinstance(v, Thrown)


NULL = ('c', 0)
TRUE = ('c', 1)
FALSE = ('c', 0)


def cv(v):
    if isinstance(v, tuple) and v:
        if v[0] == 'c':
            return v[1]
        if v[0] == 'e':
            return v[2]
    return None


SCALAR = re.compile(r'\*$|^(unsigned |signed )?(long|int|char|short|bool)( long)?$|^std::size_t$')


def template_args(t):
    """top-level template arguments of a type"""
    i = t.find('<')
    out, depth, cur = [], 0, ''
    for c in t[i + 1:t.rfind('>')] if i >= 0 else '':
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
            continue
        depth += {'<': 1, '(': 1, '>': -1, ')': -1}.get(c, 0)
        cur += c
    return out + [cur.strip()] if cur.strip() else out


UNSIGNED = {'unsigned long': 64, 'unsigned long long': 64, 'unsigned int': 32, 'unsigned short': 16, 'unsigned char': 8}


def const_of(e):
    """the constant an expression is known to have, in the range of its type"""
    c = e['cv']
    if isinstance(c, int) and c < 0:
        b = UNSIGNED.get(bare(e.get('tc') or e.get('t') or ''))
        if b:
            return c + (1 << b)
    return c


def has_str(v, x):
    if isinstance(v, str):
        return x in v
    return isinstance(v, tuple) and any(has_str(y, x) for y in v)


class Path:
    __slots__ = ('outcome', 'value', 'state', '_ev', 'fn', 'n')

    def __init__(s, outcome, value, state):
        s.outcome, s.value, s.state = outcome, value, state
        s._ev = None

    @property
    def events(s):
        if s._ev is None:
            s._ev = s.state.events()
        return s._ev

    def calls(s, *names):
        return [e for e in s.events if e.kind == 'call' and e.name in names]


def short(n):
    i = n.find('::operator')
    if i >= 0 and not n[i + 10:i + 11].isalnum() and n[i + 10:i + 11] != '_':
        return n[i + 2:]
    return n.split('::')[-1]


def cls_of(n):
    i = n.find('::operator')
    if i >= 0 and not n[i + 10:i + 11].isalnum() and n[i + 10:i + 11] != '_':
        return n[:i]
    return n.rsplit('::', 1)[0] if '::' in n else ''


STD_PURE_CONST = True

SMART = ('std::unique_ptr', 'boost::cobalt::unique_handle', 'std::shared_ptr', 'std::coroutine_handle', 'std::exception_ptr',
         'std::__exception_ptr::exception_ptr', 'boost::intrusive_ptr')

IDENT_FNS = {'std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::__addressof', 'std::launder', 'std::move_if_noexcept', 'std::forward_like'}


class Engine:
    def __init__(self, db, opaque=(), may_throw=None, await_throws=False, inline=None, loop=LOOP, maxdepth=MAXDEPTH, on_unknown=None, keep_store=True,
                 nonnull_this=True, opaque_pred=None, assume_virtual=None, const_methods_pure=True, run_closures=(), record_loads=(), on_foreign=None, sizes=None, frees=False):
        self.db = db
        self.opaque = set(opaque)
        self.opaque_pred = opaque_pred
        self.may_throw = may_throw
        self.await_throws = await_throws
        self.on_foreign = on_foreign       # (engine, state, kind, name): code outside the analysed function runs and may change shared state
        self.frees = frees                 # what a destroyed coroutine frame held is marked as freed
        self.sizes = sizes                 # path of a container -> how many elements the analysis gives it (None: any number)
        self.loop = loop
        self.maxdepth = maxdepth
        self.inlined = set()
        self.paths = 0
        self.run_closures = set(run_closures)
        self.record_loads = set(record_loads)
        self.assume_virtual = assume_virtual or {}

    # ---- store -----------------------------------------------------------
    def load(self, st, path):
        s = st.store
        v = s.get(path)
        if v is not None:
            return v
        for k in range(len(path) - 1, 0, -1):
            v = s.get(path[:k])
            if v is not None:
                rest = path[k:]
                if v[0] == 'i':
                    return ('i', v[1] + rest)
                if v[0] == 'L':
                    return self.load(st, v[1] + rest)
                return ('o', 'fld', v) + rest
        if len(path) >= 1 and isinstance(path[0], tuple) and path[0][0] == 'g' and False:
            pass
        return ('i', path)

    def put(self, st, path, v):
        n = len(path)
        s = st.store
        dead = [k for k in s if len(k) > n and k[:n] == path]
        for k in dead:
            del s[k]
        s[path] = v

    def havoc(self, st, path, tag):
        self.put(st, path, ('u', tag, 'havoc'))

    def copy_tree(self, st, src, dst):
        if src == dst:
            return
        n = len(src)
        items = [(k[n:], v) for k, v in st.store.items() if len(k) > n and k[:n] == src]
        v = self.load(st, src)
        self.put(st, dst, v)
        for r, x in items:
            st.store[dst + r] = x

    def deref(self, v):
        """location a pointer value points to"""
        if v[0] == 'p':
            return v[1]
        if v[0] == 'L':
            return v[1]
        if v[0] == 'o' and v[1] == '+' and v[2][0] == 'p':
            return elem(v[2][1], v[3])
        return (('d', v),)

    # ---- unknowns --------------------------------------------------------
    def fresh(self, st, fr, site, what):
        key = (fr.ctx, site, what)
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        return ('u', what, fr.ctx, site, n)

    def temp(self, st, fr, e):
        site = id(e)
        key = ('tmp', fr.ctx, site)
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        return (('t', e.get('l', 0), fr.ctx, site, n),)

    # ---- facts -----------------------------------------------------------
    def truth(self, st, v):
        """list of (bool, state) for the truth value of v"""
        neg = False
        while True:
            c = cv(v)
            if c is not None:
                return [(bool(c) != neg, st)]
            if v[0] == 'o' and v[1] == '!':
                neg = not neg
                v = v[2]
                continue
            if v[0] == 'o' and v[1] == '!=':
                neg = not neg
                v = self.eq(v[2], v[3])
                continue
            if v[0] == 'o' and v[1] == '==':
                w = self.eq(v[2], v[3])
                if w != v:
                    v = w
                    continue
            break
        if v[0] in ('p', 'L', 'fn', 'lam'):
            return [(not neg, st)]
        f = st.facts.get(v)
        if f is not None:
            return [(f != neg, st)]
        # arithmetic facts that follow from earlier ones
        d = self.derive(st, v)
        if d is not None:
            return [(d != neg, st)]
        a = st
        b = st.copy()
        a.facts[v] = True
        b.facts[v] = False
        self.learn(a, v, True)
        self.learn(b, v, False)
        return [(True != neg, a), (False != neg, b)]

    def derive(self, st, v):
        if v[0] == 'o' and v[1] == '<':
            a, b = v[2], v[3]
            if a == b:
                return False
            if cv(a) is not None and cv(b) is not None:
                return cv(a) < cv(b)
            if st.facts.get(('o', '<', b, a)) is True:
                return False
            if st.facts.get(self.eq(a, b)) is True:
                return False
            # b > a known by b == const
        if v[0] == 'o' and v[1] == '==':
            a, b = v[2], v[3]
            # other constant already equal
            for x, y in ((a, b), (b, a)):
                if cv(y) is not None:
                    for f, t in st.facts.items():
                        if t and f[0] == 'o' and f[1] == '==' and f != v:
                            if f[2] == x and cv(f[3]) is not None and cv(f[3]) != cv(y):
                                return False
                            if f[3] == x and cv(f[2]) is not None and cv(f[2]) != cv(y):
                                return False
                    if cv(y) != 0 and st.facts.get(x) is False:
                        return False
            if st.facts.get(('o', '<', a, b)) is True or st.facts.get(('o', '<', b, a)) is True:
                return False
        return None

    def learn(self, st, v, t):
        # x == y with x null etc. keeps to single atoms; equality to a nonzero constant implies truth
        if v[0] == 'o' and v[1] == '==' and t:
            for x, y in ((v[2], v[3]), (v[3], v[2])):
                if cv(y) is not None and x not in st.facts:
                    st.facts[x] = bool(cv(y))
        if v[0] == 'o' and v[1] == '<' and t:
            # unsigned style: a < b means b != 0
            if v[3] not in st.facts and cv(v[3]) is None and v[3][0] != 'p':
                if cv(v[2]) is not None and cv(v[2]) >= 0:
                    st.facts[v[3]] = True

    def eq(self, a, b):
        ca, cb = cv(a), cv(b)
        if ca is not None and cb is not None:
            return TRUE if ca == cb else FALSE
        if a == b:
            return TRUE
        if ca == 0:
            return self.neg(b)
        if cb == 0:
            return self.neg(a)
        if a[0] in ('p', 'L') and b[0] in ('p', 'L'):
            if a[1] == b[1]:
                return TRUE
            def known(p):
                return isinstance(p[0], tuple) and p[0][0] in ('v', 't', 'this', 'obj', 'g')
            if known(a[1]) and known(b[1]) and a[1][0] != b[1][0]:
                return FALSE
            if a[1][:-1] == b[1][:-1] and all(isinstance(x[1][-1], tuple) and x[1][-1][0] == 'at' and isinstance(x[1][-1][1], int) for x in (a, b)):
                return FALSE
        if repr(b) < repr(a):
            a, b = b, a
        return ('o', '==', a, b)

    def neg(self, v):
        c = cv(v)
        if c is not None:
            return FALSE if c else TRUE
        if v[0] in ('p', 'L', 'fn', 'lam'):
            return FALSE
        if v[0] == 'o' and v[1] == '!':
            return v[2]
        return ('o', '!', v)

    def boolify(self, st, v):
        """normalise a value used as a condition, resolving it by facts when possible"""
        return v

    # ---- events ----------------------------------------------------------
    def emit(self, st, fr, kind, name='', e=None, **kw):
        ev = Event(kind, name, line=(e or {}).get('l', 0) if isinstance(e, dict) else 0, file=fr.fn['file'], depth=fr.depth, func=fr.fn, **kw)
        st.trace = (st.trace, ev)
        if (kind in ('reset', 'destroy', 'resume') or kind == 'call' and name.startswith('boost::intrusive::') and name.endswith('::unlink')) and ev.obj and ev.obj[0] == 'L':
            self.left_list(st, fr, e, ev)
        return ev

    def left_list(self, st, fr, e, ev):
        """the first element of an intrusive list was unlinked (or what holds it was destroyed): the list has another first one"""
        h = ev.obj[1][0]
        if isinstance(h, tuple) and h[0] == 'd':
            lst = st.store.get((('frontof', h[1]),))
            if lst is not None:
                self.put(st, lst[1], self.fresh(st, fr, id(e), 'unlinked'))
                del st.store[(('frontof', h[1]),)]

    # ---- entry points ----------------------------------------------------
    def run(self, fn, this=None, args=None, state=None, closure=None):
        """Abstract paths of fn. this: location path; args: list of values."""
        st = state.copy() if state is not None else State()
        if this is None and fn.get('cls') and not fn.get('static'):
            this = (('this', fn['n'].rsplit('::', 1)[0]),)
        fr = Frame(fn, (), this, closure, None)
        self.paths = 0
        out = []
        for o, v, s in self.invoke(fn, fr, args, st):
            out.append(Path(o, v, s))
        return out

    def run_closure(self, clo, state, args=None):
        """Run the call operator of a closure value created on an earlier path."""
        path = clo[1] if clo[0] in ('L', 'p') else clo
        v = self.load(state, path)
        if v[0] != 'lam':
            return None
        fns = v[1]
        out = []
        for fid in fns:
            fn = self.db.fns.get(fid)
            if fn is None:
                continue
            st = state.copy()
            st.trace = None
            fr = Frame(fn, ('clo',), path, path, None)
            for o, val, s in self.invoke(fn, fr, args, st):
                out.append(Path(o, val, s))
            break
        return out

    def param_path(self, fr, p):
        return (('v', p['id'], fr.ctx, p['n']),)

    def invoke(self, fn, fr, args, st):
        """bind parameters, run constructor initialisers and the body"""
        self.inlined.add(fn['id'])
        for i, p in enumerate(fn['params']):
            pp = self.param_path(fr, p)
            if args is not None and i < len(args) and args[i] is not None:
                v = args[i]
                if p.get('ref'):
                    st.store[pp] = ('p', v[1]) if v[0] == 'L' else (v if v[0] == 'p' else v)
                    if v[0] not in ('L', 'p'):
                        # reference bound to a scalar prvalue: materialise
                        tp = pp + ('&',)
                        st.store[tp] = v
                        st.store[pp] = ('p', tp)
                else:
                    if v[0] == 'L':
                        self.copy_tree(st, v[1], pp)
                    else:
                        st.store[pp] = v
            elif p.get('ref'):
                st.store[pp] = ('p', (('arg', p['n']),))
        body = fn.get('body')
        states = [(None, st)]
        if 'inits' in fn:
            states = [(None, st)]
            for ini in fn['inits']:
                nxt = []
                for thr, s in states:
                    if thr is not None:
                        nxt.append((thr, s))
                        continue
                    for r, s2 in self.run_init(ini, fr, s):
                        nxt.append((r if T(r) else None, s2))
                states = nxt
        res = []
        for thr, s in states:
            if thr is not None:
                res.append(('throw', thr[0], s))
                continue
            if body is None:
                if fn.get('assign') and fn.get('defaulted'):
                    pass
                res.append(('return', None, s))
                continue
            for o, v, s2 in self.exec(body, fr, s):
                if o in ('fall', 'return'):
                    res.append(('return', v if o == 'return' else None, s2))
                else:
                    res.append((o, v, s2))
        # by-value parameters with destructors die at the end
        out = []
        pd = [p for p in fn['params'] if p.get('dtor') and not p.get('ref')]
        if pd and body is not None and body.get('s') != 'coro':
            for o, v, s in res:
                cur = [(o, v, s)]
                for p in reversed(pd):
                    nxt = []
                    for o2, v2, s2 in cur:
                        for r, s3 in self.destroy(self.param_path(fr, p), p['dtor'], p.get('tc'), fr, s2, p):
                            nxt.append((o2, v2, s3))
                    cur = nxt
                out += cur
        else:
            out = res
        if len(out) > MAXPATHS:
            raise EngineError('path explosion in ' + fn['n'])
        return out

    def run_init(self, ini, fr, st):
        if 'f' in ini:
            path = fr.this + (ini['f'],)
            e = ini['e']
            if ini.get('ref'):
                out = []
                for v, s in self.eval(e, fr, st):
                    if T(v):
                        out.append((v, s))
                        continue
                    s.store[path] = ('p', v[1]) if v[0] == 'L' else v
                    out.append((None, s))
                return out
            out = []
            for v, s in self.construct(path, e, fr, st):
                if not T(v):
                    self.emit(s, fr, 'store', ini['f'], ini, obj=('L', path), val=self.load(s, path), extra='init')
                out.append((v, s))
            return out
        if 'b' in ini or 'd' in ini:
            return self.construct(fr.this, ini['e'], fr, st, base=ini.get('b'))
        return [(None, st)]

    # ---- construction ----------------------------------------------------
    def construct(self, path, e, fr, st, base=None):
        """evaluate initialiser e into location path"""
        if e is None:
            return [(None, st)]
        k = e['k']
        if k in ('full', 'tmp', 'defarg'):
            return self.construct(path, e['e'], fr, st, base)
        if k == 'ctor':
            if e.get('elid') and e['a']:
                return self.construct(path, e['a'][0], fr, st, base)
            return self.do_ctor(path, e, fr, st, base)
        if k == 'list':
            return self.do_list(path, e, fr, st)
        if k == 'zero':
            if base is None:
                self.put(st, path, NULL)
            return [(None, st)]
        out = []
        for v, s in self.eval(e, fr, st):
            if T(v):
                out.append((v, s))
                continue
            if v is None:
                v = self.fresh(s, fr, id(e), 'void')
            if v[0] == 'L':
                self.copy_tree(s, v[1], path)
            else:
                self.put(s, path, v)
            out.append((None, s))
        return out

    def fields_flat(self, tc):
        r = self.db.recs.get(tc)
        if not r or 'fields' not in r:
            return None
        return r

    def do_list(self, path, e, fr, st):
        r = self.db.recs.get(e.get('tc') or '')
        slots = []
        if r and 'fields' in r:
            slots = [('base', b) for b in r.get('bases', [])] + [('f', f) for f in r['fields']]
        elif e.get('flds'):
            slots = [('f', {'n': f}) for f in e['flds']]
        states = [(None, st)]
        for i, x in enumerate(e['a']):
            nxt = []
            for thr, s in states:
                if thr is not None:
                    nxt.append((thr, s))
                    continue
                if i < len(slots):
                    kind, f = slots[i]
                    if kind == 'base':
                        rs = self.construct(path, x, fr, s, base=f)
                    elif f.get('ref'):
                        rs = []
                        for v, s2 in self.eval(x, fr, s):
                            if T(v):
                                rs.append((v, s2))
                            else:
                                s2.store[path + (f['n'],)] = ('p', v[1]) if v[0] == 'L' else v
                                rs.append((None, s2))
                    else:
                        rs = self.construct(path + (f['n'],), x, fr, s)
                else:
                    if len(e['a']) == 1 and not slots and not re.search(r'\[\d*\]$', e.get('t') or ''):
                        rs = self.construct(path, x, fr, s)
                    else:
                        rs = self.construct(elem(path, ('c', i)), x, fr, s)
                for v, s2 in rs:
                    nxt.append((v if T(v) else None, s2))
            states = nxt
        if not e['a'] and not slots:
            self.put(st, path, NULL)
        return [(t, s) for t, s in states]

    def args_eval(self, es, fr, st):
        res = [([], st)]
        for x in es:
            nxt = []
            for vs, s in res:
                if T(vs):
                    nxt.append((vs, s))
                    continue
                for v, s2 in self.eval(x, fr, s):
                    nxt.append((v if T(v) else vs + [v], s2))
            res = nxt
        return res

    def do_ctor(self, path, e, fr, st, base=None):
        fn = e['fn']
        cls = fn['n'].rsplit('::', 1)[0]
        out = []
        for args, s in self.args_eval(e['a'], fr, st):
            if T(args):
                out.append((args, s))
                continue
            out += self.ctor_with(path, e, fn, cls, args, fr, s, base)
        return out

    def ctor_with(self, path, e, fn, cls, args, fr, s, base=None):
        body = self.db.fns.get(fn['id'])
        kind = fn.get('ctor')
        if fn['n'] in self.opaque or cls in self.opaque:
            return self.ext_ctor(path, e, fn, cls, args, fr, s)
        if self.modelled(cls):
            return self.model_ctor(path, e, fn, cls, args, fr, s)
        if cls.endswith('(lambda)'):
            if args and args[0][0] == 'L':
                self.copy_tree(s, args[0][1], path)
            return [(None, s)]
        if body is not None and ('inits' in body or 'body' in body) and fr.depth < self.maxdepth and not self.recursing(fr, body):
            sub = Frame(body, fr.ctx + (e.get('l', 0), id(e)), path, None, fr)
            out = []
            for o, v, s2 in self.invoke(body, sub, args, s):
                if o == 'throw':
                    out.append((Thrown((v,)), s2))
                else:
                    out.append((None, s2))
            return out
        if base:        # a base of the library leaves the members that were already made alone
            keep = {k: v for k, v in s.store.items() if len(k) > len(path) and k[:len(path)] == path}
            out = self.ext_ctor(path, e, fn, cls, args, fr, s)
            for _, s2 in out:
                s2.store.update(keep)
            return out
        return self.ext_ctor(path, e, fn, cls, args, fr, s)

    def ext_ctor(self, path, e, fn, cls, args, fr, s):
        kind = fn.get('ctor')
        if cls in ITERS and len(args) == 1 and is_it(self.val(s, args[0])):
            self.put(s, path, self.val(s, args[0]))
            return [(None, s)]
        if kind in ('copy', 'move') and args and args[0][0] == 'L':
            # the copy holds what the source held
            if self.db.recs.get(fn.get('cls'), {}).get('fields') is not None or True:
                self.copy_tree(s, args[0][1], path)
            self.emit(s, fr, 'copy' if kind == 'copy' else 'move', cls, e, obj=('L', path), args=tuple(args))
            return [(None, s)]
        if kind == 'default' and not args:
            self.put(s, path, ('o', 'new', cls))
            if cls == 'std::vector':
                s.store[path + ('#',)] = ('c', 0)
            self.emit(s, fr, 'ctor', cls, e, obj=('L', path), args=tuple(args), fn=fn)
            return self.maybe_throw(s, fr, e, cls, fn)
        vals = tuple(self.val(s, a) for a in args)
        self.put(s, path, ('o', 'new', cls) + vals)
        if cls == 'std::vector' and 'vector<bool' not in (fn.get('cls') or ''):
            c = cv(vals[0]) if vals else None
            if isinstance(c, int) and len(vals) <= 2:
                s.store[path + ('#',)] = ('c', c)
                m = re.match(r'std::vector<([^<>]*?)(,|>$)', fn.get('cls') or '')
                fill = vals[1] if len(vals) == 2 and not has_str(vals[1], 'alloc') else NULL if m and SCALAR.search(m.group(1)) else None
                for k in range(min(c, 16) if fill is not None else 0):
                    s.store[elem(path, ('c', k))] = fill
            elif len(vals) == 1 and has_str(vals[0], 'alloc'):
                s.store[path + ('#',)] = ('c', 0)
        m = re.match(r'std::tuple<', fn.get('cls') or '') if cls == 'std::tuple' else None
        if m and args and len(args) == len(template_args(fn['cls'])) and not (len(args) == 1 and 'std::tuple<' in str(e['a'][0].get('tc'))):
            for k, a in enumerate(args):
                place(self, s, path + (('get', k),), a)
        if cls == 'std::pair' and len(args) == 2:
            for n, a in zip(('first', 'second'), args):
                place(self, s, path + (n,), a)
        ev = self.emit(s, fr, 'ctor', cls, e, obj=('L', path), args=tuple(args), fn=fn, argv=vals)
        self.havoc_args(s, fr, fn, args, e)
        return self.maybe_throw(s, fr, e, cls, fn)

    def maybe_throw(self, s, fr, e, name, fn, ret=None):
        if self.may_throw and self.may_throw(name, fn, fr):
            s2 = s.copy()
            v = self.fresh(s2, fr, id(e), 'exc')
            self.emit(s2, fr, 'raise', name, e, val=v)
            return [(ret, s), (Thrown((v,)), s2)]
        return [(ret, s)]

    def recursing(self, fr, fn):
        n = 0
        f = fr
        while f:
            if f.fn['id'] == fn['id']:
                n += 1
            f = f.parent
        return n > 1

    # ---- modelled library types ------------------------------------------
    def modelled(self, cls):
        return cls in MODELS

    def val(self, st, v):
        """abstract value of an argument: loads lvalues"""
        if v is None:
            return None
        if v[0] == 'L':
            return self.load(st, v[1])
        return v

    def model_ctor(self, path, e, fn, cls, args, fr, s):
        kind = fn.get('ctor')
        m = MODELS[cls]
        if m == 'ptr':
            if not args:
                self.put(s, path, NULL)
            else:
                a = args[0]
                v = self.val(s, a)
                if a[0] == 'L' and kind == 'move' or (a[0] == 'L' and fn.get('pk', ['v'])[0] == 'rr'):
                    # ownership moves
                    if cls not in NOT_MOVED:
                        self.put(s, a[1], NULL)
                self.put(s, path, v)
            self.emit(s, fr, 'ctor', cls, e, obj=('L', path), args=tuple(args), val=self.load(s, path), fn=fn)
            return [(None, s)]
        if m == 'opt':
            if not args or (args[0][0] == 'o' and 'nullopt' in str(args[0])) or 'nullopt' in str(e['a'][:1]):
                self.put(s, path, ('o', 'opt'))
                s.store[path + ('?',)] = FALSE
                return [(None, s)]
            a = args[0]
            if kind in ('copy', 'move') and a[0] == 'L':
                self.copy_tree(s, a[1], path)
                self.emit(s, fr, 'move' if kind == 'move' else 'copy', cls, e, obj=('L', path), args=tuple(args))
                return [(None, s)]
            if a[0] == 'L':
                self.copy_tree(s, a[1], path + ('*',))
                s.store[path] = ('o', 'opt')
            else:
                self.put(s, path, ('o', 'opt'))
                s.store[path + ('*',)] = a
            s.store[path + ('?',)] = TRUE
            self.emit(s, fr, 'engage', cls, e, obj=('L', path), args=tuple(args))
            return self.maybe_throw(s, fr, e, cls, fn)
        if m == 'res':
            if kind in ('copy', 'move') and args and args[0][0] == 'L':
                self.copy_tree(s, args[0][1], path)
                return [(None, s)]
            self.put(s, path, ('o', 'res', cls))
            if not args:
                s.store[path + ('?',)] = TRUE
                s.store[path + ('*',)] = NULL
            else:
                tag = self.val(s, args[0])
                st0 = self.arg_type(e, 0)
                rest = args[1:]
                if 'in_place_value' in str(tag) or 'in_place_value' in str(args[0]):
                    ok = True
                elif 'in_place_error' in str(tag) or 'in_place_error' in str(args[0]):
                    ok = False
                else:
                    rest = args
                    et = e.get('tc', '').rsplit(', ', 1)[-1].rstrip('>').strip()
                    if st0.startswith('boost::system::result<') and args[0][0] == 'L':
                        self.copy_tree(s, args[0][1], path)
                        return [(None, s)]
                    ok = not (st0 and (st0 == et or (et.endswith('error_code') and (st0.endswith('error_code') or 'error' in st0 and '::' in st0))))
                s.store[path + ('?',)] = TRUE if ok else FALSE
                q = path + ('*' if ok else '!',)
                if not rest:
                    s.store[q] = NULL
                elif len(rest) == 1:
                    if rest[0][0] == 'L':
                        self.copy_tree(s, rest[0][1], q)
                    else:
                        s.store[q] = rest[0]
                else:
                    s.store[q] = ('o', 'new', 'T') + tuple(self.val(s, a) for a in rest)
            self.emit(s, fr, 'ctor', cls, e, obj=('L', path), args=tuple(args), fn=fn, val=s.store.get(path + ('?',)))
            return [(None, s)]
        return self.ext_ctor(path, e, fn, cls, args, fr, s)

    def arg_type(self, e, i):
        a = e.get('a') or []
        if i >= len(a):
            return ''
        x = a[i]
        while x is not None and not x.get('tc') and not x.get('t') and x.get('k') in ('full', 'tmp', 'defarg', 'cast', 'rv'):
            x = x.get('e')
        return ((x or {}).get('tc') or (x or {}).get('t') or '').replace('const ', '').strip(' &')

    # ---- destruction -----------------------------------------------------
    def gone(self, s, h):
        """the coroutine h was destroyed"""
        if not self.frees:
            return
        pp = self.promise_ptr(h)
        self.put(s, self.deref(pp), ('o', 'freed', pp))
        if callable(self.frees):
            self.frees(self, s, h)

    def destroy(self, path, dtor, tc, fr, st, e):
        fn = self.db.fns.get(dtor['id']) if dtor else None
        cls = dtor['n'].rsplit('::', 1)[0] if dtor else ''
        if cls in ('boost::cobalt::unique_handle', 'std::unique_ptr') and cls in MODELS:
            v = self.load(st, path)
            c = cv(v)
            if c is not None and not c:
                return [(None, st)]
            out = []
            for t, s in self.truth(st, v):
                if t:
                    self.emit(s, fr, 'dtor', cls, e, obj=('L', path), val=v)
                    if cls == 'boost::cobalt::unique_handle':
                        self.gone(s, v)
                    dl = self.deleter_of(tc)
                    if dl is not None:
                        sub = Frame(dl, fr.ctx + ('del', id(dl)), path + ('del',), None, fr)
                        for o, rv, s2 in self.invoke(dl, sub, [v], s):
                            self.put(s2, path, NULL)
                            out.append((None, s2))
                        continue
                    self.put(s, path, NULL)
                out.append((None, s))
            return out
        if fn is not None and 'body' in fn and fr.depth < self.maxdepth and not self.recursing(fr, fn) and dtor['n'] not in self.opaque and not MODELS.get(cls):
            sub = Frame(fn, fr.ctx + ('~', id(e)), path, None, fr)
            self.emit(st, fr, 'dtor', cls, e, obj=('L', path), extra='body')
            out = []
            for o, v, s in self.invoke(fn, sub, [], st):
                cur = [s]
                # members
                cur = self.destroy_members(path, fn.get('cls'), fr, cur, e)
                out += [(None, x) for x in cur]
            return out
        self.emit(st, fr, 'dtor', cls, e, obj=('L', path), val=self.load(st, path))
        return [(None, st)]

    def destroy_members(self, path, cls, fr, states, e):
        r = self.db.recs.get(cls or '')
        if not r or 'fields' not in r:
            return states
        for f in reversed(r['fields']):
            if f.get('dtor'):
                nxt = []
                for s in states:
                    nxt += [x for _, x in self.destroy(path + (f['n'],), f['dtor'], f.get('tc'), fr, s, e)]
                states = nxt
        return states

    def deleter_of(self, tc):
        """operator() of a repository deleter in unique_ptr<T, D>"""
        if not tc or not tc.startswith('std::unique_ptr<'):
            return None
        for f in self.db.fns.values():
            if f['n'].endswith('::operator()') and f.get('cls') and tc.endswith(', ' + f['cls'].split('|')[-1].split('@')[0] + '>') and 'body' in f:
                return f
        return None

    # ---- statements ------------------------------------------------------
    def exec(self, n, fr, st):
        if n is None:
            return [('fall', None, st)]
        k = n['s']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            return self.x_other(n, fr, st)
        return m(n, fr, st)

    def x_null(self, n, fr, st):
        return [('fall', None, st)]

    def x_other(self, n, fr, st):
        return [('fall', None, st)]

    def x_label(self, n, fr, st):
        return self.exec(n['b'], fr, st)

    def x_expr(self, n, fr, st):
        out = []
        for v, s in self.eval(n['e'], fr, st):
            out.append(('throw', v[0], s) if T(v) else ('fall', None, s))
        return out

    def x_block(self, n, fr, st):
        return self.run_list(n['b'], 0, fr, st)

    def decls_in(self, stmts):
        out = []
        for s in stmts:
            if s and s['s'] == 'decl':
                out += s['v']
        return out

    def run_list(self, stmts, start, fr, st):
        """a statement list with scope: destroys its locals on every exit"""
        done = []
        cur = [((), st)]
        for s in stmts[start:]:
            nxt = []
            for live, x in cur:
                if s is None:
                    nxt.append((live, x))
                    continue
                for o, v, x2 in self.exec(s, fr, x):
                    lv = live
                    if s['s'] == 'decl':
                        lv = live + tuple(d for d in s['v'] if d.get('dtor') and not d.get('ref') and not d.get('static'))
                    if o == 'fall':
                        nxt.append((lv, x2))
                    else:
                        done.append((o, v, lv if o != 'throw' or s['s'] != 'decl' else live, x2))
            cur = nxt
            if len(cur) > MAXPATHS:
                raise EngineError('path explosion in %s' % fr.fn['n'])
        done += [('fall', None, lv, x) for lv, x in cur]
        out = []
        for o, v, live, x in done:
            sts = [x]
            for d in reversed(live):
                p = (('v', d['id'], fr.ctx, d['n']),)
                # an object returned by name does not die here
                if o == 'return' and v is not None and v[0] == 'L' and v[1][:1] == p:
                    continue
                nx = []
                for y in sts:
                    nx += [z for _, z in self.destroy(p, d['dtor'], d.get('tc'), fr, y, d)]
                sts = nx
            out += [(o, v, y) for y in sts]
        return self.dedupe(out)

    def dedupe(self, out):
        return out

    def var_path(self, d, fr):
        if d.get('static'):
            return (('g', d['id'][2:]),)
        return (('v', d['id'], fr.ctx, d['n']),)

    def x_decl(self, n, fr, st):
        res = [(None, st)]
        for d in n['v']:
            nxt = []
            for thr, s in res:
                if thr is not None:
                    nxt.append((thr, s))
                    continue
                for r, s2 in self.decl_var(d, fr, s):
                    nxt.append((r if T(r) else None, s2))
            res = nxt
        return [('throw', t[0], s) if t is not None else ('fall', None, s) for t, s in res]

    def decl_var(self, d, fr, st):
        p = self.var_path(d, fr)
        e = d.get('e')
        if d.get('bind'):
            rs = self.construct(p, e, fr, st) if not d.get('ref') else self.bind_ref(p, e, fr, st)
            out = []
            for r, s in rs:
                if T(r):
                    out.append((r, s))
                    continue
                cur = [(None, s)]
                for b in d['bind']:
                    if 'id' in b and 'e' in b:
                        nx = []
                        for t, x in cur:
                            nx += self.bind_ref((('v', b['id'], fr.ctx, b['n']),), b['e'], fr, x) if b.get('ref') else self.construct((('v', b['id'], fr.ctx, b['n']),), b['e'], fr, x)
                        cur = nx
                out += cur
            return out
        if d.get('ref'):
            return self.bind_ref(p, e, fr, st)
        if d.get('static'):
            # initialised once, by whichever call comes first; afterwards it
            # holds what its initialiser gave it
            if p in st.store or e is None or 'exception_ptr' not in str(d.get('dtor')):
                return [(None, st)]
            return self.construct(p, e, fr, st)
        if e is None:
            self.put(st, p, ('u', 'uninit', fr.ctx, d['id']))
            return [(None, st)]
        out = []
        for r, s in self.construct(p, e, fr, st):
            if not T(r):
                self.emit(s, fr, 'store', d['n'], d, obj=('L', p), val=self.load(s, p), extra='decl')
            out.append((r, s))
        return out

    def bind_ref(self, p, e, fr, st):
        out = []
        for v, s in self.eval(e, fr, st):
            if T(v):
                out.append((v, s))
                continue
            if v is not None and v[0] == 'L':
                s.store[p] = ('p', v[1])
            else:
                tp = p + ('&',)
                s.store[tp] = v if v is not None else NULL
                s.store[p] = ('p', tp)
            out.append((None, s))
        return out

    def cond(self, n, fr, st):
        """evaluate a condition with optional condition variable"""
        out = []
        if n.get('cv'):
            for o, v, s in self.exec(n['cv'], fr, st):
                if o == 'throw':
                    out.append((Thrown((v,)), s))
                else:
                    out += self.branch(n['c'], fr, s)
            return out
        return self.branch(n['c'], fr, st)

    def branch(self, c, fr, st):
        out = []
        for v, s in self.eval(c, fr, st):
            if T(v):
                out.append((v, s))
                continue
            v = self.val(s, v) if v is not None and v[0] == 'L' and not self.is_obj(c) else v
            for t, s2 in self.truth(s, v):
                self.emit(s2, fr, 'branch', '', c, val=v, extra=t)
                out.append((t, s2))
        return out

    def is_obj(self, c):
        return False

    def x_if(self, n, fr, st):
        pre = [('fall', None, st)]
        if n.get('init'):
            pre = self.exec(n['init'], fr, st)
        out = []
        decls = []
        for d in (n.get('init'), n.get('cv')):
            if d and d['s'] == 'decl':
                decls += [v for v in d['v'] if v.get('dtor') and not v.get('ref')]
        for o, v, s in pre:
            if o != 'fall':
                out.append((o, v, s))
                continue
            if n.get('constexpr') and 'cval' in n:
                out += self.exec(n['t'] if n['cval'] else n.get('f'), fr, s)
                continue
            if 'consteval' in n:
                out += self.exec(n['t'] if n['consteval'] else n.get('f'), fr, s)
                continue
            for t, s2 in self.cond(n, fr, s):
                if T(t):
                    out.append(('throw', t[0], s2))
                    continue
                out += self.exec(n['t'] if t else n.get('f'), fr, s2)
        if decls:
            res = []
            for o, v, s in out:
                sts = [s]
                for d in reversed(decls):
                    nx = []
                    for y in sts:
                        nx += [z for _, z in self.destroy((('v', d['id'], fr.ctx, d['n']),), d['dtor'], d.get('tc'), fr, y, d)]
                    sts = nx
                res += [(o, v, y) for y in sts]
            return res
        return out

    def snapshot(self, s):
        return (frozenset(s.store.items()), frozenset(s.facts.items()))

    def loop_(self, n, fr, st, cond, body, inc, post_cond=False):
        out = []
        cur = [(st, 0)]
        seen = set()
        # iterations whose condition is decided do not count against the bound (up to a limit)
        for it in range(max(self.loop, DECIDED_ITERATIONS) + 1):
            nxt = []
            for s, k in cur:
                key = self.snapshot(s)
                if key in seen:
                    # fixpoint reached for this state: it leaves like the earlier one did
                    continue
                seen.add(key)
                if cond is None or (post_cond and it == 0):
                    tests = [(True, s)]
                    k += cond is None
                else:
                    tests = self.cond(cond, fr, s)
                    k += len(tests) != 1
                for t, s2 in tests:
                    if T(t):
                        out.append(('throw', t[0], s2))
                    elif not t:
                        self.emit(s2, fr, 'loopend', '', n, extra='done')
                        out.append(('fall', None, s2))
                    elif k <= self.loop and it < DECIDED_ITERATIONS:
                        self.emit(s2, fr, 'iter', '', n, extra=it)
                        for o, v, s3 in self.exec(body, fr, s2):
                            if o in ('fall', 'continue'):
                                if inc is not None:
                                    for v4, s4 in self.eval(inc, fr, s3):
                                        if T(v4):
                                            out.append(('throw', v4[0], s4))
                                        else:
                                            nxt.append((s4, k))
                                else:
                                    nxt.append((s3, k))
                            elif o == 'break':
                                self.emit(s3, fr, 'loopend', '', n, extra='break')
                                out.append(('fall', None, s3))
                            else:
                                out.append((o, v, s3))
                    # beyond the bound: the path is cut (recorded)
            cur = nxt
            if not cur:
                break
        return out

    def x_while(self, n, fr, st):
        return self.loop_(n, fr, st, n, n['b'], None)

    def x_do(self, n, fr, st):
        return self.loop_(n, fr, st, n, n['b'], None, post_cond=True)

    def x_for(self, n, fr, st):
        out = []
        for o, v, s in (self.exec(n['init'], fr, st) if n.get('init') else [('fall', None, st)]):
            if o != 'fall':
                out.append((o, v, s))
                continue
            c = {'c': n['c']} if n.get('c') else None
            out += self.loop_(n, fr, s, c, n['b'], n.get('inc'))
        return out

    def x_range(self, n, fr, st):
        out = []
        cur = [st]
        for part in ('init', 'range', 'begin', 'end'):
            if not n.get(part):
                continue
            nx = []
            for s in cur:
                for o, v, s2 in self.exec(n[part], fr, s):
                    if o == 'fall':
                        nx.append(s2)
                    else:
                        out.append((o, v, s2))
            cur = nx
        body = {'s': 'block', 'b': [n['var'], n['b']], 'l': n['l']}
        for s in cur:
            out += self.loop_(n, fr, s, {'c': n['c']}, body, n['inc'])
        return out

    def x_switch(self, n, fr, st):
        out = []
        pre = self.exec(n['init'], fr, st) if n.get('init') else [('fall', None, st)]
        body = n['b']
        stmts = body['b'] if body and body['s'] == 'block' else [body]
        # flatten nested case labels
        entries = []
        flat = []
        for s in stmts:
            labels = []
            while s is not None and s['s'] in ('case', 'default'):
                labels.append((s.get('v'), s.get('v2')) if s['s'] == 'case' else 'default')
                s = s['b']
            for l in labels:
                entries.append((l, len(flat)))
            flat.append(s)
        for o, v, s in pre:
            if o != 'fall':
                out.append((o, v, s))
                continue
            if n.get('cv'):
                cvs = self.exec(n['cv'], fr, s)
            else:
                cvs = [('fall', None, s)]
            for o1, v1, s1 in cvs:
                if o1 != 'fall':
                    out.append((o1, v1, s1))
                    continue
                for c, s2 in self.eval(n['c'], fr, s1):
                    if T(c):
                        out.append(('throw', c[0], s2))
                        continue
                    c = self.val(s2, c)
                    remaining = [s2]
                    dflt = None
                    for l, idx in entries:
                        if l == 'default':
                            dflt = idx
                            continue
                        nr = []
                        for r in remaining:
                            if l[1] is not None:
                                lo, hi = l
                                k = cv(c)
                                if k is not None:
                                    tests = [(lo <= k <= hi, r)]
                                else:
                                    tests = self.truth(r, ('o', 'inrange', c, ('c', lo), ('c', hi)))
                            else:
                                tests = self.truth(r, self.eq(c, ('c', l[0]))) if l[0] is not None else [(True, r.copy()), (False, r)]
                            for t, s3 in tests:
                                if t:
                                    self.emit(s3, fr, 'branch', 'case', n, val=c, extra=l[0])
                                    out += self.switch_body(flat, idx, fr, s3)
                                else:
                                    nr.append(s3)
                        remaining = nr
                    for r in remaining:
                        self.emit(r, fr, 'branch', 'case', n, val=c, extra='default')
                        if dflt is not None:
                            out += self.switch_body(flat, dflt, fr, r)
                        else:
                            out.append(('fall', None, r))
        return out

    def switch_body(self, flat, idx, fr, s):
        res = []
        for o, v, x in self.run_list(flat, idx, fr, s):
            res.append(('fall', None, x) if o == 'break' else (o, v, x))
        return res

    def x_case(self, n, fr, st):
        return self.exec(n['b'], fr, st)

    x_default = x_case

    def x_ret(self, n, fr, st):
        e = n.get('e')
        if e is None:
            return [('return', None, st)]
        out = []
        ret = fr.fn.get('ret', '')
        for v, s in self.eval_ret(e, fr, st):
            if T(v):
                out.append(('throw', v[0], s))
            else:
                self.emit(s, fr, 'return', '', n, val=v)
                out.append(('return', v, s))
        return out

    def eval_ret(self, e, fr, st):
        return self.eval(e, fr, st)

    def x_co_return(self, n, fr, st):
        e = n.get('p') or n.get('e')
        if n.get('e') is None:
            self.emit(st, fr, 'co_return', '', n)
            return [('return', None, st)]
        out = []
        for v, s in self.eval(n['e'], fr, st):
            if T(v):
                out.append(('throw', v[0], s))
            else:
                self.emit(s, fr, 'co_return', '', n, val=v)
                out.append(('return', v, s))
        return out

    def x_break(self, n, fr, st):
        return [('break', None, st)]

    def x_continue(self, n, fr, st):
        return [('continue', None, st)]

    def x_goto(self, n, fr, st):
        raise EngineError('goto in ' + fr.fn['n'])

    def x_try(self, n, fr, st):
        out = []
        for o, v, s in self.exec(n['b'], fr, st):
            if o != 'throw':
                out.append((o, v, s))
                continue
            handled = False
            for h in n['h']:
                catch_all = 'v' not in h
                if catch_all:
                    s2 = s
                else:
                    m = self.catches(h, v)
                    if m is False:
                        continue
                    s2 = s if m else s.copy()
                    vp = (('v', h['v']['id'], fr.ctx, h['v']['n']),)
                    if h['v'].get('ref'):
                        s2.store[vp] = ('p', (('exc', v),))
                    else:
                        self.put(s2, vp, v)
                    if m is None:
                        pass
                self.emit(s2, fr, 'catch', h.get('t', '...'), h['b'], val=v)
                old = s2.store.get(('cur-exc',))
                s2.store[('cur-exc',)] = v
                for o2, v2, s3 in self.exec(h['b'], fr, s2):
                    if old is None:
                        s3.store.pop(('cur-exc',), None)
                    else:
                        s3.store[('cur-exc',)] = old
                    out.append((o2, v2, s3))
                if catch_all or self.catches(h, v):
                    handled = True
                    break
            if not handled:
                out.append((o, v, s))
        return out

    def catches(self, h, v):
        """True/False/None(maybe)"""
        if v[0] == 'o' and v[1] == 'new':
            t = h['t'].replace('const ', '').replace('&', '').strip()
            return True if v[2].split('<')[0] == t.split('<')[0] else None
        return None

    def x_coro(self, n, fr, st):
        return self.exec(n['b'], fr, st)

    # ---- expressions -----------------------------------------------------
    def eval(self, e, fr, st):
        if e is None:
            return [(None, st)]
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return [(self.fresh(st, fr, id(e), k), st)]
        return m(e, fr, st)

    def e_other(self, e, fr, st):
        out = []
        for vs, s in self.args_eval(e.get('a', []), fr, st):
            out.append((vs, s) if T(vs) else (self.fresh(s, fr, id(e), e.get('c', 'other')), s))
        return out

    def e_full(self, e, fr, st):
        saved = st.temps
        st.temps = ()
        out = []
        for v, s in self.eval(e['e'], fr, st):
            temps = s.temps
            s.temps = saved
            sts = [s]
            for (p, d, tc) in reversed(temps):
                if v is not None and not T(v) and v[0] == 'L' and v[1][:len(p)] == p:
                    continue
                nx = []
                for y in sts:
                    nx += [z for _, z in self.destroy(p, d, tc, fr, y, e)]
                sts = nx
            out += [(v, y) for y in sts]
        return out

    def e_tmp(self, e, fr, st):
        out = []
        for v, s in self.eval(e['e'], fr, st):
            if not T(v) and v is not None and v[0] == 'L' and v[1][0][0] == 't' and e.get('dtor'):
                s.temps = s.temps + ((v[1], e['dtor'], e.get('tc')),)
            out.append((v, s))
        return out

    def e_defarg(self, e, fr, st):
        return self.eval(e['e'], fr, st)

    def e_opaque(self, e, fr, st):
        if e['id'] in fr.opq:
            return [(fr.opq[e['id']], st)]
        out = []
        for v, s in self.eval(e.get('e'), fr, st):
            out.append((v, s))
        return out

    def e_rv(self, e, fr, st):
        out = []
        for v, s in self.eval(e['e'], fr, st):
            if T(v) or v is None:
                out.append((v, s))
            else:
                if v[0] == 'L' and self.record_loads and v[1] and v[1][-1] in self.record_loads:
                    self.emit(s, fr, 'load', v[1][-1], e, obj=v, val=self.load(s, v[1]))
                out.append((self.load(s, v[1]) if v[0] == 'L' else v, s))
        return out

    def e_upcast(self, e, fr, st):
        return self.eval(e['e'], fr, st)

    e_downcast = e_upcast

    def e_tobool(self, e, fr, st):
        return self.e_rv(e, fr, st)

    def e_cast(self, e, fr, st):
        if 'cv' in e and e.get('ck') in ('IntegralCast', 'IntegralToBoolean'):
            inner = e['e']
            while inner and inner.get('k') in ('cast', 'rv') and 'e' in inner:
                inner = inner['e']
            if inner and inner['k'] == 'enum':
                return [(('e', inner['n'], e['cv']), st)]
            return [(('c', const_of(e)), st)]
        return self.eval(e['e'], fr, st)

    def e_tovoid(self, e, fr, st):
        return [(v if T(v) else None, s) for v, s in self.eval(e['e'], fr, st)]

    def e_fn(self, e, fr, st):
        return [(('fn', e['fn']['id'], e['fn']['n']), st)]

    def e_memfn(self, e, fr, st):
        return [(('fn', e['fn']['id'], e['fn']['n']), st)]

    def e_enum(self, e, fr, st):
        return [(('e', e['n'], e['v']), st)]

    def e_int(self, e, fr, st):
        return [(('c', e['v']), st)]

    def e_bool(self, e, fr, st):
        return [(('c', 1 if e['v'] else 0), st)]

    def e_null(self, e, fr, st):
        return [(NULL, st)]

    def e_zero(self, e, fr, st):
        return [(NULL, st)]

    def e_str(self, e, fr, st):
        return [(('o', 'str', e.get('v', '')), st)]

    def e_float(self, e, fr, st):
        return [(('o', 'float'), st)]

    def e_srcloc(self, e, fr, st):
        return [(('o', 'srcloc'), st)]

    def e_ntp(self, e, fr, st):
        return [(('o', 'ntp', e['n']), st)]

    def e_sizeof(self, e, fr, st):
        if 'cv' in e:
            return [(('c', const_of(e)), st)]
        return [(('o', e['op'], e['t']), st)]

    def e_offsetof(self, e, fr, st):
        return [(('c', const_of(e)) if 'cv' in e else ('o', 'offsetof', e['n']), st)]

    def e_this(self, e, fr, st):
        f = fr
        if f.closure is not None:
            v = st.store.get(f.closure + ('cap:this',))
            if v is not None:
                return [(v, st)]
            return [(('i', f.closure + ('cap:this',)), st)]
        return [(('p', f.this), st)]

    def e_var(self, e, fr, st):
        if 'cv' in e and not e.get('parm'):
            return [(('c', const_of(e)), st)]
        if 'g' in e:
            p = (('g', e['g']),)
            return self.var_l(p, e, st)
        vid = e['id']
        p = (('v', vid, fr.ctx, e['n']),)
        if fr.closure is not None and p not in st.store and not any(k[0] == p[0] for k in st.store if isinstance(k[0], tuple)):
            cp = fr.closure + ('cap:%s' % vid,)
            v = st.store.get(cp)
            if v is not None and v[0] == 'ref':
                return [(('L', v[1]), st)]
            if v is not None or any(k[:len(cp)] == cp for k in st.store):
                return [(('L', cp), st)]
        return self.var_l(p, e, st)

    def var_l(self, p, e, st):
        if e.get('ref'):
            v = self.load(st, p)
            return [(('L', self.deref(v)), st)]
        return [(('L', p), st)]

    def e_binding(self, e, fr, st):
        return [(self.fresh(st, fr, id(e), 'binding'), st)]

    def e_mem(self, e, fr, st):
        out = []
        for b, s in self.eval(e['b'], fr, st):
            if T(b):
                out.append((b, s))
                continue
            if e.get('ar'):
                loc = self.deref(self.val(s, b) if b[0] == 'L' else b)
            else:
                loc = b[1] if b[0] == 'L' else (('d', b),)
            if e.get('anon'):
                out.append((('L', loc), s))
                continue
            p = loc + (e['n'],)
            if e.get('ref'):
                v = self.load(s, p)
                out.append((('L', self.deref(v)), s))
            else:
                out.append((('L', p), s))
        return out

    def e_idx(self, e, fr, st):
        out = []
        for vs, s in self.args_eval([e['a'], e['b']], fr, st):
            if T(vs):
                out.append((vs, s))
                continue
            a, b = vs
            base, i = a[1] if a[0] == 'L' else self.deref(a), self.val(s, b)
            if a[0] == 'p' and base and isinstance(base[-1], tuple) and base[-1][0] == 'at':    # an array that decayed, or a pointer into one
                k = base[-1][1]
                base, i = base[:-1], self.arith('+', ('c', k) if isinstance(k, int) else k, i)
            out.append((('L', elem(base, i)), s))
        return out

    def e_decay(self, e, fr, st):
        return [(v if T(v) or v is None or v[0] != 'L' else ('p', elem(v[1], ('c', 0))), s) for v, s in self.eval(e['e'], fr, st)]

    def e_un(self, e, fr, st):
        op = e['op']
        if 'cv' in e and op not in ('++', '--', '&', '*'):
            return [(('c', const_of(e)), st)]
        out = []
        for v, s in self.eval(e['e'], fr, st):
            if T(v):
                out.append((v, s))
                continue
            if op == '&':
                out.append((('p', v[1]) if v[0] == 'L' else v, s))
            elif op == '*':
                pv = self.val(s, v) if v[0] == 'L' else v
                self.emit(s, fr, 'deref', '', e, obj=v, val=pv)
                out.append((('L', self.deref(pv)), s))
            elif op == '!':
                out.append((self.neg(self.val(s, v)), s))
            elif op in ('++', '--'):
                old = self.load(s, v[1]) if v[0] == 'L' else v
                new = self.arith('+' if op == '++' else '-', old, ('c', 1))
                if v[0] == 'L':
                    self.put(s, v[1], new)
                    self.emit(s, fr, 'store', self.lname(v), e, obj=v, val=new, extra=op)
                out.append((old if e.get('post') else v, s))
            elif op == '-':
                c = cv(v)
                out.append((('c', -c) if c is not None else ('o', 'neg', v), s))
            elif op == '~':
                out.append((('o', '~', v), s))
            elif op == '__extension__' or op == '+':
                out.append((v, s))
            else:
                out.append((('o', op, v), s))
        return out

    def lname(self, v):
        if v[0] != 'L':
            return ''
        x = v[1][-1]
        if isinstance(x, str):
            return x
        if isinstance(x, tuple) and x[0] == 'v':
            return x[3]
        if isinstance(x, tuple) and x[0] == 'g':
            return x[1]
        return ''

    def arith(self, op, a, b):
        ca, cb = cv(a), cv(b)
        if ca is not None and cb is not None:
            try:
                if op == '+': return ('c', ca + cb)
                if op == '-': return ('c', ca - cb)
                if op == '*': return ('c', ca * cb)
                if op == '/' and cb: return ('c', ca // cb)
                if op == '%' and cb: return ('c', ca % cb)
                if op == '&': return ('c', ca & cb)
                if op == '|': return ('c', ca | cb)
                if op == '^': return ('c', ca ^ cb)
                if op == '<<' and 0 <= cb < 64: return ('c', ca << cb)
                if op == '>>' and cb >= 0: return ('c', ca >> cb)
            except Exception:
                pass
        if a[0] == 'p' and a[1] and isinstance(a[1][-1], tuple) and a[1][-1][0] == 'at' and op in ('+', '-'):
            k = a[1][-1][1]
            n = self.arith(op, ('c', k) if isinstance(k, int) else k, b)
            return ('p', elem(a[1][:-1], n))
        if op == '+' and cb == 0:
            return a
        if op == '+' and ca == 0:
            return b
        if op == '-' and cb == 0:
            return a
        # (x + c1) - c2
        if op in '+-' and cb is not None and a[0] == 'o' and a[1] in ('+', '-') and len(a) == 4 and cv(a[3]) is not None:
            d = (cv(a[3]) if a[1] == '+' else -cv(a[3])) + (cb if op == '+' else -cb)
            if d == 0:
                return a[2]
            return ('o', '+', a[2], ('c', d)) if d > 0 else ('o', '-', a[2], ('c', -d))
        if op in ('+', '*', '&', '|', '^') and repr(b) < repr(a) and a[0] != 'p':
            a, b = (b, a) if b[0] != 'c' else (a, b)
        if depth(a) + depth(b) > 48:
            return ('o', op, ('o', 'big'), ('o', 'big'))
        return ('o', op, a, b)

    def e_bin(self, e, fr, st):
        op = e['op']
        if op in ('&&', '||'):
            if 'cv' in e and not has_effect(e):
                return [(('c', const_of(e)), st)]
            out = []
            for t, s in self.branch(e['a'], fr, st):
                if T(t):
                    out.append((t, s))
                elif (op == '&&') == bool(t):
                    for t2, s2 in self.branch(e['b'], fr, s):
                        out.append((t2 if T(t2) else (TRUE if t2 else FALSE), s2))
                else:
                    out.append((TRUE if t else FALSE, s))
            return out
        if op == ',':
            out = []
            for v, s in self.eval(e['a'], fr, st):
                if T(v):
                    out.append((v, s))
                else:
                    out += self.eval(e['b'], fr, s)
            return out
        if 'cv' in e and op not in ASSIGN_OPS and not has_effect(e):
            return [(('c', const_of(e)), st)]
        out = []
        order = [e['a'], e['b']]
        if op in ASSIGN_OPS:
            order = [e['b'], e['a']]
        for vs, s in self.args_eval(order, fr, st):
            if T(vs):
                out.append((vs, s))
                continue
            if op in ASSIGN_OPS:
                b, a = vs
                bv = self.val(s, b)
                if op == '=':
                    if a[0] == 'L':
                        if b[0] == 'L':
                            self.copy_tree(s, b[1], a[1])
                        else:
                            self.put(s, a[1], bv)
                        self.emit(s, fr, 'store', self.lname(a), e, obj=a, val=bv)
                    out.append((a, s))
                else:
                    old = self.load(s, a[1]) if a[0] == 'L' else a
                    new = self.arith(op[:-1], old, bv)
                    if a[0] == 'L':
                        self.put(s, a[1], new)
                        self.emit(s, fr, 'store', self.lname(a), e, obj=a, val=new, extra=op)
                    out.append((a, s))
                continue
            a, b = (self.val(s, x) for x in vs)
            if 'psz' in e and a[0] in ('o', 'i', 'u'):
                # steps of different width do not add up
                mixed = any(v.kind == 'step' and v.val == a and v.extra != e['psz'] for v in events_of(s))
                r = ('o', op, a, b) if mixed else self.compare(op, a, b)
                if r[0] == 'o':
                    self.emit(s, fr, 'step', '', e, val=r, extra=e['psz'], argv=(a, b))
                out.append((r, s))
                continue
            out.append((self.compare(op, a, b), s))
        return out

    def compare(self, op, a, b):
        if op == '==':
            return self.eq(a, b)
        if op == '!=':
            return self.neg(self.eq(a, b))
        ca, cb = cv(a), cv(b)
        if op in ('<', '>', '<=', '>='):
            if ca is not None and cb is not None:
                r = {'<': ca < cb, '>': ca > cb, '<=': ca <= cb, '>=': ca >= cb}[op]
                return TRUE if r else FALSE
            if op == '>':
                if cb == 0 and a[0] != 'o' and not signed(a):
                    return a if a[0] in ('i', 'u') else ('o', '<', b, a)
                return ('o', '<', b, a)
            if op == '<':
                if ca == 0 and not signed(b):
                    return b if b[0] in ('i', 'u') else ('o', '<', a, b)
                return ('o', '<', a, b)
            if op == '<=':
                return self.neg(self.compare('<', b, a))
            return self.neg(self.compare('<', a, b))
        return self.arith(op, a, b)

    def e_cond(self, e, fr, st):
        out = []
        for t, s in self.branch(e['c'], fr, st):
            if T(t):
                out.append((t, s))
            else:
                out += self.eval(e['a'] if t else e['b'], fr, s)
        return out

    def e_elvis(self, e, fr, st):
        out = []
        for v, s in self.eval(e['c'], fr, st):
            for t, s2 in self.truth(s, self.val(s, v)):
                out += [(v, s2)] if t else self.eval(e['b'], fr, s2)
        return out

    def e_list(self, e, fr, st):
        if len(e['a']) == 1 and not e.get('tc'):
            return self.eval(e['a'][0], fr, st)
        if not e['a'] and not e.get('tc'):
            return [(NULL, st)]
        p = self.temp(st, fr, e)
        return [(t if T(t) else ('L', p), s) for t, s in self.do_list(p, e, fr, st)]

    def e_ilist(self, e, fr, st):
        return self.eval(e['e'], fr, st)

    def e_arrcopy(self, e, fr, st):
        return self.eval(e['e'], fr, st)

    def e_ctor(self, e, fr, st):
        if e.get('elid') and e['a']:
            return self.eval(e['a'][0], fr, st)
        p = self.temp(st, fr, e)
        out = []
        for t, s in self.do_ctor(p, e, fr, st):
            out.append((t if T(t) else ('L', p), s))
        return out

    def e_lambda(self, e, fr, st):
        p = self.temp(st, fr, e)
        ids = (e['fn']['id'],) if 'fn' in e else tuple(f['id'] for f in e.get('specs', []))
        states = [(None, st)]
        st.store[p] = ('lam', ids)
        for c in e['caps']:
            nxt = []
            for t, s in states:
                if T(t):
                    nxt.append((t, s))
                    continue
                if c['k'] == 'this':
                    for v, s2 in self.e_this({}, fr, s):
                        s2.store[p + ('cap:this',)] = v
                        nxt.append((None, s2))
                elif c['k'] == 'starthis':
                    for v, s2 in self.e_this({}, fr, s):
                        self.copy_tree(s2, self.deref(v), p + ('cap:*this',))
                        s2.store[p + ('cap:this',)] = ('p', p + ('cap:*this',))
                        nxt.append((None, s2))
                elif c['k'] == 'ref':
                    for v, s2 in self.eval(c.get('e'), fr, s):
                        if not T(v) and v is not None:
                            s2.store[p + ('cap:%s' % c.get('id'),)] = ('ref', v[1]) if v[0] == 'L' else v
                        nxt.append((v if T(v) else None, s2))
                else:
                    for v, s2 in self.construct(p + ('cap:%s' % c.get('id'),), c.get('e'), fr, s):
                        nxt.append((v if T(v) else None, s2))
            states = nxt
        return [(t if T(t) else ('L', p), s) for t, s in states]

    def e_throw(self, e, fr, st):
        if not e.get('e'):
            v = st.store.get(('cur-exc',), ('u', 'rethrow'))
            self.emit(st, fr, 'throw', 'rethrow', e, val=v)
            return [(Thrown((v,)), st)]
        out = []
        for v, s in self.eval(e['e'], fr, st):
            if T(v):
                out.append((v, s))
                continue
            vv = thrown_as(self, self.val(s, v), e['e'], None)
            self.emit(s, fr, 'throw', e.get('t', ''), e, val=vv)
            out.append((Thrown((vv,)), s))
        return out

    def e_co_await(self, e, fr, st):
        out = []
        for v, s in self.eval(e['e'], fr, st):
            if T(v):
                out.append((v, s))
                continue
            r = self.fresh(s, fr, id(e), 'await')
            self.emit(s, fr, e['k'], '', e, obj=v, val=r, extra={'ready': e.get('ready'), 'suspend': e.get('suspend'), 'resume': e.get('resume')})
            if self.on_foreign and not quiet_await(self.db, e):
                self.on_foreign(self, s, 'await', '')
            if self.await_throws and not await_cannot_throw(self.db, e):
                s2 = s.copy()
                x = self.fresh(s2, fr, id(e), 'await-exc')
                self.emit(s2, fr, 'raise', e['k'], e, val=x)
                out.append((Thrown((x,)), s2))
            out.append((r, s))
        return out

    e_co_yield = e_co_await

    def e_new(self, e, fr, st):
        out = []
        for pl, s in self.args_eval(e['pl'], fr, st):
            if T(pl):
                out.append((pl, s))
                continue
            if pl:
                loc = self.deref(self.val(s, pl[0]))
            else:
                loc = (('d', self.fresh(s, fr, id(e), 'new')),)
            self.emit(s, fr, 'new', e['t'], e, obj=('L', loc), args=tuple(pl), fn=e.get('fn'), extra=e.get('sz'))
            if e.get('e'):
                for t, s2 in self.construct(loc, e['e'], fr, s):
                    out.append((t if T(t) else ('p', loc), s2))
            else:
                out.append((('p', loc), s))
        return out

    def e_delete(self, e, fr, st):
        out = []
        for v, s in self.eval(e['e'], fr, st):
            if T(v):
                out.append((v, s))
                continue
            self.emit(s, fr, 'delete', e.get('tc', ''), e, obj=self.val(s, v))
            out.append((None, s))
        return out

    def e_pdtor(self, e, fr, st):
        return [(None, st)]

    def e_stmtexpr(self, e, fr, st):
        out = []
        for o, v, s in self.exec(e['e'], fr, st):
            out.append((Thrown((v,)), s) if o == 'throw' else (NULL, s))
        return out

    # ---- calls -----------------------------------------------------------
    def e_call(self, e, fr, st):
        if e.get('op') in ('=',) or (e.get('op') or '').endswith('=') and e.get('op') not in ('==', '!=', '<=', '>='):
            # assignment operators: right operand first
            order = list(e['a']) + ([e['o']] if e.get('o') else [])
            rot = bool(e.get('o'))
        else:
            order = ([e['o']] if e.get('o') else []) + list(e['a'])
            rot = False
        pre = []
        if 'fn' not in e and e.get('callee') is not None:
            order = [e['callee']] + order
            pre = [1]
        out = []
        for vs, s in self.args_eval(order, fr, st):
            if T(vs):
                out.append((vs, s))
                continue
            callee = None
            if pre:
                callee = vs[0]
                vs = vs[1:]
            obj = None
            if e.get('o'):
                if rot:
                    obj, args = vs[-1], vs[:-1]
                else:
                    obj, args = vs[0], vs[1:]
            else:
                args = vs
            out += self.call(e, callee, obj, args, fr, s)
        return out

    def call(self, e, callee, obj, args, fr, s):
        fn = e.get('fn')
        if fn is None:
            # call through a pointer; f() and (*f)() are the same
            if callee and callee[0] == 'L' and len(callee[1]) == 1 and callee[1][0][0] == 'd':
                callee = callee[1][0][1]
            cvv = self.val(s, callee) if callee else None
            if cvv and cvv[0] == 'fn':
                fn = self.fn_by_id(cvv[1], cvv[2])
                if fn is None:
                    fn = {'id': cvv[1], 'n': cvv[2]}
            else:
                r = self.fresh(s, fr, id(e), 'icall') if e.get('t') != 'void' else None
                self.emit(s, fr, 'call', '<indirect>', e, obj=callee, args=tuple(args), val=r, argv=tuple(self.val(s, a) for a in args), extra=cvv)
                if self.on_foreign:
                    self.on_foreign(self, s, 'call', '<indirect>')
                if e.get('tc') and not e.get('lv') and r is not None:
                    tp = self.temp(s, fr, e)
                    s.store[tp] = r
                    r = ('L', tp)
                return self.maybe_throw(s, fr, e, '<indirect>', {}, r)
        name = fn['n']
        # location of the object
        oloc = None
        if obj is not None:
            if e.get('ar'):
                pv = self.val(s, obj) if obj[0] == 'L' else obj
                oloc = self.deref(pv)
            elif obj[0] == 'L':
                oloc = obj[1]
            elif obj[0] == 'p' and not e.get('op'):
                oloc = obj[1]
            else:
                oloc = (('d', obj),)
        h = MODEL_FNS.get(name)
        if h is not None and name not in self.opaque:
            r = h(self, e, fn, oloc, args, fr, s)
            if r is not None:
                return r
        if name in IDENT_FNS and args:
            return [(args[0] if name not in ('std::addressof', 'std::__addressof') else (('p', args[0][1]) if args[0][0] == 'L' else args[0]), s)]
        if fn.get('assign') and oloc is not None and args:
            r = self.assign_model(e, fn, oloc, args, fr, s)
            if r is not None:
                return r
        cls = cls_of(name)
        if MODELS.get(cls) and oloc is not None and name not in self.opaque:
            r = self.model_method(e, fn, cls, short(name), oloc, args, fr, s)
            if r is not None:
                return r
        # closures: their operator() is inlined with captured locations
        body = self.db.fns.get(fn['id'])
        closure = None
        this = oloc
        if name.endswith('(lambda)::operator()'):
            lv = self.load(s, oloc) if oloc is not None else None
            if lv is not None and lv[0] == 'lam':
                closure = oloc
                if fn['id'] not in lv[1] and body is None:
                    body = self.db.fns.get(lv[1][0]) if lv[1] else None
            elif lv is not None and oloc is not None:
                closure = oloc
        if body is not None and self.can_inline(body, fn, e, fr, s, oloc):
            sub = Frame(body, fr.ctx + (e.get('l', 0), id(e)), this, closure, fr)
            self.emit(s, fr, 'enter', name, e, obj=('L', oloc) if oloc is not None else None, args=tuple(args), fn=fn, argv=tuple(self.val(s, a) for a in args))
            out = []
            byval = 'ret' in body and not body['ret'].endswith('&')
            for o, v, s2 in self.invoke(body, sub, list(args), s):
                self.emit(s2, fr, 'leave', name, e, val=v, extra=o)
                if o == 'throw':
                    out.append((Thrown((v,)), s2))
                else:
                    if v is not None and v[0] == 'L' and byval and not body.get('rtc'):
                        v = self.load(s2, v[1])
                    elif v is not None and v[0] == 'L' and byval and body.get('rtc') and e.get('tc'):
                        # a returned object lives in a temporary of the caller
                        tp = self.temp(s2, fr, e)
                        if v[1][0][0] in ('v', 't') and v[1][0][2] == sub.ctx:
                            self.copy_tree(s2, v[1], tp)
                            v = ('L', tp)
                    elif v is not None and v[0] == 'p' and body['ret'].endswith('&'):
                        v = ('L', v[1])
                    out.append((v, s2))
            return out
        return self.external(e, fn, oloc, args, fr, s)

    def fn_by_id(self, fid, name):
        fid = fid.replace('::__invoke@', '::operator()@')          # what a closure without captures converts to
        f = self.db.fns.get(fid)
        if f is None:
            return None
        d = {'id': fid, 'n': f['n'], 'pk': ['lr' if p.get('ref') == 'lr' else 'rr' if p.get('ref') == 'rr' else 'cr' if p.get('ref') else 'v' for p in f['params']]}
        return d

    def can_inline(self, body, fn, e, fr, s, oloc):
        if 'body' not in body:
            return False
        if fn['n'] in self.opaque or (self.opaque_pred and self.opaque_pred(fn, body)):
            return False
        if fr.depth >= self.maxdepth or self.recursing(fr, body):
            return False
        if body['body'].get('s') == 'coro':
            return False
        if fn.get('virtual') and not e.get('qual') and fn['n'] not in self.assume_virtual:
            return False
        return True

    def assign_model(self, e, fn, oloc, args, fr, s):
        cls = fn['n'].rsplit('::', 1)[0]
        m = MODELS.get(cls)
        a = args[0]
        if m == 'ptr':
            if a[0] == 'L':
                v = self.load(s, a[1])
            else:
                v = a
            old = self.load(s, oloc)
            states = [s]
            if cls in ('boost::cobalt::unique_handle', 'std::unique_ptr') and cv(old) is None:
                self.emit(s, fr, 'reset', cls, e, obj=('L', oloc), val=old)
            if a[0] == 'L' and fn.get('assign') == 'move' and cls not in NOT_MOVED and a[1] != oloc:
                self.put(s, a[1], NULL)
            self.put(s, oloc, v)
            self.emit(s, fr, 'store', self.lname(('L', oloc)), e, obj=('L', oloc), val=v, extra='assign', args=tuple(args))
            return [(('L', oloc), s)]
        if m == 'opt':
            if a[0] == 'L':
                self.copy_tree(s, a[1], oloc)
            self.emit(s, fr, 'store', self.lname(('L', oloc)), e, obj=('L', oloc), val=self.val(s, a), extra='assign')
            return [(('L', oloc), s)]
        body = self.db.fns.get(fn['id'])
        if body is not None and 'body' in body and not body.get('defaulted') and fr.depth < self.maxdepth and fn['n'] not in self.opaque:
            return None
        if body is not None and body.get('defaulted') and 'body' in body and body['body'].get('b'):
            return None
        if a[0] == 'L':
            self.copy_tree(s, a[1], oloc)
            v = self.load(s, a[1])
        else:
            v = a
            self.put(s, oloc, v)
        self.emit(s, fr, 'store', self.lname(('L', oloc)), e, obj=('L', oloc), val=v, extra='assign', args=tuple(args), fn=fn)
        return [(('L', oloc), s)]

    def model_method(self, e, fn, cls, m, oloc, args, fr, s):
        kind = MODELS[cls]
        cur = self.load(s, oloc)
        if kind == 'ptr':
            if m in ('operator bool', 'has_value') or m.startswith('operator bool') or m.startswith('operator __'):
                return [(cur, s)]
            if m in ('get', 'address', 'operator->', 'operator coroutine_handle'):
                if m == 'operator->':
                    self.emit(s, fr, 'deref', cls, e, obj=('L', oloc), val=cur)
                    if cls in ('boost::cobalt::unique_handle', 'std::coroutine_handle'):
                        return [(self.promise_ptr(cur), s)]
                return [(cur, s)]
            if m.startswith('operator ') and 'coroutine_handle<' in m:
                return [(cur, s)]
            if m == 'operator*':
                self.emit(s, fr, 'deref', cls, e, obj=('L', oloc), val=cur)
                if cls in ('boost::cobalt::unique_handle', 'std::coroutine_handle'):
                    return [(('L', self.deref(self.promise_ptr(cur))), s)]
                return [(('L', self.deref(cur)), s)]
            if m == 'promise':
                return [(('L', self.deref(self.promise_ptr(cur))), s)]
            if m in ('release', 'detach'):
                self.put(s, oloc, NULL)
                self.emit(s, fr, 'call', fn['n'], e, obj=('L', oloc), val=cur, fn=fn)
                return [(cur, s)]
            if m == 'reset':
                v = self.val(s, args[0]) if args else NULL
                if cv(cur) is None:
                    self.emit(s, fr, 'reset', cls, e, obj=('L', oloc), val=cur)
                    if cls == 'boost::cobalt::unique_handle' or callable(self.frees):
                        self.gone(s, cur)
                self.put(s, oloc, v)
                self.emit(s, fr, 'store', self.lname(('L', oloc)), e, obj=('L', oloc), val=v, extra='reset')
                return [(None, s)]
            if m == 'swap':
                return self.swap_(oloc, args[0][1], e, fr, s)
            if m in ('resume', 'operator()') and cls in ('std::coroutine_handle', 'boost::cobalt::unique_handle'):
                body = self.db.fns.get(fn['id'])
                rq = body.get('rq') if body else None
                self.emit(s, fr, 'resume', cls, e, obj=('L', oloc), val=cur, fn=fn)
                if cls == 'boost::cobalt::unique_handle' and rq == '&&':
                    self.put(s, oloc, NULL)
                if self.on_foreign:
                    self.on_foreign(self, s, 'resume', cls)
                return self.maybe_throw(s, fr, e, 'resume', fn, None)
            if m == 'destroy':
                self.emit(s, fr, 'destroy', cls, e, obj=('L', oloc), val=cur)
                self.gone(s, cur)
                return [(None, s)]
            if m == 'done':
                return [(('o', 'done', cur), s)]
            if m == 'operator=':
                a = args[0]
                v = self.val(s, a)
                if cv(cur) is None and cls in ('boost::cobalt::unique_handle', 'std::unique_ptr'):
                    self.emit(s, fr, 'reset', cls, e, obj=('L', oloc), val=cur)
                if a[0] == 'L' and fn.get('pk', [''])[0] == 'rr' and a[1] != oloc and cls not in NOT_MOVED:
                    self.put(s, a[1], NULL)
                self.put(s, oloc, v)
                self.emit(s, fr, 'store', self.lname(('L', oloc)), e, obj=('L', oloc), val=v, extra='assign', args=tuple(args))
                return [(('L', oloc), s)]
            if m == 'get_deleter':
                return [(('L', oloc + ('del',)), s)]
            return None
        if kind == 'opt':
            eng = self.load(s, oloc + ('?',))
            if m == 'has_value' or m.startswith('operator bool') or m.startswith('operator b'):
                return [(eng, s)]
            if m in ('operator*', 'value'):
                self.emit(s, fr, 'optderef' if m == 'operator*' else 'optvalue', cls, e, obj=('L', oloc), val=eng)
                if m == 'value':
                    out = []
                    for t, x in self.truth(s, eng):
                        if t:
                            out.append((('L', oloc + ('*',)), x))
                        else:
                            out.append((Thrown((('o', 'new', 'std::bad_optional_access'),)), x))
                    return out
                return [(('L', oloc + ('*',)), s)]
            if m == 'operator->':
                self.emit(s, fr, 'optderef', cls, e, obj=('L', oloc), val=eng)
                return [(('p', oloc + ('*',)), s)]
            if m == 'reset':
                self.put(s, oloc, ('o', 'opt'))
                s.store[oloc + ('?',)] = FALSE
                self.emit(s, fr, 'store', self.lname(('L', oloc)), e, obj=('L', oloc), val=FALSE, extra='reset')
                return [(None, s)]
            if m in ('emplace', 'operator='):
                a = args[0] if args else None
                if m == 'operator=' and a is not None and 'nullopt' in str(a) + str(e['a'][0].get('t', '')):
                    self.put(s, oloc, ('o', 'opt'))
                    s.store[oloc + ('?',)] = FALSE
                    self.emit(s, fr, 'store', self.lname(('L', oloc)), e, obj=('L', oloc), val=FALSE, extra='reset')
                    return [(('L', oloc), s)]
                if a is not None and a[0] == 'L':
                    x = a[1]
                    items_src = x
                    # keep value
                    tmp = State.__new__(State)
                    vtree = [(k[len(x):], v) for k, v in s.store.items() if len(k) > len(x) and k[:len(x)] == x]
                    v0 = self.load(s, x)
                    self.put(s, oloc, ('o', 'opt'))
                    s.store[oloc + ('*',)] = v0
                    for r, v in vtree:
                        s.store[oloc + ('*',) + r] = v
                else:
                    self.put(s, oloc, ('o', 'opt'))
                    s.store[oloc + ('*',)] = a if a is not None else ('o', 'new', 'T')
                s.store[oloc + ('?',)] = TRUE
                self.emit(s, fr, 'engage', self.lname(('L', oloc)), e, obj=('L', oloc), args=tuple(args), val=TRUE, argv=tuple(self.val(s, a) for a in args), fn=fn)
                return self.maybe_throw(s, fr, e, fn['n'], fn, ('L', oloc + ('*',)) if m == 'emplace' else ('L', oloc))
            if m == 'swap':
                return self.swap_(oloc, args[0][1], e, fr, s)
            return None
        if kind == 'res':
            eng = self.load(s, oloc + ('?',))
            if m in ('has_value',) or m.startswith('operator bool'):
                return [(eng, s)]
            if m in ('has_error', 'operator!'):
                return [(self.neg(eng), s)]
            if m == 'value':
                out = []
                for t, x in self.truth(s, eng):
                    if t:
                        v = ('L', oloc + ('*',))
                        out.append((None if e.get('t') == 'void' else v, x))
                    else:
                        ep = self.load(x, oloc + ('!',))
                        self.emit(x, fr, 'throw', fn['n'], e, obj=('L', oloc), val=ep)
                        out.append((Thrown((ep[2],)) if ep[0] == 'o' and ep[1] == 'eptr' else Thrown((('o', 'of_eptr', ep),)), x))
                return out
            if m in ('operator*', 'unsafe_value'):
                self.emit(s, fr, 'resderef', cls, e, obj=('L', oloc), val=eng)
                return [(('L', oloc + ('*',)), s)]
            if m == 'operator->':
                self.emit(s, fr, 'resderef', cls, e, obj=('L', oloc), val=eng)
                return [(('p', oloc + ('*',)), s)]
            if m == 'error':
                out = []
                for t, x in self.truth(s, eng):
                    if e.get('tc') and not e.get('lv'):
                        tp = self.temp(x, fr, e)
                        if t:
                            x.store[tp] = NULL
                        else:
                            self.copy_tree(x, oloc + ('!',), tp)
                        out.append((('L', tp), x))
                    else:
                        out.append((NULL if t else self.load(x, oloc + ('!',)), x))
                return out
            return None
        return None

    def promise_ptr(self, h):
        """the promise object behind a coroutine handle"""
        if h[0] == 'o' and h[1] == 'from_promise':
            return h[2]
        return ('o', 'promise_of', h)

    def swap_(self, a, b, e, fr, s):
        tmp = (('t', 'swap', fr.ctx, id(e), 0),)
        self.copy_tree(s, a, tmp)
        self.copy_tree(s, b, a)
        self.copy_tree(s, tmp, b)
        for k in [k for k in s.store if k[:1] == tmp]:
            del s.store[k]
        self.emit(s, fr, 'store', self.lname(('L', a)), e, obj=('L', a), val=self.load(s, a), extra='swap')
        self.emit(s, fr, 'store', self.lname(('L', b)), e, obj=('L', b), val=self.load(s, b), extra='swap')
        return [(None, s)]

    def havoc_args(self, s, fr, fn, args, e):
        if fn['n'].startswith('boost::intrusive::'):
            return                  # intrusive containers only touch the hooks of their elements
        if fn['n'].startswith('std::allocator_traits::'):
            args = [None] + list(args[1:])      # an allocator remains the same allocator
        pk = fn.get('pk', [])
        for i, a in enumerate(args):
            k = pk[i] if i < len(pk) else 'v'
            if a is None:
                continue
            if k in ('lr',) and a[0] == 'L':
                if self.load(s, a[1])[0] == 'lam':
                    continue
                self.put(s, a[1], self.fresh(s, fr, id(e), 'out%d:%s' % (i, short(fn.get('n', '')))))
            elif k == 'p' and a[0] == 'p' and a[1] and a[1][0][0] in ('v', 't'):
                self.put(s, a[1], self.fresh(s, fr, id(e), 'out%d:%s' % (i, short(fn.get('n', '')))))

    def external(self, e, fn, oloc, args, fr, s):
        name = fn['n']
        argv = tuple(self.val(s, a) for a in args)
        pure = (fn.get('const') or name in PURE_FNS) and name not in self.opaque
        ov = self.load(s, oloc) if oloc is not None else None
        if pure:
            r = ('o', name) + ((ov,) if oloc is not None else ()) + tuple(a if a is not None else NULL for a in argv)
            if depth(r) > 14:
                r = self.fresh(s, fr, id(e), short(name))
        elif e.get('t') == 'void':
            r = None
        else:
            r = self.fresh(s, fr, id(e), short(name))
        ev = self.emit(s, fr, 'call', name, e, obj=('L', oloc) if oloc is not None else None, args=tuple(args), fn=fn, val=r, argv=argv, extra=ov)
        if self.on_foreign and not pure and self.on_foreign(self, s, 'call', name):
            pass
        elif pure and oloc is not None and 'lr' in (fn.get('pk') or ()) and short(name) != 'operator()':
            if not (self.on_foreign and self.on_foreign(self, s, 'call', name)):
                self.havoc_args(s, fr, fn, args, e)
        elif not pure:
            if oloc is not None and not fn.get('static') and name not in NO_HAVOC:
                # the callee may change its object
                if ov is None or ov[0] != 'lam':
                    if not self.keeps(name):
                        self.put(s, oloc, self.fresh(s, fr, id(e), 'after:' + short(name)))
            self.havoc_args(s, fr, fn, args, e)
        if fn.get('noret'):
            return [(Thrown((('o', 'noret', name) + argv,)), s)]
        if e.get('lv') and r is not None:
            r = ('L', (('d', r),))
        if e.get('tc') and not e.get('lv') and r is not None:
            tp = self.temp(s, fr, e)
            s.store[tp] = r
            r = ('L', tp)
        return self.maybe_throw(s, fr, e, name, fn, r)

    def keeps(self, name):
        return name in KEEP_OBJ or name.split('::')[-1] in ('begin', 'end', 'data', 'lock', 'unlock') or (name.startswith('boost::intrusive::') and name.endswith(('::unlink', '::is_linked')))


def depth(v):
    if not isinstance(v, tuple):
        return 1
    n = 1
    for x in v:
        if isinstance(x, tuple):
            n += depth(x)
    return n


def signed(v):
    """the result of a system call may be negative"""
    return v[0] == 'u' and v[1] in SYSCALLS


SYSCALLS = {'open', 'close', 'lseek', 'fstat', 'ftruncate', 'fsync', 'fdatasync', 'read', 'write', 'pread', 'pwrite', 'ioctl', 'fcntl', 'stat', 'dup', 'socket', 'socketpair', 'syncfs'}


def has_effect(e):
    """could evaluating e do something (call, assignment)?"""
    if isinstance(e, list):
        return any(has_effect(x) for x in e)
    if not isinstance(e, dict):
        return False
    k = e.get('k')
    if k in ('call', 'ctor', 'new', 'delete', 'throw', 'co_await', 'co_yield'):
        return True
    if k == 'un' and e['op'] in ('++', '--'):
        return True
    if k == 'bin' and e['op'] in ASSIGN_OPS:
        return True
    return any(has_effect(x) for x in e.values() if isinstance(x, (dict, list)))


ASSIGN_OPS = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}

# library types whose value is tracked: a pointer-like owner or an optional
MODELS = {
    'std::unique_ptr': 'ptr', 'std::shared_ptr': 'ptr', 'std::__shared_ptr': 'ptr', 'std::coroutine_handle': 'ptr', 'std::__n4861::coroutine_handle': 'ptr',
    'std::exception_ptr': 'ptr', 'std::__exception_ptr::exception_ptr': 'ptr',
    'boost::cobalt::unique_handle': 'ptr', 'std::__shared_ptr_access': 'ptr', 'boost::intrusive_ptr': 'ptr',
    'boost::system::result': 'res', 'std::optional': 'opt', 'std::_Optional_base': 'opt', 'std::_Optional_base_impl': 'opt',
}
# a moved-from handle of these types keeps its value
NOT_MOVED = {'std::coroutine_handle', 'std::__n4861::coroutine_handle'}
PURE_FNS = set()
NO_HAVOC = set()
KEEP_OBJ = {'boost::asio::cancellation_slot::' + m for m in ('assign', 'emplace', 'clear')}
MODEL_FNS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODEL_FNS[n] = f
        return f
    return deco


@model('std::exchange', 'std::__exchange')
def m_exchange(self, e, fn, oloc, args, fr, s):
    a, b = args
    old = self.load(s, a[1])
    bv = self.val(s, b)
    # keep the old value (a tree) in a temporary
    tp = self.temp(s, fr, e)
    self.copy_tree(s, a[1], tp)
    if 'nullopt' in str(b) + str(bv):
        self.put(s, a[1], ('o', 'opt'))
        s.store[a[1] + ('?',)] = FALSE
    elif b[0] == 'L':
        self.copy_tree(s, b[1], a[1])
    else:
        self.put(s, a[1], bv)
    self.emit(s, fr, 'store', self.lname(a), e, obj=a, val=bv, extra='exchange')
    return [(('L', tp) if e.get('tc') else old, s)]


@model('std::allocate_shared', 'std::make_shared', 'std::make_unique')
def m_make_shared(self, e, fn, oloc, args, fr, s):
    """construct the object where the new pointer points to"""
    tr = fn.get('tr')
    rest = args[1:] if short(fn['n']) == 'allocate_shared' else args
    if tr not in self.db.recs or any(a is None for a in rest):
        return None
    best = None
    rn = self.db.recs[tr]['n']
    for c in self.db.find('%s::%s' % (rn, short(rn)), cls=tr):
        if not c.get('ctor') or not ('inits' in c or 'body' in c) or len(c['params']) != len(rest):
            continue
        if len(rest) == 1:
            a = rest[0]
            own = a[0] == 'L' and fn['pk'][-1] in ('rr', 'lr', 'cr') and tr in str(e['a'][-1].get('tc'))
            if own != (c['ctor'] in ('copy', 'move')) or own and (c['ctor'] == 'move') != (fn['pk'][-1] == 'rr'):
                continue
        best = c if best is None else False
    if not best:
        return None
    r = self.fresh(s, fr, id(e), short(fn['n']))
    self.emit(s, fr, 'call', fn['n'], e, args=tuple(args), fn=fn, argv=tuple(self.val(s, a) for a in args), val=r)
    out = []
    for thr, s2 in self.ctor_with((('d', r),), e, best, best['n'].rsplit('::', 1)[0], rest, fr, s):
        out.append((thr, s2) if T(thr) else (r, s2))
    return out


@model('std::swap')
def m_swap(self, e, fn, oloc, args, fr, s):
    if args[0][0] != 'L' or args[1][0] != 'L':
        return None
    return self.swap_(args[0][1], args[1][1], e, fr, s)


def call_closure(self, clo, args, e, fr, s, fids=None, keep=False):
    """[(value or (keep) location, state)] of calling a closure value, None when it is none"""
    path = clo[1] if clo and clo[0] in ('L', 'p') else None
    if path is None:
        return None
    v = self.load(s, path)
    if v[0] != 'lam':
        return None
    cur = [(None, s)]
    for fid in (fids or v[1][:1]):
        fn = self.db.fns.get(fid)
        if fn is None:
            return None
        nxt = []
        for r, s1 in cur:
            if T(r):
                nxt.append((r, s1))
                continue
            sub = Frame(fn, fr.ctx + (e.get('l', 0), id(e), fid), path, path, fr)
            self.inlined.add(fid)
            for o, val, s2 in self.invoke(fn, sub, list(args), s1):
                nxt.append((Thrown((val,)) if o == 'throw' else val if keep else self.val(s2, val) if val is not None else None, s2))
        cur = nxt
    return cur


def elt(it, k):
    return ('L', (('d', it if k == 0 else ('o', '+', it, ('c', k))),))


def walk(self, first, last, clo, e, fr, s, until=None, out=None, args=None):
    """apply a closure to the elements of [first, last); [(Thrown | None | stopped index value, state)]"""
    done = []
    cur = [s]
    for k in range(self.loop + 1):
        nxt = []
        for s1 in cur:
            it = first if k == 0 else ('o', '+', first, ('c', k))
            for t, s2 in self.truth(s1, self.eq(it, last)):
                if t:
                    self.emit(s2, fr, 'loopend', '', e, extra='done')
                    done.append((None, s2))
                elif k < self.loop:
                    self.emit(s2, fr, 'iter', '', e, extra=k)
                    rs = call_closure(self, clo, args(it, k) if args else [elt(first, k)], e, fr, s2)
                    if rs is None:
                        return None
                    for r, s3 in rs:
                        if T(r):
                            done.append((r, s3))
                        elif until is not None:
                            for b, s4 in self.truth(s3, r):
                                if b == until:
                                    self.emit(s4, fr, 'loopend', '', e, extra='break')
                                    done.append((it, s4))
                                else:
                                    nxt.append(s4)
                        else:
                            if out is not None:
                                o = out if k == 0 else ('o', '+', out, ('c', k))
                                self.put(s3, (('d', o),), r if r is not None else NULL)
                                self.emit(s3, fr, 'store', '', e, obj=('L', (('d', o),)), val=r, extra='element')
                            nxt.append(s3)
        cur = nxt
    return done


@model('std::for_each', 'std::ranges::for_each')
def m_for_each(self, e, fn, oloc, args, fr, s):
    if len(args) != 3:
        return None
    r = walk(self, self.val(s, args[0]), self.val(s, args[1]), args[2], e, fr, s)
    if r is None:
        return None
    return [(x if T(x) else args[2], s2) for x, s2 in r]


@model('std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::find_if_not')
def m_any(self, e, fn, oloc, args, fr, s):
    if len(args) != 3:
        return None
    n = short(fn['n'])
    last = self.val(s, args[1])
    r = walk(self, self.val(s, args[0]), last, args[2], e, fr, s, until=n not in ('all_of', 'find_if_not'))
    if r is None:
        return None
    out = []
    for x, s2 in r:
        if T(x):
            out.append((x, s2))
        elif n.startswith('find'):
            tp = self.temp(s2, fr, e)
            s2.store[tp] = last if x is None else x
            out.append((('L', tp) if e.get('tc') else s2.store[tp], s2))
        else:
            out.append((TRUE if (x is None) == (n != 'any_of') else FALSE, s2))
    return out


@model('boost::mp11::mp_for_each')
def m_mp_for_each(self, e, fn, oloc, args, fr, s):
    if len(args) != 1:
        return None
    path = args[0][1] if args[0][0] in ('L', 'p') else None
    v = self.load(s, path) if path else None
    if not v or v[0] != 'lam':
        return None
    for k, fid in enumerate(v[1]):
        pass
    self.emit(s, fr, 'call', fn['n'], e, args=tuple(args), argv=(v,))
    return call_closure(self, args[0], [('o', 'index')], e, fr, s, fids=v[1])


@model('std::current_exception')
def m_curexc(self, e, fn, oloc, args, fr, s):
    v = s.store.get(('cur-exc',))
    r = ('o', 'eptr', v) if v is not None else ('o', 'current_exception')
    if v is not None:
        s.facts[r] = True
    else:
        s.facts.setdefault(r, True) if getattr(self, 'in_handler', True) else None
    tp = self.temp(s, fr, e)
    s.store[tp] = r
    self.emit(s, fr, 'call', 'std::current_exception', e, val=r)
    return [(('L', tp), s)]


@model('std::make_exception_ptr')
def m_mkexc(self, e, fn, oloc, args, fr, s):
    v = self.val(s, args[0])
    r = ('o', 'eptr', v)
    s.facts[r] = True
    tp = self.temp(s, fr, e)
    s.store[tp] = r
    self.emit(s, fr, 'call', 'std::make_exception_ptr', e, args=tuple(args), val=r, argv=(v,))
    return [(('L', tp), s)]


@model('std::rethrow_exception')
def m_rethrow(self, e, fn, oloc, args, fr, s):
    v = self.val(s, args[0])
    self.emit(s, fr, 'throw', 'std::rethrow_exception', e, args=tuple(args), val=v)
    if v[0] == 'o' and v[1] == 'eptr':
        return [(Thrown((v[2],)), s)]
    return [(Thrown((('o', 'of_eptr', v),)), s)]


@model('boost::throw_exception', 'boost::asio::detail::throw_exception')
def m_throw(self, e, fn, oloc, args, fr, s):
    v = thrown_as(self, self.val(s, args[0]), e['a'][0] if e.get('a') else {}, fn)
    self.emit(s, fr, 'throw', fn['n'], e, args=tuple(args), val=v)
    return [(Thrown((v,)), s)]


def thrown_as(self, v, x, fn):
    """an exception class of the library that adds nothing to its base is still itself"""
    if v is not None and v[:2] == ('o', 'new'):
        while isinstance(x, dict) and not x.get('tc') and isinstance(x.get('e'), dict):
            x = x['e']
        for c in [x.get('tc') if isinstance(x, dict) else None] + [a for a in (fn or {}).get('ta') or [] if isinstance(a, str)]:
            if c and c != v[2] and c in self.db.recs:
                return v[:2] + (c,) + v[3:]
    return v


@model('boost::asio::detail::throw_error', 'boost::system::throw_exception_from_error')
def m_throw_error(self, e, fn, oloc, args, fr, s):
    v = self.val(s, args[0])
    out = []
    if fn['n'].endswith('from_error'):
        self.emit(s, fr, 'throw', fn['n'], e, args=tuple(args), val=v)
        return [(Thrown((('o', 'new', 'boost::system::system_error', v),)), s)]
    for t, s2 in self.truth(s, v):
        if t:
            self.emit(s2, fr, 'throw', fn['n'], e, args=tuple(args), val=v)
            out.append((Thrown((('o', 'new', 'boost::system::system_error', v),)), s2))
        else:
            out.append((None, s2))
    return out


@model('std::__exception_ptr::operator==', 'std::operator==', 'boost::cobalt::operator==', 'std::__n4861::operator==')
def m_opeq(self, e, fn, oloc, args, fr, s):
    if len(args) == 2:
        if fn['n'] == 'boost::cobalt::operator==' and self.db.fns.get(fn['id']) is not None and 'unique_handle' not in str(fn.get('pk', '')) and not is_handle_eq(self, fn):
            return None
        return [(self.eq(self.val(s, args[0]), self.val(s, args[1])), s)]
    return None


@model('std::__exception_ptr::operator!=', 'std::operator!=', 'boost::cobalt::operator!=')
def m_opne(self, e, fn, oloc, args, fr, s):
    if len(args) == 2:
        return [(self.neg(self.eq(self.val(s, args[0]), self.val(s, args[1]))), s)]
    return None


def is_handle_eq(self, fn):
    f = self.db.fns.get(fn['id'])
    return f and any('unique_handle' in p['t'] or 'coroutine_handle' in p['t'] for p in f['params'])


@model('std::coroutine_handle::from_promise', 'std::__n4861::coroutine_handle::from_promise', 'boost::cobalt::unique_handle::from_promise')
def m_from_promise(self, e, fn, oloc, args, fr, s):
    a = args[0]
    v = ('o', 'from_promise', ('p', a[1]) if a[0] == 'L' else a)
    s.facts[v] = True
    tp = self.temp(s, fr, e)
    s.store[tp] = v
    return [(('L', tp), s)]


@model('std::coroutine_handle::from_address', 'std::__n4861::coroutine_handle::from_address', 'boost::cobalt::unique_handle::from_address')
def m_from_address(self, e, fn, oloc, args, fr, s):
    v = self.val(s, args[0])
    tp = self.temp(s, fr, e)
    s.store[tp] = v
    return [(('L', tp), s)]


@model('std::noop_coroutine', 'std::__n4861::noop_coroutine')
def m_noop(self, e, fn, oloc, args, fr, s):
    v = ('o', 'noop')
    s.facts[v] = True
    tp = self.temp(s, fr, e)
    s.store[tp] = v
    return [(('L', tp), s)]


@model('std::get', 'boost::variant2::get', 'std::__get_helper')
def m_get(self, e, fn, oloc, args, fr, s):
    if args and args[0][0] == 'L':
        # index is part of the mangled name / instantiation
        key = ('get', fn['id'])
        idx = mangled_index(fn['id'])
        if s.store.get(args[0][1] + ('refs',)) == TRUE:
            v = self.load(s, args[0][1] + (('get', idx),))
            if v[0] == 'p':
                return [(('L', v[1]), s)]
        return [(('L', args[0][1] + (('get', idx),)), s)]
    return None


def mangled_index(mid):
    import re
    m = re.search(r'getIL[mj](\d+)E', mid) or re.search(r'_helperILm(\d+)E', mid)
    return int(m.group(1)) if m else mid


@model('std::get_if', 'boost::variant2::get_if')
def m_get_if(self, e, fn, oloc, args, fr, s):
    v = self.val(s, args[0])
    return None


@model('std::min')
def m_min(self, e, fn, oloc, args, fr, s):
    a, b = (self.val(s, x) for x in args[:2])
    out = []
    for t, s2 in self.truth(s, self.compare('<', b, a)):
        out.append((b if t else a, s2))
    return out


@model('boost::ignore_unused', 'std::ignore')
def m_ignore(self, e, fn, oloc, args, fr, s):
    return [(None, s)]


@model('boost::intrusive::list_impl::front')
def m_list_front(self, e, fn, oloc, args, fr, s):
    if oloc is None:
        return None
    v = ('o', fn['n'], self.load(s, oloc))
    if depth(v) > 14:
        return None
    s.store[(('frontof', v),)] = ('L', oloc)
    self.emit(s, fr, 'call', fn['n'], e, obj=('L', oloc), fn=fn, val=v)
    return [(('L', (('d', v),)), s)]


@model('boost::variant2::detail::variant_base_impl::index', 'boost::variant2::variant::index')
def m_var_index(self, e, fn, oloc, args, fr, s):
    if oloc is None:
        return None
    return [(self.load(s, oloc + ('index',)), s)]


@model('boost::variant2::variant::operator=')
def m_var_assign(self, e, fn, oloc, args, fr, s):
    if oloc is None or 'monostate' not in str(e['a'][-1].get('tc', '')) + str(e['a'][-1].get('t', '')):
        return None
    self.put(s, oloc, ('o', 'variant', 'monostate'))
    s.store[oloc + ('index',)] = ('c', 0)
    self.emit(s, fr, 'store', self.lname(('L', oloc)), e, obj=('L', oloc), val=('o', 'variant', 'monostate'), extra='assign')
    return [(('L', oloc), s)]


def elem(path, idx):
    """location of the element idx of the container at path"""
    return path + (('at', idx[1] if idx and idx[0] == 'c' else idx),)


@model('std::array::operator[]', 'std::vector::operator[]', 'std::array::at', 'std::vector::at')
def m_index(self, e, fn, oloc, args, fr, s):
    if oloc is None or not args or 'vector<bool' in (fn.get('cls') or '') or not e.get('lv'):
        return None
    idx = self.val(s, args[0])
    r = ('L', elem(oloc, idx))
    self.emit(s, fr, 'call', fn['n'], e, obj=('L', oloc), args=tuple(args), fn=fn, val=r, argv=(idx,))
    return [(r, s)]


def arr_size(fn):
    """N of a member function of std::array<T, N>"""
    m = re.search(r', (\d+)(?:[uUlL]*)>$', fn.get('cls') or '')
    return int(m.group(1)) if m and (fn.get('cls') or '').startswith('std::array<') else None


def iter_at(container, k):
    return ('o', 'it', ('p', container), k)


def ret_obj(self, s, fr, e, r):
    if e.get('tc'):
        tp = self.temp(s, fr, e)
        self.put(s, tp, r)
        return [(('L', tp), s)]
    return [(r, s)]


@model('std::begin', 'std::cbegin', 'std::end', 'std::cend')
def m_begin(self, e, fn, oloc, args, fr, s):
    if not args or args[0][0] != 'L':
        return None
    if short(fn['n']).endswith('begin'):
        r = iter_at(args[0][1], ('c', 0))
    else:
        r = it_end(self, s, args[0][1])
    self.emit(s, fr, 'call', fn['n'], e, args=tuple(args), fn=fn, val=r, argv=(r,))
    return ret_obj(self, s, fr, e, r)


@model('std::vector::begin', 'std::vector::cbegin', 'std::vector::end', 'std::vector::cend', 'std::list::begin', 'std::list::cbegin', 'std::list::end', 'std::list::cend', 'std::array::begin', 'std::array::end', 'std::array::cbegin', 'std::array::cend')
def m_cbegin(self, e, fn, oloc, args, fr, s):
    if oloc is None or 'vector<bool' in (fn.get('cls') or ''):
        return None
    beg = short(fn['n']).endswith('begin')
    n = arr_size(fn)
    if n is not None:
        r = ('p', elem(oloc, ('c', 0 if beg else n)))
    elif fn['n'].startswith('std::array'):
        return None
    else:
        r = iter_at(oloc, ('c', at_or_after(s, oloc, 0))) if beg else it_end(self, s, oloc)
    self.emit(s, fr, 'call', fn['n'], e, obj=('L', oloc), args=tuple(args), fn=fn, val=r, argv=())
    return ret_obj(self, s, fr, e, r)


def count_of(self, s, path):
    """how many elements the container at path has, when the analysis knows"""
    n = cv(s.store.get(path + ('#',), ('i', ())))
    if n is None and self.sizes:
        n = self.sizes(path)
    return n


def gone(s, path, k):
    """was the k-th element of the list at path erased"""
    return (path + ('-%d' % k,)) in s.store


def at_or_after(s, path, k):
    while gone(s, path, k):
        k += 1
    return k


@model('std::list::erase')
def m_list_erase(self, e, fn, oloc, args, fr, s):
    v = self.val(s, args[0]) if oloc is not None and len(args) == 1 else None
    n = count_of(self, s, oloc) if oloc is not None else None
    if n is None or not is_it(v) or v[1] != 'it' or v[2] != ('p', oloc) or cv(v[3]) is None or not 0 <= cv(v[3]) < n:
        return None
    k = cv(v[3])
    s.store[oloc + ('-%d' % k,)] = TRUE
    r = iter_at(oloc, ('c', at_or_after(s, oloc, k + 1)))
    self.emit(s, fr, 'call', fn['n'], e, obj=('L', oloc), args=tuple(args), fn=fn, val=r, argv=(v,))
    return ret_obj(self, s, fr, e, r)


def it_end(self, s, path):
    n = count_of(self, s, path)
    return ('o', 'itend', ('p', path)) if n is None else iter_at(path, ('c', n))


@model('std::vector::size', 'std::list::size', 'std::list::empty', 'std::size', 'std::vector::empty', 'std::empty')
def m_size(self, e, fn, oloc, args, fr, s):
    loc = oloc if oloc is not None else args[0][1] if args and args[0][0] == 'L' else None
    n = count_of(self, s, loc) if loc is not None else None
    if n is None:
        return None
    n -= sum(gone(s, loc, k) for k in range(n))
    return [(('c', n) if short(fn['n']) == 'size' else TRUE if n == 0 else FALSE, s)]


def place(self, s, path, a):
    """store argument a (a location or a value) at path"""
    if a is not None and a[0] == 'L':
        self.copy_tree(s, a[1], path)
    else:
        self.put(s, path, a)


@model('std::vector::push_back', 'std::vector::emplace_back')
def m_push_back(self, e, fn, oloc, args, fr, s):
    n = cv(s.store.get(oloc + ('#',), ('i', ()))) if oloc is not None else None
    if n is None or len(args) != 1 or 'vector<bool' in (fn.get('cls') or ''):
        return None
    loc = elem(oloc, ('c', n))
    place(self, s, loc, args[0])
    s.store[oloc + ('#',)] = ('c', n + 1)
    self.emit(s, fr, 'call', fn['n'], e, obj=('L', oloc), args=tuple(args), fn=fn, argv=tuple(self.val(s, a) for a in args))
    return self.maybe_throw(s, fr, e, fn['n'], fn, ('L', loc) if e.get('lv') else None)


@model('std::vector::reserve', 'std::vector::shrink_to_fit')
def m_reserve(self, e, fn, oloc, args, fr, s):
    if oloc is None or cv(s.store.get(oloc + ('#',), ('i', ()))) is None:
        return None
    self.emit(s, fr, 'call', fn['n'], e, obj=('L', oloc), args=tuple(args), fn=fn, argv=tuple(self.val(s, a) for a in args))
    return self.maybe_throw(s, fr, e, fn['n'], fn)


def sized_range(self, a, b):
    """[locations] between two positions, None when unknown"""
    if not (is_it(a) or a is not None and a[0] == 'p') or b is None or a[0] != b[0]:
        return None
    if a[0] == 'p':
        x, y = a[1][-1] if a[1] else None, b[1][-1] if b[1] else None
        if a[1][:-1] != b[1][:-1] or not (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'at' and isinstance(x[1], int) and isinstance(y[1], int)):
            return None
        return [a[1][:-1] + (('at', k),) for k in range(x[1], y[1])]
    if a[1] != 'it' or b[1] != 'it' or a[2] != b[2] or cv(a[3]) is None or cv(b[3]) is None:
        return None
    return [elem(a[2][1], ('c', k)) for k in range(cv(a[3]), cv(b[3]))]


@model('std::transform', 'std::generate')
def m_transform(self, e, fn, oloc, args, fr, s):
    what = short(fn['n'])
    if len(args) < 3:
        return None
    a, b = self.val(s, args[0]), self.val(s, args[1])
    locs = sized_range(self, a, b)
    out = self.val(s, args[2]) if what == 'transform' else None
    if locs is None or what == 'transform' and (len(args) != 4 or not is_it(out) or out[1] != 'it' or cv(out[3]) is None):
        return None
    clo = args[-1]
    if clo[0] != 'L' or self.load(s, clo[1])[0] != 'lam':
        return None
    self.emit(s, fr, 'call', fn['n'], e, args=tuple(args), fn=fn, argv=tuple(self.val(s, x) for x in args))
    cur, done = [s], []
    for i, loc in enumerate(locs):
        nxt = []
        for s1 in cur:
            rs = call_closure(self, clo, [] if what == 'generate' else [('L', loc)], e, fr, s1, keep=True)
            if rs is None:
                return None
            for r, s2 in rs:
                if T(r):
                    done.append((r, s2))
                    continue
                place(self, s2, loc if what == 'generate' else elem(out[2][1], ('c', cv(out[3]) + i)), r)
                nxt.append(s2)
        cur = nxt
    r = ('o', 'it', out[2], self.arith('+', out[3], ('c', len(locs)))) if out is not None else self.load(s, clo[1])
    return done + [(None if what == 'generate' else r, s1) for s1 in cur]


@model('boost::mp11::tuple_transform')
def m_tuple_transform(self, e, fn, oloc, args, fr, s):
    """a function object applied to each element of a tuple: one call of the matching instantiation per element"""
    if len(args) != 2 or args[0][0] != 'L' or args[1][0] != 'L':
        return None
    clo = self.load(s, args[0][1])
    types = [bare(x) for x in template_args(e['a'][-1].get('tc') or e['a'][-1].get('t') or '')]
    if clo[0] != 'lam' or not types:
        return None
    pick = []
    for x in types:
        c = [i for i in clo[1] if self.db.fns.get(i) and len(self.db.fns[i]['params']) == 1 and bare(self.db.fns[i]['params'][0]['t']) == x]
        if not c:
            return None
        pick.append(c[0])
    tp = self.temp(s, fr, e)
    r = self.fresh(s, fr, id(e), 'tuple_transform')
    self.put(s, tp, r)
    self.emit(s, fr, 'call', fn['n'], e, args=tuple(args), fn=fn, argv=tuple(self.val(s, x) for x in args), val=r)
    cur, done = [s], []
    for k, fid in enumerate(pick):
        nxt = []
        for s1 in cur:
            rs = call_closure(self, args[0], [('L', args[1][1] + (('get', k),))], e, fr, s1, fids=[fid], keep=True)
            if rs is None:
                return None
            for v, s2 in rs:
                if T(v):
                    done.append((v, s2))
                else:
                    place(self, s2, tp + (('get', k),), v)
                    nxt.append(s2)
        cur = nxt
    return done + [(('L', tp), s1) for s1 in cur]


@model('std::apply')
def m_apply(self, e, fn, oloc, args, fr, s):
    """a function object called with the elements of a tuple"""
    if len(args) != 2 or args[1][0] != 'L':
        return None
    tt = bare(e['a'][-1].get('tc') or e['a'][-1].get('t') or '')
    if not tt.startswith('std::tuple<'):
        return None
    types = [bare(x) for x in template_args(tt)]
    elts = [('L', args[1][1] + (('get', k),)) for k in range(len(types))]
    clo = self.load(s, args[0][1]) if args[0][0] == 'L' else None
    if clo is None or clo[0] != 'lam':
        self.emit(s, fr, 'call', fn['n'], e, obj=args[0], args=tuple(elts), fn=fn, argv=tuple(self.val(s, x) for x in elts))
        return None
    fs = [self.db.fns.get(i) for i in clo[1]]
    fs = [f for f in fs if f and len(f['params']) == len(types)]
    fs = [f for f in fs if [bare(q['t']) for q in f['params']] == types] or fs
    if not fs:
        return None
    self.emit(s, fr, 'call', fn['n'], e, args=tuple(args), fn=fn, argv=tuple(self.val(s, x) for x in args))
    return call_closure(self, args[0], elts, e, fr, s, fids=[fs[0]['id']], keep=True)


def bare(t):
    t = re.sub(r'^const ', '', t.strip())
    return re.sub(r'[\s&]+$', '', t).strip()


@model('boost::mp11::mp_for_each')
def m_mp_for_each(self, e, fn, oloc, args, fr, s):
    """a function object called once per constant: its instantiations in the order of their constants"""
    clo = self.load(s, args[0][1]) if args and args[0][0] == 'L' else None
    if clo is None or clo[0] != 'lam':
        return None
    fids = []
    for i in clo[1]:
        ps = (self.db.fns.get(i) or {}).get('params') or []
        m = re.search(r'integral_constant<[^,<>]*, (\d+)', ps[0]['t'] if len(ps) == 1 else '')
        if not m:
            return None
        fids.append((int(m.group(1)), i))
    rs = call_closure(self, args[0], [None], e, fr, s, fids=[i for _, i in sorted(fids)])
    return None if rs is None else [(x if T(x) else args[0], s2) for x, s2 in rs]


@model('std::fill')
def m_fill(self, e, fn, oloc, args, fr, s):
    if len(args) != 3:
        return None
    locs = sized_range(self, self.val(s, args[0]), self.val(s, args[1]))
    if locs is None:
        return None
    self.emit(s, fr, 'call', fn['n'], e, args=tuple(args), fn=fn, argv=tuple(self.val(s, x) for x in args))
    for loc in locs:
        place(self, s, loc, args[2])
    return [(None, s)]


@model('std::shuffle')
def m_shuffle(self, e, fn, oloc, args, fr, s):
    """the elements are reordered: an analysis that asks for one of them by position sees any of them"""
    locs = sized_range(self, self.val(s, args[0]), self.val(s, args[1])) if len(args) == 3 else None
    if locs is None:
        return None
    vals = tuple(self.load(s, x) for x in locs)
    self.emit(s, fr, 'call', fn['n'], e, args=tuple(args), fn=fn, argv=tuple(self.val(s, x) for x in args), extra=vals)
    for k, x in enumerate(locs):
        self.put(s, x, ('o', 'oneof', ('c', k)) + vals)
    return [(None, s)]


def events_of(s):
    t = s.trace
    while t is not None:
        yield t[1]
        t = t[0]


@model('std::tie', 'std::forward_as_tuple')
def m_tie(self, e, fn, oloc, args, fr, s):
    if any(a is None or a[0] != 'L' for a in args):
        return None
    tp = self.temp(s, fr, e)
    r = self.fresh(s, fr, id(e), short(fn['n']))
    self.put(s, tp, r)
    s.store[tp + ('refs',)] = TRUE
    for k, a in enumerate(args):
        s.store[tp + (('get', k),)] = ('p', a[1])
    self.emit(s, fr, 'call', fn['n'], e, args=tuple(args), fn=fn, argv=tuple(self.val(s, a) for a in args), val=r)
    return [(('L', tp), s)]


@model('std::make_tuple', 'std::make_pair')
def m_make_tuple(self, e, fn, oloc, args, fr, s):
    vals = tuple(self.val(s, a) for a in args)
    tp = self.temp(s, fr, e)
    r = self.fresh(s, fr, id(e), short(fn['n']))
    self.put(s, tp, r)
    names = [('get', k) for k in range(len(args))] if short(fn['n']) == 'make_tuple' else ['first', 'second']
    for n, a in zip(names, args):
        place(self, s, tp + (n,), a)
    self.emit(s, fr, 'call', fn['n'], e, args=tuple(args), fn=fn, argv=vals, val=r)
    return self.maybe_throw(s, fr, e, fn['n'], fn, ('L', tp))


@model('std::array::data')
def m_data(self, e, fn, oloc, args, fr, s):
    if oloc is None:
        return None
    return [(('p', oloc + (('at', 0),)), s)]


@model('std::vector::front', 'std::vector::back', 'std::array::front', 'std::array::back')
def m_front(self, e, fn, oloc, args, fr, s):
    if oloc is None or 'vector<bool' in (fn.get('cls') or '') or not e.get('lv'):
        return None
    k = 0
    if short(fn['n']) == 'back':
        n = arr_size(fn) or (self.sizes(oloc) if self.sizes else None)
        if not n:
            return None
        k = n - 1
    return [(('L', elem(oloc, ('c', k))), s)]


def is_it(v):
    return v is not None and v[0] == 'o' and v[1] in ('it', 'itend')


@model('std::next', 'std::advance')
def m_next(self, e, fn, oloc, args, fr, s):
    v = self.val(s, args[0])
    n = self.val(s, args[1]) if len(args) > 1 else ('c', 1)
    if v is not None and v[0] == 'p' and v[1] and isinstance(v[1][-1], tuple) and v[1][-1][0] == 'at':
        r = self.arith('+', v, n)
    elif not is_it(v) or v[1] != 'it':
        return None
    else:
        r = ('o', 'it', v[2], self.arith('+', v[3], n))
    self.emit(s, fr, 'call', fn['n'], e, args=tuple(args), fn=fn, val=r, argv=(v, n))
    if short(fn['n']) == 'advance':
        if args[0][0] == 'L':
            self.put(s, args[0][1], r)
        return [(None, s)]
    return ret_obj(self, s, fr, e, r)


ITERS = ('__gnu_cxx::__normal_iterator', 'std::_List_iterator', 'std::_List_const_iterator')


@model(*[c + '::operator*' for c in ITERS] + [c + '::operator->' for c in ITERS])
def m_iter_deref(self, e, fn, oloc, args, fr, s):
    v = self.load(s, oloc) if oloc is not None else None
    if not is_it(v) or v[1] != 'it':
        return None
    loc = elem(v[2][1], v[3])
    return [(('L', loc) if short(fn['n']) == 'operator*' else ('p', loc), s)]


@model(*[c + '::operator' + o for c in ITERS for o in ('++', '--', '+=')])
def m_iter_step(self, e, fn, oloc, args, fr, s):
    v = self.load(s, oloc) if oloc is not None else None
    if not is_it(v) or v[1] != 'it':
        return None
    o = short(fn['n'])[-2:]
    r = ('o', 'it', v[2], self.arith('-' if o == '--' else '+', v[3], self.val(s, args[0]) if o == '+=' else ('c', 1)))
    if o == '++' and cv(r[3]) is not None:
        r = r[:3] + (('c', at_or_after(s, v[2][1], cv(r[3]))),)
    self.put(s, oloc, r)
    if args and o != '+=':                        # postfix
        return ret_obj(self, s, fr, e, v)
    return [(('L', oloc), s)]


def iter_rel(self, o, a, b):
    """a o b for two positions in the same container"""
    if o in ('==', '!='):
        if a[1] == b[1]:
            r = TRUE if a == b else self.eq(a[3], b[3])
        else:
            r = ('o', 'atend', a[2], (b if a[1] == 'itend' else a)[3])
        return r if o == '==' else self.neg(r)
    if o in ('>', '>='):
        return iter_rel(self, {'>': '<', '>=': '<='}[o], b, a)
    if a[1] == b[1] == 'itend':
        return TRUE if o == '<=' else FALSE
    if a[1] == 'itend':                           # no position lies behind the end
        return FALSE if o == '<' else ('o', 'atend', a[2], b[3])
    if b[1] == 'itend':
        return TRUE if o == '<=' else self.neg(('o', 'atend', a[2], a[3]))
    x, y = cv(a[3]), cv(b[3])
    if x is None or y is None:
        return ('o', o, a[3], b[3])
    return TRUE if (x < y or o == '<=' and x == y) else FALSE


@model(*[n + 'operator' + o for n in ('__gnu_cxx::', 'std::', 'std::_List_iterator::') for o in ('==', '!=', '<', '<=', '>', '>=')])
def m_iter_cmp(self, e, fn, oloc, args, fr, s):
    vs = ([self.load(s, oloc)] if oloc is not None else []) + [self.val(s, a) for a in args]
    if len(vs) != 2:
        return None
    o = short(fn['n'])[8:]
    a, b = vs
    if a is not None and a[0] == 'o' and a[1] == '<=>':            # (a <=> b) o 0
        return [(iter_rel(self, o, a[2], a[3]), s)]
    if o in ('==', '!=') and fn['n'].startswith('std::') and len(args) == 2 and [x[0] for x in args].count('L') == 1 and any(x == NULL for x in args):
        r = self.eq(a, b)                                         # an owner and nullptr
        return [(r if o == '==' else self.neg(r), s)]
    if not is_it(a) or not is_it(b) or a[2] != b[2]:
        return None
    return [(iter_rel(self, o, a, b), s)]


@model('__gnu_cxx::operator<=>')
def m_iter_spaceship(self, e, fn, oloc, args, fr, s):
    vs = [self.val(s, a) for a in args]
    if len(vs) != 2 or not is_it(vs[0]) or not is_it(vs[1]) or vs[0][2] != vs[1][2]:
        return None
    return ret_obj(self, s, fr, e, ('o', '<=>', vs[0], vs[1]))


LIMITS = {'unsigned long': 64, 'unsigned int': 32, 'unsigned long long': 64, 'std::size_t': 64, 'size_t': 64}


@model('std::numeric_limits::max')
def m_max(self, e, fn, oloc, args, fr, s):
    n = LIMITS.get(e.get('t'))
    return [(('c', (1 << n) - 1), s)] if n else None

