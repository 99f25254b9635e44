"""Generators: the values going in and out (P08)."""
from lib import *
from r_slot import value_of_path, is_own_handle, suspends

AW, R, T = root('aw'), root('rec'), root('this')
ENGAGED = ('?',)


def eng(p, path):
    """is the optional / flag at path set at the end of the path"""
    if path + ENGAGED not in p.state.store and path in p.state.store and p.state.store[path][0] in ('c', 'i'):
        c = cv(p.state.store[path])                      # a plain bool
        if c is not None:
            return bool(c)
    t = fact(p, load(p, path + ENGAGED))
    return t if t is not None else fact(p, load(p, path))


def flag0(st, path):
    """what the path assumed about the optional / flag at path when it started"""
    for k in (('i', path + ENGAGED), ('i', path)):
        if k in st.facts:
            return st.facts[k]
    return None


def out_value(p):
    v = p.value
    if v is None:
        return None
    return v


def ret_path(p):
    v = p.value
    return v[1] if v is not None and v[0] in ('L', 'p') else None


def flag(cx, rec, name):
    r = cx.db.recs.get(rec)
    return r


def unwrap(p, path):
    """path of the location whose value is asked for, or the value itself"""
    return load(p, path)


@rule('P08')
def values_leave_in_order(cx):
    """Taking a value from the receiver yields the oldest one, and the buffered one (if any) moves up; nothing stays behind twice."""
    for fn in cx.fns('detail::generator_receiver::get_result'):
        for buffered in (0, 1):
            ps = cx.paths(fn, this=R, seed={R + ('result', '?'): ('c', 1), R + ('result_buffer', '?'): ('c', buffered)})
            for p in ps:
                if p.outcome != 'return':
                    continue
                cx.ob(yields(p, R + ('result', '*')), fn, 'the oldest value must be the one that is taken', p)
                cx.ob(eng(p, R + ('result_buffer',)) is False, fn, 'a buffered value must not stay buffered', p)
                if buffered:
                    cx.ob(eng(p, R + ('result',)) is True and holds(p, R + ('result', '*'), R + ('result_buffer', '*')), fn,
                          'a buffered value must be the next one to be taken', p)
                else:
                    cx.ob(eng(p, R + ('result',)) is False, fn, 'a value must not be taken twice', p)


def stored_yield(cx, fn, p, arg, R=R):
    """exactly one of result and result_buffer took the value"""
    had = flag0(p.state, R + ('result',))
    f, o = ('result_buffer', 'result') if had else ('result', 'result_buffer')
    cx.ob(eng(p, R + (f,)) is True and contains(load(p, R + (f, '*')), lambda x: x == arg), fn, 'the yielded value must reach the receiver', p)
    cx.ob(load(p, R + (o, '*')) == I(R + (o, '*')) and (R + (o,) not in p.state.store), fn, 'a yielded value must not replace one that was not taken yet', p)


@rule('P08')
def yielded_value_is_kept(cx):
    """A yielded (or returned) value is stored for the consumer, behind a value that was not taken yet."""
    for fn in cx.fns('detail::generator_receiver::yield_value'):
        prm = fn['params'][0]
        arg = ('i', (('arg', prm['n']),))
        for p in cx.paths(fn, this=R):
            if p.outcome == 'return':
                stored_yield(cx, fn, p, arg)
    for n in ('yield_value', 'return_value'):
        for fn in cx.fns('detail::generator_promise::' + n):
            prm = fn['params'][0]
            arg = ('i', (('arg', prm['n']),))
            rec = 'receiver'
            for p in cx.paths(fn, this=T, seed={T + (rec,): P(R)}):
                if p.outcome != 'return':
                    continue
                stored_yield(cx, fn, p, arg)
                if n == 'yield_value':
                    rp = ret_path(p)
                    cx.ob(rp is not None and load(p, rp + ('self',)) == P(T), fn, 'yielding must suspend the generator that yields', p)
            for p in cx.paths(fn, this=T, seed={T + (rec,): NULL}):
                if n == 'yield_value' and p.outcome == 'return':
                    rp = ret_path(p)
                    cx.ob(rp is not None and cv(load(p, rp + ('self',))) == 0, fn, 'a detached generator must end when it yields', p)


def pushed(cx, fn):
    """(path of the pushed value, engaged path) for the receiver of fn's class"""
    return R + ('pushed_value',)


def is_void_push(cx, fn):
    r = [x for x in cx.recs('detail::generator_receiver_base') if True]
    import re
    m = re.search(r'generator_(?:receiver|yield_awaitable|promise)<(.*)>$', short_cls(fn))
    return m is not None and m.group(1).rstrip().endswith('void')


def short_cls(fn):
    q = fn['q']
    import re
    m = re.search(r'(generator_(?:receiver|yield_awaitable|promise)<.*?>)(?:::|$)', q)
    return m.group(1) if m else ''


@rule('P08')
def resumed_generator_gets_the_pushed_value(cx):
    """Whoever resumes a generator out of co_yield (or initial) has put the pushed value in place, gives up the suspended
    generator, and pushes each value once."""
    n = 0
    for fn in cx.fns('detail::generator_receiver::awaitable::await_suspend'):
        pv = R + ('pushed_value',)
        for p in cx.paths(fn, this=AW, seed={AW + ('self',): P(R)}):
            if p.outcome != 'return':
                continue
            v = value_of_path(p)
            w = I(R + ('yield_from',))
            if v is not None and contains(v, lambda x: x == w) and fact(p, w) is not False:
                n += 1
                cx.ob(eng(p, pv) is True or p_none_pushed(p), fn, 'a generator resumed from co_yield must find the pushed value', p)
                cx.ob(cv(load(p, R + ('yield_from',))) == 0, fn, 'a resumed generator must not be kept as suspended', p)
            check_push(cx, fn, p, pv)
    if not n:
        raise Anchor('no path on which awaiting a generator resumes it')
    for fn in cx.fns('detail::generator_receiver::awaitable::await_resume'):
        pv = R + ('pushed_value',)
        for p in cx.paths(fn, this=AW, seed={AW + ('self',): P(R)}):
            if p.outcome == 'return':
                check_push(cx, fn, p, pv)
            posts = [e for e in p.events if short(e.name) in ('post', 'dispatch', 'defer')]
            had = fact(p, I(R + ('yield_from',)))
            if posts:
                cx.ob(len(posts) == 1, fn, 'a generator must be resumed once', p)
                cx.ob(eng(p, pv) is True, fn, 'a generator resumed from co_yield must find the pushed value', p)
                cx.ob(cv(load(p, R + ('yield_from',))) == 0, fn, 'a resumed generator must not be kept as suspended', p)
                check_posted(cx, fn, p, posts[0])
            elif p.outcome == 'return' and had is True and eng(p, pv) is True and fact(p, I(R + ('lazy',))) is False:
                cx.ob(False, fn, 'an eager generator that was given a value must be resumed', p)


def p_none_pushed(p):
    """nothing was given to push (only an awaitable that was awaited before)"""
    t = p.state.facts.get(('i', AW + ('to_push', 'index')))
    if t is False:
        return True
    return any(isinstance(k, tuple) and k[:2] == ('o', '<') and 'to_push' in str(k) and v is False for k, v in p.state.facts.items())


def check_push(cx, fn, p, pv):
    """a pushed value is moved into place exactly as it was given, never over a pending one, and not pushed again"""
    touched = [e for e in p.events if e.kind in ('store', 'engage') and e.obj and e.obj[0] == 'L' and e.obj[1][:len(pv)] == pv]
    if not touched:
        return
    cx.ob(len(touched) == 1, fn, 'a value must be pushed once', p)
    if eng(p, pv) is True:
        v = load(p, pv + ('*',))
        if p.state.store.get(pv + ENGAGED) is not None:
            cx.ob(has_sym(v, 'to_push'), fn, 'the value pushed must be the one the consumer gave', p)
        cx.ob(flag0(p.state, pv) is not True, fn, 'a pushed value that was not taken yet must not be replaced', p)
        cx.ob(cv(load(p, AW + ('to_push', 'index'))) == 0, fn, 'a value must not be pushed again', p)
    else:
        cx.ob(False, fn, 'a pending pushed value must not be dropped', p)


def check_posted(cx, fn, p, e):
    cs = cx.closures(p, e)
    if not cx.ob(bool(cs), fn, 'what is posted must resume the generator', p):
        return
    for _, qs in cs:
        for q in qs:
            if q.outcome != 'return':
                continue
            res = [x for x in q.events if x.kind == 'resume']
            att = [t for k, t in q.state.facts.items() if isinstance(k, tuple) and k[-1] == 'receiver' or (isinstance(k, tuple) and k[0] == 'i' and k[1][-1] == 'receiver')]
            if False in att:
                cx.ob(not res, fn, 'a generator without an owner must not be resumed', q)
            else:
                cx.ob(len(res) == 1, fn, 'the generator must be resumed once', q)
                cx.ob(True in att, fn, 'only a generator that still has an owner may be resumed', q)


@rule('P08')
def yield_waits_for_the_consumer(cx):
    """co_yield continues only with a pushed value (and, for values, only when the consumer took the last one); it hands the
    value to the waiting consumer, and takes the pushed value exactly once."""
    for fn in cx.fns('detail::generator_yield_awaitable::await_ready'):
        void = 'void>' in fn['q']
        PR = root('prom')
        seed = {T + ('self',): P(PR), PR + ('receiver',): P(R)}
        for p in cx.paths(fn, this=T, seed=seed):
            v = value_of_path(p)
            t = fact(p, v) if v is not None else None
            if t is False:
                continue
            pvk = R + ('pushed_value',)
            pv = flag0(p.state, pvk) if flag0(p.state, pvk) is not None else (fact(p, v) if v in (I(pvk), I(pvk + ENGAGED)) else None)
            if v in (I(pvk), I(pvk + ENGAGED)):
                pv = True
            cx.ob(pv is True, fn, 'a generator must not continue without a pushed value', p)
            if not void:
                r0 = flag0(p.state, R + ('result',))
                cx.ob(r0 is False or (v[0] == 'o' and v[1] == '!' and v[2] == I(R + ('result', '?'))), fn, 'a generator must not run on while its value was not taken', p)
        for p in cx.paths(fn, this=T, seed={T + ('self',): NULL}):
            cx.ob(fact(p, value_of_path(p)) is False, fn, 'a detached generator must not continue', p)
    for fn in cx.fns('detail::generator_yield_awaitable::await_suspend'):
        PR = root('prom')
        W = I(R + ('awaited_from',))
        for p in cx.paths(fn, this=T, seed={T + ('self',): P(PR), PR + ('receiver',): P(R)}):
            if p.outcome != 'return':
                continue
            v = value_of_path(p)
            if fact(p, W) is True:
                cx.ob(contains(v, lambda x: x == W), fn, 'a yielded value must wake the waiting consumer', p)
                cx.ob(cv(load(p, R + ('awaited_from',))) == 0, fn, 'a woken consumer must not be woken again', p)
            else:
                cx.ob(has_sym(v, 'noop'), fn, 'without a waiting consumer nothing may be resumed', p)
            y = load(p, R + ('yield_from',))
            cx.ob(y != I(R + ('yield_from',)) and fact(p, y) is not False, fn, 'a generator suspended in co_yield must be kept to be resumed', p)
    for fn in cx.fns('detail::generator_yield_awaitable::await_resume'):
        PR = root('prom')
        pv = R + ('pushed_value',)
        for p in cx.paths(fn, this=T, seed={T + ('self',): P(PR), PR + ('receiver',): P(R), pv + ENGAGED: ('c', 1)} if 'void>' not in fn['q'] else
                          {T + ('self',): P(PR), PR + ('receiver',): P(R), pv: ('c', 1)}):
            if p.outcome != 'return':
                continue
            cx.ob(eng(p, pv) is False, fn, 'a pushed value must be taken once', p)
            if 'void>' not in fn['q']:
                cx.ob(yields(p, pv + ('*',)), fn, 'co_yield must evaluate to the pushed value', p)


@rule('P08')
def end_is_reported(cx):
    """A generator object is true while it runs or holds a value or an error; ready() tells whether a value or error is there;
    get() throws the error or takes the value; awaiting a finished one reports that."""
    for fn in cx.fns('generator::operator bool'):
        G = T + ('receiver_',)
        for p in cx.paths(fn, this=T):
            v = fact(p, value_of_path(p))
            terms = terms_of(p, value_of_path(p), G)
            want = None
            if terms.get('done') is False or terms.get('result') is True or terms.get('exception') is True:
                want = True
            elif terms.get('done') is True and terms.get('result') is False and terms.get('exception') is False:
                want = False
            cx.ob(v is not None and want is not None and v == want or (v is None and last_term(p, value_of_path(p), G, terms)), fn,
                  'a generator must be true until it is done and its value was taken', p)
    for fn in cx.fns('generator::ready'):
        G = T + ('receiver_',)
        for r, e in ((0, 0), (1, 0), (0, 1), (1, 1)):
            for p in cx.paths(fn, this=T, seed={G + ('result', '?'): ('c', r), G + ('exception',): NULL if not e else ('o', 'theexc')}, facts={('o', 'theexc'): True}):
                cx.ob(fact(p, value_of_path(p)) is bool(r or e), fn, 'a generator must be ready exactly when it holds a value or an error', p)
    for fn in cx.fns('generator::get'):
        G = T + ('receiver_',)
        X = ('o', 'theexc')
        for p in cx.paths(fn, this=T, seed={G + ('exception',): X, G + ('result', '?'): ('c', 0)}, facts={X: True}):
            cx.ob(p.outcome == 'throw' and contains(p.value, lambda v: v == X), fn, 'get must throw the error of the generator', p)
        for p in cx.paths(fn, this=T, seed={G + ('exception',): NULL, G + ('result', '?'): ('c', 1)}):
            cx.ob(p.outcome == 'return' and yields(p, G + ('result', '*')), fn, 'get must yield the value of the generator', p)
            cx.ob(eng(p, G + ('result',)) is not True or flag0(p.state, G + ('result_buffer',)) is True, fn, 'get must take the value', p)
    for fn in cx.fns('detail::generator_receiver::ready'):
        for d, r, e in [(d, r, e) for d in (0, 1) for r in (0, 1) for e in (0, 1)]:
            X = ('o', 'theexc')
            for p in cx.paths(fn, this=R, seed={R + ('done',): ('c', d), R + ('result', '?'): ('c', r), R + ('exception',): X if e else NULL}, facts={X: True}):
                cx.ob(fact(p, value_of_path(p)) is bool(d or r or e), fn, 'awaiting must not wait exactly when there is a value, an error or the end', p)
    X = ('o', 'theexc')
    for fn in cx.fns('detail::generator_receiver::awaitable::await_resume', pred=lambda f: 'as_result_tag' in str(f['params'])):
        base = {AW + ('self',): P(R), AW + ('ex',): NULL}
        for p in cx.paths(fn, this=AW, seed={**base, R + ('exception',): X}, facts={X: True}):
            e = fact(p, load(p, (ret_path(p) or ()) + ('?',)))
            cx.ob(e is False, fn, 'an error of the generator must be reported', p)
            cx.ob(cv(load(p, R + ('exception',))) == 0, fn, 'an error must be reported once', p)
        for p in cx.paths(fn, this=AW, seed={**base, R + ('exception',): NULL, R + ('result', '?'): ('c', 0)}):
            cx.ob(fact(p, load(p, (ret_path(p) or ()) + ('?',))) is False, fn, 'the end of a generator must be reported as an error', p)
        for p in cx.paths(fn, this=AW, seed={**base, R + ('exception',): NULL, R + ('result', '?'): ('c', 1)}):
            rp = ret_path(p)
            cx.ob(fact(p, load(p, rp + ('?',))) is True and holds(p, rp + ('*',), R + ('result', '*')), fn, 'awaiting must yield the value of the generator', p)


@rule('P01')
def generator_errors_reach_the_consumer_once(cx):
    """An exception that left a generator is what awaiting it yields, and is taken out of it by that."""
    X = ('o', 'theexc')
    n = 0
    for fn in cx.fns('detail::generator_receiver::awaitable::await_resume', pred=lambda f: 'as_result_tag' in str(f['params'])):
        for p in cx.paths(fn, this=AW, seed={AW + ('self',): P(R), AW + ('ex',): NULL, R + ('exception',): X}, facts={X: True}):
            n += 1
            rp = ret_path(p) or ()
            cx.ob(fact(p, load(p, rp + ('?',))) is False, fn, 'an error of the generator must be reported', p)
            cx.ob(any(mentions(v, X) for k, v in p.state.store.items() if k[:len(rp)] == rp and rp), fn, 'the error reported must be the one that left the generator', p)
            cx.ob(cv(load(p, R + ('exception',))) == 0, fn, 'an error must be reported once', p)
    if not n:
        raise Anchor('no await of a generator')


def terms_of(p, v, G):
    out = {}
    for n, k in (('done', G + ('done',)), ('result', G + ('result', '?')), ('exception', G + ('exception',))):
        t = p.state.facts.get(('i', k))
        if t is not None:
            out[n] = t
    return out


def last_term(p, v, G, terms):
    """the value is the truth of the one member not assumed yet"""
    rest = {'done': ('o', '!', I(G + ('done',))), 'result': I(G + ('result', '?')), 'exception': I(G + ('exception',))}
    if terms.get('done') is False or terms.get('result') or terms.get('exception'):
        return False
    un = [n for n in rest if n not in terms]
    return len(un) == 1 and v is not None and (v == rest[un[0]] or contains(v, lambda x: x == rest[un[0]]))


@rule('P08')
def lazy_start(cx):
    """Awaiting initial makes the generator lazy and suspends it until a value is asked for."""
    for fn in cx.fns('detail::generator_promise::await_transform', pred=lambda f: 'initial' in str(f['params'])):
        for p in cx.paths(fn, this=T, seed={T + ('receiver',): P(R)}):
            cx.ob(cv(load(p, R + ('lazy',))) == 1, fn, 'awaiting initial must make the generator lazy', p)
            rp = ret_path(p)
            cx.ob(rp is not None and load(p, rp + ('self',)) == P(T), fn, 'awaiting initial must suspend the generator', p)
