"""What a coroutine sees of its own promise (P22)."""
import re
from lib import *
from r_op import T_, comes_from
from r_slot import value_of_path
from r_spawn import only, under

STATE = 'boost::asio::cancellation_state'


def await_results(cx, fn, this, args, **kw):
    """a co_await of something the promise itself turns into an awaitable: [(path of the transformation, path of await_resume, path of await_ready)]"""
    out = []
    cls = fn.get('rtc') or fn.get('ret') or ''
    res = [f for f in cx.db.fns.values() if f.get('cls') == cls and short(f['n']) == 'await_resume' and 'body' in f]
    rdy = [f for f in cx.db.fns.values() if f.get('cls') == cls and short(f['n']) == 'await_ready' and 'body' in f]
    if not res or not rdy:
        raise Anchor('awaitable %s' % cls)
    for p in cx.paths(fn, this=this, args=args, **kw):
        if p.outcome == 'throw':
            continue
        if p.value is None:
            raise Anchor('awaitable returned by %s' % fn['q'])
        st = p.state.copy()
        st.trace = None
        W = p.value[1] if p.value[0] == 'L' else root('aw')
        if p.value[0] != 'L':
            ENG.put(st, W, p.value)
        for r in cx.paths(rdy[0], this=W, state=st):
            st2 = r.state.copy()
            st2.trace = None
            for q in cx.paths(res[0], this=W, state=st2):
                out.append((p, q, r))
    return out


def resumes_at_once(cx, fn, r):
    cx.ob(cv(value_of_path(r)) == 1, fn, 'asking the own promise must not suspend the coroutine', r)


def fields(cx):
    base = cx.recs('promise_cancellation_base')[0]
    tic = cx.recs('promise_throw_if_cancelled_base')[0]
    return dict(state=cx.field(base, 'state_', lambda t: t.endswith('cancellation_state')), source=cx.field(base, 'source_', lambda t: t.endswith('cancellation_slot')),
                flag=cx.field(tic, 'throw_if_cancelled_', lambda t: t == 'bool'))


def cancelled_of(p, st):
    """what the path knows about the state having been cancelled: True, False or None"""
    q = STATE + '::cancelled'

    def is_c(v):
        return v == ('o', q, I(st)) or (v[0] == 'o' and v[1] in ('cast', 'static_cast') and any(is_c(x) for x in v[2:] if isinstance(x, tuple)))
    for e in p.events:
        if e.kind in ('call', 'enter') and short(e.name) == 'operator!' and e.argv and is_c(e.argv[0]) and e.val is not None:
            t = fact(p, e.val)
            if t is not None:
                return not t
    for k, t in p.state.facts.items():
        if is_c(k):
            return t
        if k[0] == 'o' and k[1] == '==' and any(is_c(x) for x in k[2:]):
            o = [x for x in k[2:] if not is_c(x)][0]
            if cv(o) == 0 or o[0] == 'e' and o[1].endswith('::none'):
                return not t
    return None


@rule('P22')
def awaiting_stops_a_cancelled_coroutine(cx):
    """Awaiting anything in a coroutine that was cancelled throws operation_aborted, unless the coroutine asked not to; otherwise the very
    awaitable that was given is awaited."""
    F = fields(cx)
    n = 0
    for fn in cx.fns('enable_awaitables::await_transform'):
        owner = fn.get('cls', '').partition('<')[2].rpartition('>')[0]
        rec = cx.db.recs.get(owner)
        throws = rec is not None and any('promise_throw_if_cancelled_base' in b for b in rec['bases'])
        aw = root('aw')
        for p in cx.paths(fn, this=T_, args=[('L', aw)] + [('s', 'loc')] * (len(fn['params']) - 1)):
            if not throws:
                cx.ob(p.outcome == 'return' and p.value == ('L', aw), fn, 'the given awaitable must be awaited', p)
                continue
            n += 1
            c, t = cancelled_of(p, T_ + (F['state'],)), fact(p, I(T_ + (F['flag'],)))
            if p.outcome == 'throw':
                cx.ob(c is True and t is True, fn, 'only a cancelled coroutine that wants to know must be stopped', p)
                cx.ob(has_sym(p.value, 'operation_aborted'), fn, 'a cancelled coroutine must be stopped by operation_aborted', p)
            else:
                cx.ob(c is False or t is False, fn, 'a cancelled coroutine must be stopped', p)
                cx.ob(p.value == ('L', aw), fn, 'the given awaitable must be awaited', p)
    if not n:
        raise Anchor('promises that stop a cancelled coroutine')


@rule('P22')
def awaiting_a_deferred_operation_stops_a_cancelled_coroutine(cx):
    """Awaiting a deferred operation of asio is an await like any other: a cancelled coroutine is stopped."""
    for fn in cx.fns('enable_await_deferred::await_transform'):
        ps = cx.paths(fn, this=T_, args=[('L', root('op'))])
        for f in [f for f in cx.db.fns.values() if f.get('cls', '') == fn.get('rtc') and short(f['n']) in ('await_suspend', 'await_ready') and 'body' in f]:
            ps += cx.paths(f, this=T_)
        cx.ob(any(p.outcome == 'throw' and has_sym(p.value, 'operation_aborted') for p in ps), {'n': 'enable_await_deferred::await_transform', 'q': fn['q'], 'file': fn['file'], 'line': fn['line']},
              'a cancelled coroutine must be stopped', ps[0])


@rule('P22')
def the_coroutine_sees_its_own_cancellation(cx):
    """Asking for the cancellation yields what the state of this coroutine has seen, without suspending."""
    F = fields(cx)
    ST, Q = T_ + (F['state'],), STATE + '::cancelled'
    n = 0
    for fn in cx.fns('promise_cancellation_base::await_transform'):
        t = fn['params'][0]['t']
        if 'this_coro::cancelled_t' in t:
            for p, q, r in await_results(cx, fn, T_, [('L', root('a'))]):
                n += 1
                resumes_at_once(cx, fn, r)
                cx.ob(value_of_path(q) == ('o', Q, I(ST)), fn, 'the cancellation of this coroutine must be reported', q)
        elif 'this_coro::cancellation_state_t' in t:
            for p, q, r in await_results(cx, fn, T_, [('L', root('a'))]):
                n += 1
                resumes_at_once(cx, fn, r)
                v = value_of_path(q)
                cx.ob(q.value == ('L', ST) or v == I(ST) or v == ('o', STATE, I(ST)), fn, 'the cancellation state of this coroutine must be reported', q)
    for fn in cx.fns('promise_cancellation_base::cancelled'):
        for p in cx.paths(fn, this=T_):
            cx.ob(value_of_path(p) == ('o', Q, I(ST)), fn, 'the cancellation of this coroutine must be reported', p)
    for fn in cx.fns('promise_cancellation_base::get_cancellation_slot'):
        for p in cx.paths(fn, this=T_):
            cx.ob(any(e.kind == 'call' and e.name == STATE + '::slot' and e.obj == ('L', ST) and e.val == value_of_path(p) for e in p.events), fn,
                  'what the coroutine waits for must be cancelled through the state of this coroutine', p)
    if n < 2:
        raise Anchor('cancellation of this coroutine')


def state_at(p, path):
    """the cancellation state put at path last (clearing it keeps what it listens to)"""
    for e in reversed(p.events):
        if e.kind == 'store' and e.obj == ('L', path):
            return e.val
    return load(p, path)


def new_state(p, v):
    """arguments of the construction of a cancellation state with value v"""
    for e in reversed(p.events):
        if e.kind == 'ctor' and e.name == STATE and e.val == v:
            return list(e.argv)
    if v[0] == 'o' and v[1] == 'new' and v[2] == STATE:
        return list(v[3:])
    return None


@rule('P22')
def resetting_the_cancellation_keeps_the_source(cx):
    """Resetting the cancellation state starts a fresh state on the source of this coroutine, with the filters that were given, the default of
    the coroutine otherwise; resetting the source makes the given slot the source."""
    F = fields(cx)
    ST, SRC = T_ + (F['state'],), T_ + (F['source'],)
    n = 0

    def made(fn, q, want_src):
        v = state_at(q, ST)
        a = new_state(q, v)
        cx.ob(a is not None and len(a) >= 1 and a[0] == want_src, fn, 'a fresh state must listen to the source of the coroutine', q)
        return a

    def default(fn, q):
        d, w = state_mask(q, state_at(q, ST)), filter_mask(fn['id'])
        if d is None or w is None:
            raise Anchor('filter of a fresh state')
        cx.ob(d == w, fn, 'a fresh state must use the default filter of the coroutine', q)
    for fn in cx.fns('promise_cancellation_base::await_transform'):
        t = fn['params'][0]['t']
        if 'reset_cancellation_state_' not in t:
            continue
        a = root('rs')
        for p, q, r in await_results(cx, fn, T_, [('L', a)]):
            n += 1
            resumes_at_once(cx, fn, r)
            cx.ob(not any(e.kind == 'store' and e.obj in (('L', ST), ('L', SRC)) for e in p.events), fn, 'only the await itself resets the state', p)
            m = made(fn, q, I(SRC))
            if not m:
                continue
            fl = m[1:]
            if '_0_t' in t:
                cx.ob(len(fl) == 1, fn, 'a fresh state must use the default filter of the coroutine', q)
                default(fn, q)
            elif '_1_t' in t:
                cx.ob(len(fl) == 1 and fl[0] == I(a + ('filter',)), fn, 'a fresh state must use the filter that was given', q)
            else:
                cx.ob(len(fl) == 2 and fl[0] == I(a + ('in_filter',)) and fl[1] == I(a + ('out_filter',)), fn, 'a fresh state must use the filters that were given', q)
            cx.ob(load(q, SRC) == I(SRC), fn, 'resetting the state must keep the source', q)
    for fn in cx.fns('promise_cancellation_base::reset_cancellation_source'):
        for q in cx.paths(fn, this=T_, args=[('L', root('src'))]):
            n += 1
            m = made(fn, q, I(root('src')))
            cx.ob(load(q, SRC) == I(root('src')), fn, 'the given slot must become the source', q)
            if m:
                cx.ob(len(m) == 2, fn, 'a fresh state must use the default filter of the coroutine', q)
                default(fn, q)
    for fn in cx.fns('detail::detached_promise::await_transform', need=0):
        if 'reset_cancellation_source' in fn['params'][0]['t']:
            a = root('rs')
            for p in cx.paths(fn, this=T_, args=[('L', a)]):
                cx.ob(load(p, SRC) == I(a + ('source',)), fn, 'the given slot must become the source', p)
                made(fn, p, I(a + ('source',)))
    if n < 4:
        raise Anchor('resetting the cancellation')


def filter_mask(name):
    """the types of cancellation let through by the (first) filter in a mangled name"""
    m = re.findall(r'cancellation_filterIL\w*?cancellation_typeE(\d+)E', name)
    return int(m[0]) if m else None


def state_mask(p, v):
    """the types of cancellation let through by the single filter of the cancellation state with value v"""
    for e in reversed(p.events):
        if e.kind == 'ctor' and e.name == STATE and (e.val == v or v == ('o', 'new', STATE) + tuple(e.argv)):
            return filter_mask((e.fn or {}).get('id', ''))
    return None


@rule('P22')
def the_coroutine_decides_whether_cancellation_throws(cx):
    """throw_if_cancelled reports and sets the wish of this coroutine; it is on at first."""
    F = fields(cx)
    FL = T_ + (F['flag'],)
    n = 0
    for fn in cx.fns('promise_throw_if_cancelled_base::await_transform'):
        t = fn['params'][0]['t']
        a = root('a')
        for p, q, r in await_results(cx, fn, T_, [('L', a)]):
            n += 1
            resumes_at_once(cx, fn, r)
            if '_0_t' in t:
                cx.ob(value_of_path(q) == I(FL) and load(q, FL) == I(FL), fn, 'the wish of this coroutine must be reported', q)
            else:
                cx.ob(load(q, FL) == I(a + ('value',)), fn, 'the wish of this coroutine must be remembered', q)
    for fn in cx.fns('promise_throw_if_cancelled_base::throw_if_cancelled'):
        for p in cx.paths(fn, this=T_):
            cx.ob(value_of_path(p) == I(FL), fn, 'the wish of this coroutine must be reported', p)
    if n < 2:
        raise Anchor('throw_if_cancelled')


PROMISES = ('detail::cobalt_promise', 'detail::task_promise', 'detail::generator_promise', 'detail::detached_promise', 'detail::main_promise', 'detail::thread_promise')


@rule('P22', 'P07')
def a_new_coroutine_listens_to_its_own_signal(cx):
    """The cancellation state of a new coroutine listens to the signal its handle emits, lets every type of cancellation through, and
    cancellation throws until the coroutine asks otherwise."""
    F = fields(cx)
    ST, SRC = T_ + (F['state'],), T_ + (F['source'],)
    n = 0
    for name in PROMISES:
        for rec in cx.recs(name):
            ctors = [f for f in cx.db.fns.values() if f.get('cls') == rec['id'] and short(f['n']) == short(rec['n']) and ('body' in f or 'inits' in f) and not any(rec['n'] in x['t'] for x in f['params'])]
            for fn in ctors:
                for p in cx.paths(fn, this=T_, args=[('L', root('a%d' % i)) for i in range(len(fn['params']))]):
                    if p.outcome != 'return':
                        continue
                    n += 1
                    cx.ob(cv(load(p, T_ + (F['flag'],))) == 1, fn, 'cancellation must stop a new coroutine', p)
                    if name == 'detail::detached_promise':
                        continue
                    src = load(p, SRC)
                    sl = [e for e in p.events if e.kind == 'call' and e.name == 'boost::asio::cancellation_signal::slot' and e.obj and e.obj[0] == 'L' and e.obj[1][:len(T_)] == T_ or e.kind == 'call' and e.name == 'boost::asio::cancellation_signal::slot' and name == 'detail::thread_promise']
                    cx.ob(any(e.val == src for e in sl), fn, 'a new coroutine must listen to its own signal', p)
                    a = new_state(p, state_at(p, ST))
                    cx.ob(bool(a) and a[0] == src, fn, 'a new coroutine must listen to its own signal', p)
                    if a and len(a) > 1:
                        c = state_mask(p, state_at(p, ST))
                        if c is not None:
                            cx.ob(c == 7, fn, 'every type of cancellation must be let through', p)
    if n < 5:
        raise Anchor('new coroutines')


@rule('P22', 'P34')
def the_coroutine_sees_its_own_executor_and_allocator(cx):
    """Asking for the executor or the allocator yields those of this coroutine, without suspending."""
    n = 0
    for base, get in (('enable_await_executor', 'get_executor'), ('enable_await_allocator', 'get_allocator')):
        for fn in cx.fns(base + '::await_transform'):
            owner = fn.get('cls', '').partition('<')[2].rpartition('>')[0]
            gs = getters(cx, owner, get)
            if not gs:
                continue
            want = {value_of_path(g) for g in cx.paths(gs[0], this=T_) if g.outcome == 'return'}
            for p, q, r in await_results(cx, fn, T_, [('L', root('a'))]):
                n += 1
                resumes_at_once(cx, fn, r)
                v = value_of_path(q)
                cx.ob(v in want, fn, 'the %s of this coroutine must be reported' % get[4:], q)
    if not n:
        raise Anchor('executor of the coroutine')


def getters(cx, owner, get, depth=0):
    out = [f for f in cx.db.fns.values() if f.get('cls') == owner and short(f['n']) == get and 'body' in f]
    rec = cx.db.recs.get(owner)
    if not out and rec is not None and depth < 4:
        for b in rec['bases']:
            out = out or getters(cx, b, get, depth + 1)
    return out
