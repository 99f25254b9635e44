"""Where coroutines run (P34)."""
from lib import *
from r_op import T_, H, comes_from
from r_slot import value_of_path
from r_spawn import At, only, under, hops, closure_given
from r_run import thread_state
from r_this import getters

ARG = 'executor_arg_t'


def is_executor(t):
    return ('any_io_executor' in t or t.rstrip(' &').endswith('executor')) and 'guard' not in t and 'executor_arg' not in t


def after_tag(fn):
    """the parameter following executor_arg"""
    ps = fn['params']
    for i, q in enumerate(ps):
        if ARG in q['t']:
            return i + 1
    return None


def same(p, v, src):
    """value v is (a copy of) what is at path src"""
    if v is None:
        return False
    if v[0] == 'L':
        return v[1] == src or load(p, v[1]) == I(src) or comes_from(p, v, src)
    return v == I(src) or v[0] == 'o' and v[1] == 'new' and len(v) > 3 and v[3] == I(src)


@rule('P34')
def a_coroutine_adopts_its_executor(cx):
    """The executor of a coroutine is the one following executor_arg in its arguments, or that of the thread, whose absence is reported."""
    RES, EXE = thread_state(cx)
    n = {True: 0, False: 0}
    for fn in cx.fns('detail::get_executor_from_args'):
        i = after_tag(fn)
        for p in cx.paths(fn, args=[('L', root('a%d' % k)) for k in range(len(fn['params']))]):
            if i is None:
                if p.outcome == 'throw':
                    cx.ob(fact(p, I(EXE + ('?',))) is False, fn, 'a coroutine without an argument for it must use the executor of the thread', p)
                    continue
                n[False] += 1
                cx.ob(same(p, p.value, EXE + ('*',)) and fact(p, I(EXE + ('?',))) is True, fn, 'a coroutine without an argument for it must use the executor of the thread', p)
            else:
                n[True] += 1
                cx.ob(p.outcome == 'return' and same(p, p.value, root('a%d' % i)), fn, 'a coroutine must use the executor it was given', p)
    for k in ('cobalt_promise', 'generator_promise', 'detached_promise'):
        F = cx.field(cx.recs('detail::' + k)[0], 'exec', is_executor)
        got = 0
        for fn in cx.fns('detail::%s::%s' % (k, k), pred=lambda f: not f.get('implicit')):
            if 'inits' not in fn and 'body' not in fn:
                continue
            i = after_tag(fn)
            for p in cx.paths(fn, this=T_, args=[('L', root('a%d' % x)) for x in range(len(fn['params']))]):
                if p.outcome == 'throw':
                    cx.ob(i is None and fact(p, I(EXE + ('?',))) is False, fn, 'a coroutine must start with the executor it was given, or that of the thread', p)
                    continue
                got += 1
                v = load(p, T_ + (F,))
                cx.ob(same(p, v, EXE + ('*',) if i is None else root('a%d' % i)), fn, 'a coroutine must start with the executor it was given, or that of the thread', p)
        if not got:
            raise Anchor('constructors of ' + k)
    if not all(n.values()):
        raise Anchor('executor from the arguments')


@rule('P34')
def a_coroutine_reports_its_executor(cx):
    """get_executor of every coroutine, handler and channel is the executor it holds."""
    n = 0
    for fn in uniq([f for f in cx.db.fns.values() if f['n'].startswith(NS) and not f['n'].startswith(NS + 'io::') and short(f['n']) == 'get_executor' and 'body' in f and f.get('cls')]):
        rec = cx.db.recs.get(fn['cls'])
        if rec is None:
            continue
        fs = [f['n'] for f in rec['fields'] if is_executor(f['t']) or 'optional' in f['t'] and 'executor' in f['t'] and 'guard' not in f['t']]
        if len(fs) != 1:
            continue
        E = T_ + (fs[0],)
        ok = 0
        for p in cx.paths(fn, this=T_, args=[('L', root('a'))] * len(fn['params'])):
            if p.outcome == 'throw':
                cx.ob(has_sym(p.value, 'bad_executor') and any(t is False and has_sym(k, 'exec') for k, t in p.state.facts.items()), fn, 'an executor that is there must be reported', p)
                continue
            if p.outcome != 'return':
                continue
            ok += 1
            cx.ob(same(p, p.value, E) or same(p, p.value, E + ('*',)), fn, 'the executor of this very object must be reported', p)
        n += ok
        cx.ob(ok > 0, fn, 'the executor of this very object must be reported')
    if n < 8:
        raise Anchor('get_executor of the coroutines')


def own_executor(cx, cls, pr):
    """what the executor of a promise of class cls at path pr is: set of values"""
    gs = getters(cx, cls, 'get_executor')
    if not gs:
        return None
    out = set()
    for p in cx.paths(gs[0], this=pr):
        if p.outcome == 'return' and p.value is not None:
            out.add(value_of_path(p))
            if p.value[0] == 'L':
                out.add(I(p.value[1]))
    return out


def handle_cls(t):
    return t.partition('coroutine_handle<')[2].rpartition('>')[0].strip()


def deref_of(h):
    return (('d', ('o', 'promise_of', I(h))),)


@rule('P34')
def what_is_awaited_comes_back_to_the_executor(cx):
    """A completion handler, a task, a with block and the members of gather, join and race use the executor of the coroutine that awaits,
    or that of the thread if it has none."""
    RES, EXE = thread_state(cx)
    got = {}

    def wants(cls):
        w = own_executor(cx, cls, deref_of(H))
        return w if w else {I(EXE + ('*',))}
    for fn in cx.fns('detail::get_executor'):
        if len(fn['params']) != 1 or 'coroutine_handle' not in fn['params'][0]['t']:
            continue
        w = wants(handle_cls(fn['params'][0]['t']))
        for p in cx.paths(fn, args=[('L', H)]):
            if p.outcome == 'throw':
                continue
            got['get_executor'] = 1
            cx.ob(value_of_path(p) in w or any(same(p, p.value, x[1]) for x in w if x[0] == 'i'), fn, 'the executor of the coroutine that awaits must be used', p)
    F = cx.field(cx.recs('detail::completion_handler_base')[0], 'executor_', lambda t: 'executor' in t)
    for fn in cx.fns('detail::completion_handler_base::completion_handler_base', pred=lambda f: f['params'] and 'coroutine_handle' in f['params'][0]['t']):
        w = wants(handle_cls(fn['params'][0]['t']))
        for p in cx.paths(fn, this=T_, args=[('L', H)] + [('s', 'a%d' % i) for i in range(len(fn['params']) - 1)]):
            if p.outcome == 'throw':
                continue
            got['handler'] = 1
            v = load(p, T_ + (F,))
            cx.ob(v in w or any(same(p, v, x[1]) for x in w if x[0] == 'i'), fn, 'an operation must complete on the executor of the coroutine that awaits it', p)
    pr = cx.recs('detail::task_promise')[0]
    rc = next(r for r in cx.recs('detail::task_receiver') if '<void>' not in r['id'])
    tf = dict(exe=cx.field(pr, 'exec_', lambda t: 'optional' in t and 'guard' not in t), work=cx.field(pr, 'exec', lambda t: 'work_guard' in t),
              promise=cx.field(rc, 'promise', lambda t: 'task_promise' in t))
    for fn in cx.fns('detail::task_receiver::awaitable::await_suspend'):
        w = wants(handle_cls(fn['params'][0]['t']))
        for p in cx.paths(fn, this=T_, args=[('L', H)]):
            if p.outcome == 'throw':
                continue
            v = p.value
            if not any(e.kind == 'engage' for e in p.events) and has_sym(value_of_path(p) or v, 'h'):
                continue
            es = [e for e in p.events if e.kind in ('engage', 'store') and e.obj and e.obj[1][-1] in (tf['exe'], '*') and (e.obj[1][-1] == tf['exe'] or e.obj[1][-2] == tf['exe'])]
            if not es and value_of_path(p) is not None and not has_sym(value_of_path(p), 'from_promise'):
                continue
            got['task'] = 1
            X = es[0].obj[1] if es else None
            if X is not None and X[-1] == '*':
                X = X[:-1]
            cx.ob(X is not None, fn, 'a task must run on the executor of the coroutine that awaits it', p)
            if X is None:
                continue
            v = load(p, X + ('*',))
            cx.ob(cv(load(p, X + ('?',))) == 1 and any(v == x or mentions(v, x) for x in w) or any(e.kind == 'call' and e.val is not None and e.val == v and e.obj and mentions(load(p, e.obj[1]), x) for e in p.events for x in w), fn, 'a task must run on the executor of the coroutine that awaits it', p)
            g = X[:-1] + (tf['work'],)
            v = load(p, g + ('*',))
            cx.ob(cv(load(p, g + ('?',))) == 1 and any(v == x or mentions(v, x) for x in w), fn, 'a task must keep the executor of the coroutine that awaits it busy', p)
    r = cx.recs('detail::with_impl::promise_type')[0]
    wf = cx.field(r, 'exec', lambda t: 'optional' in t)
    for fn in cx.fns('detail::with_impl::await_suspend'):
        w = wants(handle_cls(fn['params'][0]['t']))
        for p in cx.paths(fn, this=T_, args=[('L', H)]):
            if p.outcome == 'throw':
                continue
            got['with'] = 1
            vs = [(k, v) for k, v in p.state.store.items() if len(k) > 2 and k[-1] == '*' and k[-2] == wf]
            cx.ob(len(vs) == 1 and cv(load(p, vs[0][0][:-1] + ('?',))) == 1 and any(vs[0][1] == x or mentions(vs[0][1], x) for x in w), fn,
                  'a with block must run on the executor of the coroutine that awaits it', p)
    for n in ('gather', 'join', 'race'):
        for fn in [f for f in cx.db.fns.values() if f['n'].startswith(NS + 'detail::' + n) and short(f['n']) == 'await_suspend' and 'awaitable' in f['n'] and f['params'] and 'coroutine_handle<' in f['params'][0]['t'] and 'body' in f]:
            w = wants(handle_cls(fn['params'][0]['t']))
            for p in cx.paths(fn, this=T_, args=[('L', H)] + [('L', root('loc'))] * (len(fn['params']) - 1), opaque_pred=lambda g, b: short(g['n']) in ('await_impl', 'assign_cancellation', 'interrupt_await')):
                if p.outcome == 'throw':
                    continue
                es = [e for e in p.events if e.kind in ('engage', 'store') and e.obj and e.obj[1][:1] == T_ and 'exec' in e.obj[1] and e.obj[1][-1] in ('exec', '*')]
                got[n] = 1
                cx.ob(bool(es), fn, 'the members must run on the executor of the coroutine that awaits them', p)
                for e in es:
                    v = (e.argv or [None])[0] if e.kind == 'engage' else e.val
                    cx.ob(v is not None and any(v == x or mentions(v, x) for x in w), fn, 'the members must run on the executor of the coroutine that awaits them', p)
    for k in ('get_executor', 'handler', 'task', 'with', 'gather', 'join', 'race'):
        if k not in got:
            raise Anchor('executor of the awaiting coroutine (%s)' % k)


@rule('P34')
def a_channel_resumes_on_its_executor(cx):
    """A coroutine that waited for a channel is resumed through the executor of that channel, which is the one it was made with; a generator
    that is resumed eagerly runs on its own executor."""
    F = cx.field(cx.recs('channel')[0], 'executor_', is_executor)
    n = 0
    for fn in cx.fns('channel::channel', pred=lambda f: not f.get('implicit')):
        i = next((i for i, q in enumerate(fn['params']) if is_executor(q['t'])), None)
        if i is None:
            continue
        for p in cx.paths(fn, this=T_, args=[('L', root('a%d' % k)) for k in range(len(fn['params']))]):
            if p.outcome == 'return':
                n += 1
                cx.ob(same(p, load(p, T_ + (F,)), root('a%d' % i)), fn, 'a channel must use the executor it was given', p)
    if not n:
        raise Anchor('constructors of channel')
    n = 0
    for fn in uniq([f for f in cx.db.fns.values() if f['n'].startswith(NS + 'channel') and 'body' in f and not f.get('lambda')]):
        if not any(x in short(fn['n']) for x in ('await_suspend', 'await_resume', 'interrupt_await', 'close', '~')):
            continue
        for p in cx.paths(fn, this=T_, args=[('L', root(q['n'] or 'a')) for q in fn['params']]):
            for e in hops(p):
                n += 1
                a, v = e.args[0], e.argv[0]
                cx.ob(a is not None and a[0] == 'L' and a[1][-1] == F or has_sym(v, F), fn, 'a coroutine waiting for a channel must be resumed on the executor of the channel', p)
    if n < 4:
        raise Anchor('resumption through a channel')
    n = 0
    for fn in uniq([f for f in cx.db.fns.values() if f['n'].startswith(NS + 'detail::generator') and short(f['n']) in ('await_resume', 'await_suspend', 'operator()') and 'body' in f]):
        for p in cx.paths(fn, this=T_, args=[('L', root(q['n'] or 'a')) for q in fn['params']]):
            for e in hops(p):
                n += 1
                cx.ob(has_sym(e.argv[0], 'yield_from') and has_sym(e.argv[0], 'exec') or has_sym(e.argv[0], 'yield_from') and has_sym(e.argv[0], 'get_executor'), fn, 'a generator must be resumed on its own executor', p)
    if not n:
        raise Anchor('generators that are resumed eagerly')
