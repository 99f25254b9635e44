"""with: a scope with an asynchronous teardown (P15)."""
from lib import *
from r_slot import value_of_path

T_ = root('this')
PRM = (('d', I(T_ + ('promise',))),)


def forms(cx):
    """the coroutine bodies of with: (function, argument, body, teardown parameter names)"""
    fs = [f for f in cx.fns('with') if len(f['params']) == 3]
    if len({f['line'] for f in fs}) < 2:
        raise Anchor('forms of with not found')
    return [(f,) + tuple(x['n'] for x in f['params']) for f in fs]


def is_aw(cx, fn):
    return 'wait_group' not in fn['params'][0]['t']


def runs(cx, fn):
    def opq(q, b):
        return q['id'] != fn['id'] and ('lambda' in (q.get('cls') or '') or '~' in short(q['n']))

    def thr(n, q, fr):
        return ('lambda' in str((q or {}).get('cls')) or n.startswith('<indirect')) and '~' not in n
    return cx.paths(fn, args=[('L', root(x['n'])) for x in fn['params']], await_throws=True, opaque_pred=opq, may_throw=thr)


def invoked(p, name):
    """[(index, event)] of the calls of the callable passed as parameter `name`"""
    out = []
    for i, e in enumerate(p.events):
        if e.kind == 'call' and e.obj is not None and (e.obj[0] == 'L' and (e.obj[1] == root(name) or load(p, e.obj[1]) == I(root(name))) or e.obj == I(root(name))):
            out.append((i, e))
    return out


def seq(p, name):
    """what happened to the one call of `name`: (call index, index of its await or None, index of its end, exception or None)"""
    cs = invoked(p, name)
    if len(cs) != 1:
        return None
    i = cs[0][0]
    aw, end, exc = None, i, None
    for j in range(i + 1, len(p.events)):
        e = p.events[j]
        if e.kind == 'raise':
            return i, aw, j, e.val
        if e.kind == 'co_await' and aw is None:
            aw = end = j
            continue
        if e.kind in ('catch', 'co_return', 'throw', 'raise') or e.kind == 'call' and e.obj is not None and j > i and (e.obj[0] == 'L' and len(e.obj[1]) == 1 and e.obj[1] != cs[0][1].obj[1]) and has_sym(e.name, 'lambda'):
            break
        if e.kind == 'call' and e.name.startswith('<indirect'):
            break
    return i, aw, end, exc


@rule('P15')
def with_runs_the_teardown_exactly_once(cx):
    """On every path of with - the body or its call throwing or not, the teardown or its call throwing or not - the body is started
    once on the argument, then the teardown once, after the body ended, on the argument, and both are awaited."""
    for fn, a, f, t in forms(cx):
        for p in runs(cx, fn):
            b, d = seq(p, f), seq(p, t)
            cx.ob(b is not None, fn, 'the body must be started exactly once', p)
            cx.ob(d is not None, fn, 'the teardown must be started exactly once on every path', p)
            if b is None or d is None:
                continue
            be, te = p.events[b[0]], p.events[d[0]]
            cx.ob(b[2] < d[0], fn, 'the teardown must not start before the body ended', p)
            cx.ob(bool(be.args) and is_arg(p, be.args[0], a), fn, 'the body must work on the argument', p)
            cx.ob(bool(te.args) and (is_arg(p, te.args[0], a) or te.argv and te.argv[0] == I(root(a))), fn, 'the teardown must get the argument', p)
            cx.ob(d[1] is not None or d[3] is not None, fn, 'the teardown must be awaited', p)
            cx.ob(len([e for e in p.events[d[0]:] if e.kind == 'co_await']) <= 1, fn, 'the teardown must be awaited once', p)
            co = [e for e in p.events[b[0]:d[0]] if e.kind == 'co_await']
            cx.ob(len(co) <= 1, fn, 'the body must be awaited at most once', p)
            if b[3] is None:
                waits = any(x in cx.db.fns.get((be.fn or {}).get('id'), {}).get('ret', '') for x in ('my_aw', 'promise'))
                cx.ob(len(co) == int(waits), fn, 'the body must be awaited when it can be', p)


def is_arg(p, v, name):
    return v is not None and v[0] == 'L' and holds(p, v[1], root(name))


@rule('P15')
def with_hands_over_the_exception_of_the_body(cx):
    """The teardown receives the exception the body (or its start) failed with, or none; the outcome of with is that exception, else
    the one of the teardown, else the value of the body."""
    for fn, a, f, t in forms(cx):
        for p in runs(cx, fn):
            b, d = seq(p, f), seq(p, t)
            if b is None or d is None:
                continue
            te = p.events[d[0]]
            got = te.argv[1] if len(te.argv or []) > 1 else None
            if got is not None and got[0] == 'p':
                got = load(p, got[1])
            if b[3] is not None:
                cx.ob(got == ('o', 'eptr', b[3]), fn, 'the teardown must get the exception of the body', p)
            else:
                cx.ob(got is not None and cv(got) == 0, fn, 'the teardown must get no exception after the body succeeded', p)
            if b[3] is not None:
                cx.ob(p.outcome == 'throw' and p.value == b[3], fn, 'with must fail with the exception of the body', p)
            elif d[3] is not None:
                cx.ob(p.outcome == 'throw' and p.value == d[3], fn, 'with must fail with the exception of the teardown when the body succeeded', p)
            else:
                cx.ob(p.outcome == 'return', fn, 'with must succeed when body and teardown do', p)
                if fn['ret'].endswith('with_impl<void>'):
                    continue
                aw = [e for e in p.events[b[0]:d[0]] if e.kind == 'co_await']
                want = aw[0].val if aw else p.events[b[0]].val
                v = p.value
                if v is not None and v[0] == 'L':
                    v = load(p, v[1] + ('*',)) if cv(load(p, v[1] + ('?',))) == 1 else load(p, v[1])
                cx.ob(v == want, fn, 'with must return the value of the body', p)


@rule('P15')
def with_waits_for_its_coroutine(cx):
    """Awaiting with starts its coroutine, on the executor and with the cancellation slot of the awaiting coroutine; when it ends, with
    whatever outcome, the awaiting coroutine is resumed once and not destroyed; the coroutine is destroyed exactly once and nothing
    it held is used afterwards."""
    W = 'detail::with_impl'
    PT = W + '::promise_type'
    r = cx.recs(PT)[0]
    names = {}
    for fn in cx.fns(W + '::await_suspend'):
        h = ('i', root(fn['params'][0]['n']))
        for p in cx.paths(fn, this=T_, args=[h], frees=True):
            cx.ob(p.outcome == 'return', fn, 'starting with must not fail', p)
            waiting = [k[len(PRM):] for k, v in p.state.store.items() if k[:1] == PRM and v == h]
            cx.ob(len(waiting) == 1, fn, 'with must remember who awaits it', p)
            names['from'] = waiting[0] if waiting else None
            v = value_of_path(p)
            if fn['ret'] == 'void' or v is None:
                rs = [e for e in p.events if e.kind == 'resume']
                cx.ob(len(rs) == 1 and rs[0].val == ('o', 'from_promise', P(PRM)), fn, 'the coroutine of with must be started', p)
            else:
                cx.ob(v == ('o', 'from_promise', P(PRM)), fn, 'the coroutine of with must be started', p)
            ex = [v for k, v in p.state.store.items() if k[:1] == PRM and len(k) > 1 and k[1] == cx.field(r, 'exec', lambda t: 'optional' in t)]
            cx.ob(any(has_sym(v, 'exec') for v in ex) or any(e.kind == 'engage' and e.obj and e.obj[1][:1] == PRM and any(has_sym(a, 'exec') for a in e.argv or []) for e in p.events), fn, 'with must run on the executor of who awaits it', p)
            cx.ob(slot_from(cx, p, PRM, r) or not has_slot(cx, fn), fn, 'with must take the cancellation slot of who awaits it', p)
    for fn in cx.fns(PT + '::final_awaitable::await_suspend'):
        H = ('i', root(fn['params'][0]['n']))
        pr = (('d', ('o', 'promise_of', H)),)
        for p in cx.paths(fn, this=T_, args=[H], frees=True):
            w = I(pr + (names.get('from') or ('awaited_from',)))
            cx.ob(value_of_path(p) == w or [e.val for e in p.events if e.kind == 'resume'] == [w], fn, 'who awaits with must be resumed when it ends', p)
            cx.ob(not [e for e in p.events if e.kind in ('reset', 'dtor', 'destroy') and e.val in (w, H)], fn, 'nothing may be destroyed when with ends', p)
            cx.ob(cv(load(p, pr + (names.get('from') or ('awaited_from',)))) == 0, fn, 'with must let go of the coroutine it resumes', p)
    for fn in cx.fns(PT + '::final_awaitable::await_ready'):
        for p in cx.paths(fn, this=T_):
            cx.ob(cv(value_of_path(p)) == 0, fn, 'with must stop at its end, until its outcome was taken', p)
    for fn in cx.fns(PT + '::initial_suspend'):
        cx.ob('suspend_always' in fn['ret'], fn, 'with must not start before it is awaited')
    for fn in cx.fns(W + '::await_ready'):
        for p in cx.paths(fn, this=T_):
            cx.ob(cv(value_of_path(p)) == 0, fn, 'with has to run before its outcome is there', p)
    en_ = None
    for fn in cx.fns(PT + '::unhandled_exception'):
        for p in cx.paths(fn, this=T_):
            st = [k for k, v in p.state.store.items() if len(k) == 2 and k[:1] == T_ and v == ('o', 'current_exception')]
            cx.ob(len(st) == 1, fn, 'an exception leaving with must be kept', p)
            en_ = st[0][1] if st else en_
    for fn in cx.fns(W + '::await_resume'):
        for p in cx.paths(fn, this=T_, frees=True):
            ds = [e for e in p.events if e.kind == 'destroy']
            cx.ob(len(ds) == 1 and ds[0].val == ('o', 'from_promise', P(PRM)), fn, 'the coroutine of with must be destroyed exactly once', p)
            used = [e for e in p.events if ds and idx(p, e) > idx(p, ds[0]) and e.kind != 'branch' and (freed(e.val) or any(freed(a) for a in e.argv or []))]
            cx.ob(not used and not freed(p.value) and not any(freed(k) for k in p.state.facts), fn, 'nothing of the destroyed coroutine of with may be used', p)
            exc = I(PRM + (en_ or 'e',))
            t = fact(p, exc)
            cx.ob(t is not None, fn, 'the outcome of with must be looked at', p)
            if t:
                cx.ob(p.outcome == 'throw' and p.value == ('o', 'of_eptr', exc), fn, 'the exception with ended with must be rethrown', p)
            else:
                cx.ob(p.outcome == 'return', fn, 'a successful with must not throw', p)
                if fn['ret'] != 'void':
                    v = value_of_path(p)
                    cx.ob(v is not None and has_sym(v, 'result') and mentions_root(v, PRM), fn, 'the value with ended with must be returned', p)
    for fn in cx.fns('detail::with_promise_value::return_value'):
        a = root('value')
        seed = {T_ + (x['n'], '?'): FALSE for q in cx.recs('detail::with_promise_value') for x in q['fields'] if 'optional' in x['t']}
        for p in cx.paths(fn, this=T_, args=[('L', a)], seed=seed):
            t = fact(p, I(a + ('?',)))
            got = [k for k, v in p.state.store.items() if k[:1] == T_ and k[-1] == '*' and v == I(a + ('*',))]
            whole = [k for k, v in p.state.store.items() if k[:1] == T_ and v == I(a)]
            cx.ob(t is False or got or whole, fn, 'the value of with must be kept', p)
    for fn in cx.fns('detail::with_promise_value::get_result', need=1):
        for p in cx.paths(fn, this=T_):
            if fn['ret'] != 'void':
                v = p.value
                if v is not None and v[0] == 'L':
                    v = load(p, v[1])
                cx.ob(v is not None and has_sym(v, 'result'), fn, 'the value of with must be handed out', p)


def freed(v):
    return v is not None and contains(v, lambda x: isinstance(x, tuple) and len(x) > 2 and x[0] == 'o' and x[1] == 'freed')


def mentions_root(v, r):
    return contains(v, lambda x: isinstance(x, tuple) and len(x) == 2 and x[0] == 'i' and x[1][:len(r)] == r)


def handle_type(fn):
    return fn['params'][0].get('tc') or fn['params'][0]['t']


def has_slot(cx, fn):
    t = handle_type(fn)
    return any(x in t for x in ('cobalt_promise', 'task_promise', 'generator_promise', 'thread_promise', 'main_promise', 'detached_promise'))


def slot_from(cx, p, prm, r):
    n = cx.field(r, 'slot_', lambda t: 'cancellation_slot' in t)
    v = load(p, prm + (n,))
    return has_sym(v, 'promise_of')


@rule('P15')
def leaving_with_asks_the_resource(cx):
    """with without a teardown uses the await_exit of the resource: it is called once, on the resource, with the exception of the body, and
    what it returns is what with awaits; argument and body are passed on."""
    for fn in cx.fns('detail::invoke_await_exit'):
        for p in cx.paths(fn, args=[('L', root('t')), ('L', root('e'))], opaque_pred=lambda q, b: short(q['n']) == 'await_exit'):
            es = [e for e in p.events if e.kind in ('call', 'enter') and short(e.name) == 'await_exit']
            cx.ob(len(es) == 1 and es[0].obj == ('L', root('t')), fn, 'await_exit must be called once, on the resource', p)
            for e in es:
                cx.ob(e.args and holds(p, e.args[0][1] if e.args[0][0] == 'L' else None, root('e')), fn, 'await_exit must be given the exception', p)
                v = value_of_path(p)
                cx.ob(v is not None and (v == e.val or has_sym(v, 'await_exit')), fn, 'what await_exit returns is what must be awaited', p)
    for fn in [f for f in cx.fns('with') if len(f['params']) == 2]:
        a, f = [x['n'] for x in fn['params']]
        for p in cx.paths(fn, args=[('L', root(a)), ('L', root(f))], opaque_pred=lambda q, b: q['id'] != fn['id'] and short(q['n']) == 'with'):
            es = [e for e in p.events if e.kind == 'call' and short(e.name) == 'with']
            cx.ob(len(es) == 1, fn, 'with must be run once', p)
            for e in es:
                cx.ob(len(e.argv) == 3 and (has_sym(e.argv[2], 'invoke_await_exit') or exits(cx, p, e)), fn, 'leaving must use the await_exit of the resource', p)


def exits(cx, p, e):
    """the closure passed as teardown calls await_exit once"""
    qs = cx.closure(e.args[2], p.state, [('L', root('t')), ('L', root('e'))], opaque_pred=lambda q, b: short(q['n']) == 'await_exit')
    return bool(qs) and all(len([x for x in q.events if x.kind in ('call', 'enter') and short(x.name) == 'await_exit']) == 1 for q in qs)
