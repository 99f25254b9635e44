"""wait_group (P14)."""
from lib import *
from r_slot import value_of_path, CT

T_, L = root('this'), root('list')
MAXU = (1 << 64) - 1
WRAP = ('race', 'gather')


def list_of(cx, rec):
    return cx.field(rec, 'waitables_', lambda t: 'std::list<' in t)


def contents(p, loc, n):
    """elements (of n) of the list at loc that are left after path p; None when the path does something unknown to it"""
    left = list(range(n))
    for e in p.events:
        if e.kind != 'call' or e.obj is None or e.obj[0] != 'L' or e.obj[1] != loc:
            continue
        s = short(e.name)
        if s == 'clear':
            left = []
        elif s == 'pop_front':
            left = left[1:]
        elif s == 'pop_back':
            left = left[:-1]
        elif s == 'erase':
            at = [position(v) for v in e.argv or []]
            if not at or None in at:
                return None
            if len(at) == 1:
                left = [x for x in left if x != at[0]]
            else:
                left = left[:at[0]] + left[at[1]:]
        elif s in ('splice', 'merge', 'remove', 'remove_if', 'unique', 'swap', 'assign', 'resize', 'push_back', 'push_front', 'emplace_back', 'emplace_front', 'insert', 'emplace'):
            return None
    return left


def position(v):
    """index an iterator value leads to"""
    while isinstance(v, tuple) and v[0] == 'o':
        if v[1] == 'it':
            return cv(v[3])
        v = next((x for x in v[2:] if isinstance(x, tuple)), None)
    return None


def list_size(loc, n, *more):
    def f(path):
        if path == loc:
            return n
        for q, m in more:
            if path == q:
                return m
        return None
    return f


@rule('P14')
def wait_group_holds_what_it_is_given(cx):
    """A promise pushed into a wait group is appended to its promises, and nothing else happens to them; size() counts them; the
    cancellation types it was constructed with are kept, each in its role."""
    r = cx.recs('wait_group')[0]
    f = T_ + (list_of(cx, r),)
    for fn in cx.fns('wait_group::push_back'):
        for p in cx.paths(fn, this=T_, args=[('L', root('p'))]):
            es = [e for e in p.events if e.kind == 'call' and e.obj == ('L', f) and short(e.name) not in ('begin', 'end', 'size', 'empty')]
            ok = len(es) == 1 and (short(es[0].name) in ('push_back', 'emplace_back') or
                                   short(es[0].name) in ('insert', 'emplace') and position(es[0].argv[0]) is None and has_sym(es[0].argv[0], 'end'))
            cx.ob(ok and any(v is not None and (v == I(root('p')) or has_sym(v, 'p')) for v in es[0].argv), fn, 'a pushed promise must be appended once', p)
    for fn in cx.fns('wait_group::size'):
        for n in (0, 2):
            for p in cx.paths(fn, this=T_, sizes=list_size(f, n)):
                v = value_of_path(p)
                cx.ob(cv(v) == n or v is not None and v[0] == 'o' and v[1].endswith('::size') and mentions(v, I(f)), fn, 'the size is the number of promises held', p)
    a = [('i', root('normal')), ('i', root('except'))]
    exits = exit_types(cx, f)
    for fn in cx.fns('wait_group::wait_group', pred=lambda q: len(q['params']) == 2):
        for p in cx.paths(fn, this=T_, args=a):
            for role, v in (('normal', a[0]), ('except', a[1])):
                nm = exits.get(role)
                cx.ob(nm is not None and load(p, T_ + (nm,)) in (v, I(root(fn['params'][a.index(v)]['n']))), fn,
                      'leaving a wait group %s must use the type it was constructed with for that' % ('with an exception' if role == 'except' else 'normally'), p)


def exit_types(cx, f):
    """which field holds the cancellation type for a normal / an exceptional exit, by what await_exit cancels with"""
    out = {}
    for fn in cx.fns('wait_group::await_exit'):
        for p in cx.paths(fn, this=T_, args=[('L', root('ep'))], sizes=list_size(f, 1), opaque_pred=CANCEL):
            ex = ep_truth(p)
            for e in p.events:
                if e.kind == 'call' and short(e.name) == 'cancel' and e.argv and e.argv[0][0] == 'i' and e.argv[0][1][:1] == T_ and ex is not None:
                    out['except' if ex else 'normal'] = e.argv[0][1][-1]
    return out


def ep_truth(p):
    for k, t in p.state.facts.items():
        if k == I(root('ep')):
            return t
    return None


@rule('P14')
def wait_group_cancels_all(cx):
    """Cancelling a wait group cancels each of its promises with the requested type; leaving it cancels each with the type for that
    kind of exit, unless that is `none`, and then waits for all of them."""
    r = cx.recs('wait_group')[0]
    f = T_ + (list_of(cx, r),)
    for fn in cx.fns('wait_group::cancel'):
        for n in (0, 1, 2, 3):
            for p in cx.paths(fn, this=T_, args=[CTV], sizes=list_size(f, n), opaque_pred=CANCEL):
                each_cancelled(cx, fn, p, f, n, I(root(fn['params'][0]['n'])))
    for fn in cx.fns('wait_group::await_exit'):
        for n in (0, 1, 2):
            for p in cx.paths(fn, this=T_, args=[('L', root('ep'))], sizes=list_size(f, n), opaque_pred=CANCEL):
                ex = ep_truth(p)
                cx.ob(ex is not None, fn, 'leaving a wait group must look for an exception', p)
                es = [e for e in p.events if e.kind == 'call' and short(e.name) == 'cancel']
                types = {e.argv[0] for e in es if e.argv}
                none = [k for k, t in p.state.facts.items() if k[0] == 'i' and k[1][:1] == T_ and t is False or
                        k[0] == 'o' and k[1] == '==' and t is True and has_sym(k, 'none')]
                if es or not none:
                    cx.ob(len(types) <= 1, fn, 'leaving a wait group must cancel with one type', p)
                    each_cancelled(cx, fn, p, f, n, next(iter(types), None))
                waits_on(cx, fn, p, f)


CTV = ('i', root('ct'))


def CANCEL(q, b):
    return short(q['n']) == 'cancel' and '::promise' in q['n']


def each_cancelled(cx, fn, p, f, n, ct):
    es = [e for e in p.events if e.kind == 'call' and short(e.name) == 'cancel']
    for k in range(n):
        mine = [e for e in es if e.obj == ('L', f + (('at', k),))]
        cx.ob(len(mine) == 1, fn, 'every promise of a wait group must be cancelled once', p)
        for e in mine:
            cx.ob(e.argv and e.argv[0] in (ct, CTV), fn, 'the promises must be cancelled with the requested type', p)
    cx.ob(len(es) == n, fn, 'cancelling must reach the promises of the group only', p)


def waits_on(cx, fn, p, f):
    """the value of the path is what waits for the promises of the group"""
    v = p.value
    ok = False
    if v is not None and v[0] == 'L':
        ok = any(x == P(f) or x == ('L', f) for k, x in p.state.store.items() if k[:len(v[1])] == v[1])
    ok = ok or any(e.kind in ('ctor', 'call') and e.argv and any(a in (P(f), I(f), ('L', f)) for a in e.argv) and
                   ('_wrapper' in e.name or 'gather' in e.name or 'race' in e.name) for e in p.events)
    cx.ob(ok, fn, 'it must wait for the promises of this group', p)


@rule('P14')
def waiting_covers_the_group(cx):
    """wait(), wait_one() and co_await wait for the promises of that very group: wait_one() races them, the others gather them; what
    waits is set up when there is something to wait for, and completes at once otherwise."""
    r = cx.recs('wait_group')[0]
    f = T_ + (list_of(cx, r),)
    for name, w in (('wait', 'gather'), ('operator co_await', 'gather'), ('wait_one', 'race'), ('await_exit', 'gather')):
        for fn in cx.fns('wait_group::' + name):
            for p in cx.paths(fn, this=T_, args=[('L', root('ep'))][:len(fn['params'])], sizes=list_size(f, 1),
                              opaque_pred=lambda q, b: short(q['n']) in ('cancel', 'awaitable_type')):
                waits_on(cx, fn, p, f)
                cx.ob('%s_wrapper' % w in fn['ret'] or '_wrapper' not in fn['ret'], fn,
                      'it must wait for %s' % ('all promises' if w == 'gather' else 'one promise'), p)
    for w in WRAP:
        A = 'detail::%s_wrapper::awaitable_type' % w
        fs = inner(cx, A)
        for fn in cx.fns(A + '::awaitable_type', pred=lambda q: len(q['params']) == 1 and 'list' in q['params'][0]['t']):
            for n in (0, 1, 2):
                for p in cx.paths(fn, this=T_, args=[('L', L)], sizes=list_size(L, n), opaque_pred=lambda q, b: short(q['n']) in ('awaitable',)):
                    on = cv(load(p, T_ + (fs, '?')))
                    cx.ob(on is not None and bool(on) == (n > 0), fn, 'what waits must be set up exactly when there are promises', p)
                    if n:
                        ok = any(e.kind in ('engage', 'ctor', 'call', 'enter') and e.argv and any(a in (P(L), I(L), ('L', L)) for a in e.argv) and
                                 (e.kind == 'engage' or w in e.name) for e in p.events)
                        cx.ob(ok, fn, 'it must wait for the promises of this group', p)
        for fn in cx.fns('detail::%s_wrapper::operator co_await' % w):
            for p in cx.paths(fn, this=T_, seed={T_ + ('waitables_',): P(L)}, sizes=list_size(L, 1), opaque_pred=lambda q, b: short(q['n']) == 'awaitable_type'):
                waits_on(cx, fn, p, L)


def inner(cx, A):
    return cx.field(cx.recs(A)[0], 'impl_', lambda t: 'optional' in t)


@rule('P14')
def waiting_follows_the_members(cx):
    """Waiting is ready when there was nothing to wait for or the race or gather over the promises is ready, suspends exactly as
    that does, and takes its outcome once."""
    for w in WRAP:
        A = 'detail::%s_wrapper::awaitable_type' % w
        fs = inner(cx, A)
        rec = cx.recs(A)[0]
        base = {T_ + (list_of(cx, rec),): P(L)}
        for m in ('await_ready', 'await_suspend', 'await_resume'):
            for fn in cx.fns(A + '::' + m):
                for on in (True, False):
                    if m == 'await_suspend' and not on:
                        continue
                    ps = cx.paths(fn, this=T_, args=[('i', root('h'))][:len(fn['params'])], seed=base | {T_ + (fs, '?'): TRUE if on else FALSE},
                                  opaque_pred=lambda q, b: short(q['n']) == m and q['id'] != fn['id'], sizes=list_size(L, 2, (T_ + (fs, '*', 'aws'), 2)))
                    for p in ps:
                        c = [e for e in p.events if e.kind == 'call' and short(e.name) == m and e.obj and e.obj[1][:3] == T_ + (fs, '*')]
                        if not on:
                            cx.ob(not [e for e in p.events if e.obj and e.obj[0] == 'L' and e.obj[1][:3] == T_ + (fs, '*')], fn,
                                  'nothing may be asked of a wait that was not set up', p)
                            if m == 'await_ready':
                                cx.ob(cv(value_of_path(p)) == 1, fn, 'an empty wait group is ready at once', p)
                        elif cx.ob(len(c) == 1, fn, 'waiting must follow the promises of the group, once', p) and m != 'await_resume':
                            cx.ob(value_of_path(p) == c[0].val or truth_same(p, c[0].val), fn, 'waiting must follow the promises of the group', p)


def truth_same(p, v):
    r = value_of_path(p)
    if r is None or v is None:
        return False
    a, b = truth_of(p.state, r), truth_of(p.state, v)
    return a is not None and a == b


@rule('P14')
def waited_promises_leave_the_group(cx):
    """wait_one() removes exactly the promise that completed, whether with a value or an error, and passes the error on; wait()
    removes exactly the promises it waited for, and keeps those pushed in the meantime."""
    for w in WRAP:
        A = 'detail::%s_wrapper::awaitable_type' % w
        fs = inner(cx, A)
        rec = cx.recs(A)[0]
        base = {T_ + (list_of(cx, rec),): P(L), T_ + (fs, '?'): TRUE}
        for fn in cx.fns(A + '::await_resume'):
            if w == 'race':
                for n, i in [(n, i) for n in (1, 2, 3) for i in list(range(n)) + [MAXU]]:
                    ps = cx.paths(fn, this=T_, seed=base | {T_ + (fs, '*', 'index'): ('c', i)}, sizes=list_size(L, n, (T_ + (fs, '*', 'aws'), n)))
                    for p in ps:
                        if p.outcome == 'throw' and i == MAXU:
                            continue
                        left = contents(p, L, n)
                        want = [k for k in range(n) if k != i]
                        what = 'wait_one must remove exactly the promise that completed' + (', even when it failed' if p.outcome == 'throw' else '')
                        cx.ob(left == want, fn, what, p)
                        err = fact(p, I(T_ + (fs, '*', 'error')))
                        if err is not None:
                            cx.ob((p.outcome == 'throw') == err, fn, 'the error of the promise must be passed on', p)
            else:
                for n, k in [(n, k) for n in (1, 2, 3) for k in range(1, n + 1)]:
                    ps = cx.paths(fn, this=T_, seed=base, sizes=list_size(L, n, (T_ + (fs, '*', 'aws'), k), (T_ + (fs, '*', 'result'), k)),
                                  opaque_pred=lambda q, b: short(q['n']) == 'await_resume' and q['id'] != fn['id'])
                    for p in ps:
                        if p.outcome == 'throw':
                            continue
                        cx.ob(contents(p, L, n) == list(range(k, n)), fn, 'wait must remove exactly the promises it waited for', p)
    rec = cx.recs('promise')[0]
    done = (cx.field(rec, 'receiver_', lambda t: 'receiver' in t), 'done')
    f = T_ + (list_of(cx, cx.recs('wait_group')[0]),)
    for fn in cx.fns('wait_group::reap'):
        for n in (0, 1, 2, 3):
            for p in cx.paths(fn, this=T_, sizes=list_size(f, n), loop=4):
                es = [e for e in p.events if e.kind == 'call' and short(e.name) in ('erase_if', 'remove_if')]
                if es:
                    cx.ob(len(es) == 1, fn, 'reaping must remove what has completed', p)
                    for e, qs in cx.closures(p, args=[('L', root('one'))]):
                        for q in qs:
                            v = value_of_path(q)
                            t = truth_of(q.state, v) if v is not None else None
                            if t is None or t:
                                cx.ob(fact(q, I(root('one') + done)) is True, fn, 'a promise must not be removed before it completed', q)
                    continue
                left = contents(p, f, n)
                for k in range(n):
                    if left is not None and k not in left:
                        cx.ob(fact(p, I(f + (('at', k),) + done)) is True, fn, 'a promise must not be removed before it completed', p)
                    elif left is not None:
                        cx.ob(fact(p, I(f + (('at', k),) + done)) is not None, fn, 'reaping must look at every promise', p)
                cx.ob(left is not None, fn, 'reaping must only remove promises', p)
