"""Channels (P09, P10, P35)."""
from lib import *
from r_slot import value_of_path, clear_events, find_conn
from r_gen import eng

AW, CH = root('aw'), root('chan')
FRONT, EMPTY, PUSH, POP = 'front', 'empty', 'push_back', 'pop_front'
LIST = 'boost::intrusive::list'


class Names:
    """The fields of a channel instantiation, found by their types and roles."""

    def __init__(s, cx, rec):
        s.rec = rec
        s.void = rec['q'].endswith('channel<void>') if 'q' in rec else '<void>' in rec['id']
        lists = [f['n'] for f in rec['fields'] if 'intrusive::list' in f['t'] or 'intrusive::list' in f.get('tc', '')]
        s.rq = [n for n in lists if 'read' in n and 'woken' not in n]
        s.wq = [n for n in lists if 'write' in n and 'woken' not in n]
        s.rw = [n for n in lists if 'read' in n and 'woken' in n]
        s.ww = [n for n in lists if 'write' in n and 'woken' in n]
        if not (len(s.rq) == len(s.wq) == len(s.rw) == len(s.ww) == 1):
            raise Anchor('the queues of the channel were not recognised: %s' % lists)
        s.rq, s.wq, s.rw, s.ww = s.rq[0], s.wq[0], s.rw[0], s.ww[0]
        s.closed = cx.field(rec, 'is_closed_', lambda t: t == 'bool')


def names(cx, fn):
    for r in cx.recs('channel'):
        if fn['cls'] == r['id'] or fn['cls'].startswith(r['id'] + '::'):
            return Names(cx, r)
    raise Anchor('no channel record for %s' % fn['q'])


def ops(cx, op, method, need=1, pred=None):
    return cx.fns('channel::%s::%s' % (op, method), need=need, pred=pred)


def runs(cx, fn, **kw):
    seed = {AW + ('chn',): P(CH)}
    seed.update(kw.pop('seed', {}))
    return cx.paths(fn, this=AW, seed=seed, **kw)


def lname(e):
    """which list of the channel an event is about (name of the field)"""
    return e.obj[1][-1] if e.obj and e.obj[0] == 'L' else None


def fronts(p):
    return [e for e in p.events if short(e.name) == FRONT and e.kind == 'call' and 'intrusive' in e.name]


def peers(p):
    """locations of the queued operations taken from the queues"""
    return [(('d', e.val),) for e in fronts(p)]


def is_empty(p, lst):
    """what the path assumed about the list being empty"""
    for k, t in p.state.facts.items():
        if isinstance(k, tuple) and k[0] == 'o' and short(str(k[1])) == EMPTY and k[2] == I(CH + (lst,)):
            return t
    return None


def posts(p):
    return [e for e in p.events if e.kind == 'call' and e.name in ('boost::asio::post', 'boost::asio::defer', 'boost::asio::dispatch')]


def post_value(p, e):
    return e.argv[1] if len(e.argv) > 1 else None


def evt(v, env):
    """value of an abstract term when its leaves have the values env gives them (None: unknown)"""
    c = cv(v)
    if c is not None:
        return c
    x = env(v)
    if x is not None:
        return x
    if v[0] == 'o':
        a = [evt(y, env) if isinstance(y, tuple) else None for y in v[2:]]
        op = v[1]
        if any(y is None for y in a):
            return None
        if op == '!':
            return int(not a[0])
        if len(a) == 2:
            try:
                return {'+': lambda: a[0] + a[1], '-': lambda: a[0] - a[1], '<': lambda: int(a[0] < a[1]), '<=': lambda: int(a[0] <= a[1]),
                        '>': lambda: int(a[0] > a[1]), '>=': lambda: int(a[0] >= a[1]), '==': lambda: int(a[0] == a[1]),
                        '!=': lambda: int(a[0] != a[1])}[op]()
            except KeyError:
                return None
    return None


def feasible(p, env):
    for k, t in p.state.facts.items():
        x = evt(k, env) if isinstance(k, tuple) else None
        if x is not None and bool(x) != t:
            return False
    return True


def counters(n, size, cap, rw, ww, closed):
    """leaf values: size and capacity of the buffer, number of woken readers and writers"""
    def env(v):
        if v[0] == 'i':
            f = v[1][-1]
            if f == n.closed:
                return closed
            if n.void and f == 'n_':
                return size
            if n.void and f == 'limit_':
                return cap
            return None
        if v[0] != 'o':
            return None
        nm = str(v[1])
        if 'circular_buffer' in nm:
            return {'size': size, 'capacity': cap, 'empty': int(size == 0), 'full': int(size == cap), 'reserve': cap - size}.get(short(nm))
        if 'intrusive' in nm and len(v) > 2 and v[2][0] == 'i':
            f = v[2][1][-1]
            k = {n.rw: rw, n.ww: ww}.get(f)
            if k is not None:
                return {'size': k, 'empty': int(k == 0)}.get(short(nm))
        return None
    return env


@rule('P09')
def ready_means_a_value_or_a_slot(cx):
    """A read is ready exactly when the buffer holds a value that no woken reader owns, a write exactly when it has a slot that no
    woken writer owns - or the channel is closed."""
    lim = 4 if cx.tier == 'thorough' else 3
    for op in ('read_op', 'write_op'):
        for fn in ops(cx, op, 'await_ready'):
            n = names(cx, fn)
            ps = runs(cx, fn)
            for cap in range(lim):
                for size in range(cap + 1):
                    for rw in range(size + 1):
                        for ww in range(cap - size + 1):
                            for closed in (0, 1):
                                env = counters(n, size, cap, rw, ww, closed)
                                want = closed or (size > rw if op == 'read_op' else size + ww < cap)
                                got = [evt(value_of_path(p), env) for p in ps if feasible(p, env)]
                                cx.ob(bool(got) and all(g is not None and bool(g) == bool(want) for g in got), fn,
                                      'an operation must be ready exactly when it can be served at once (or the channel is closed)', None, key='ready')


def given_up(p, path):
    """the handle at path was released, moved out or posted"""
    w = I(path)
    if cv(load(p, path)) == 0:
        return True
    return any(post_value(p, e) == w and e.args[1][0] == 'L' and e.args[1][1] == path for e in posts(p))


@rule('P09')
def hand_over(cx):
    """A read or write that cannot be served from the buffer waits at the end of its own queue, or exchanges the value directly
    with the first operation of the other queue: that one is taken out of the queue, marked, and resumed once, its value is
    moved to the reader, and the caller continues through the executor."""
    n_hand = 0
    for op in ('read_op', 'write_op'):
        for fn in ops(cx, op, 'await_suspend'):
            n = names(cx, fn)
            own, other = (n.rq, n.wq) if op == 'read_op' else (n.wq, n.rq)
            for p in runs(cx, fn):
                if p.outcome != 'return':
                    continue
                v = value_of_path(p)
                H = I((('v', fn['params'][0]['id'], (), fn['params'][0]['n']),))
                if v == H:
                    cx.ob(not [e for e in p.events if short(e.name) in (PUSH, 'unlink', 'release')] and not posts(p), fn,
                          'an operation that does not wait must leave the queues alone', p)
                    cx.ob(fact(p, I(AW + ('cancelled',))) is True, fn, 'only an operation that was interrupted may continue at once', p)
                    continue
                push = [e for e in p.events if short(e.name) == PUSH and e.kind == 'call']
                fr = fronts(p)
                if push:
                    cx.ob(len(push) == 1 and lname(push[0]) == own and push[0].args and push[0].args[0] == ('L', AW), fn,
                          'a waiting operation must be put at the end of its own queue', p)
                    cx.ob(load(p, AW + ('awaited_from',)) == H, fn, 'a waiting operation must keep the coroutine to resume', p)
                    cx.ob(has_sym(v, 'noop'), fn, 'a waiting operation must suspend', p)
                    cx.ob(not fr and not posts(p), fn, 'a waiting operation must not resume anything', p)
                    e, o = is_empty(p, other), is_empty(p, own)
                    cx.ob(e is True or o is False or is_empty(p, n.ww) is False, fn, 'an operation that has a partner must not wait', p)
                    continue
                if not cx.ob(len(fr) == 1 and lname(fr[0]) == other, fn, 'an operation must wait or be served by the first one of the other queue', p):
                    continue
                n_hand += 1
                peer = (('d', fr[0].val),)
                cx.ob(is_empty(p, other) is False, fn, 'the partner must be in the queue', p)
                cx.ob(is_empty(p, own) is True, fn, 'an operation must not overtake the ones waiting before it', p)
                cx.ob(is_empty(p, n.ww) is True, fn, 'a value must not overtake the one of a woken writer', p)
                cx.ob(bool([e for e in p.events if short(e.name) == 'unlink' and e.obj == ('L', peer)]), fn, 'the partner must leave its queue', p)
                cx.ob(contains(v, lambda x: x == I(peer + ('awaited_from',))), fn, 'the partner must be resumed', p)
                cx.ob(cv(load(p, peer + ('awaited_from',))) == 0, fn, 'the partner must be resumed once', p)
                cx.ob(eng(p, peer + ('direct',)) is True, fn, 'the partner must know that it was served', p)
                cx.ob(eng(p, AW + ('direct',)) is True, fn, 'the operation must know that it was served', p)
                mine = [e for e in posts(p) if post_value(p, e) == H]
                cx.ob(len(mine) == 1 and len(posts(p)) == 1, fn, 'the caller must continue once, through the executor', p)
                cx.ob(bool(mine) and has_sym(mine[0].args[0], 'executor_') or bool(mine) and has_sym(mine[0].argv[0], 'executor'), fn,
                      'the caller must continue on the executor of the channel', p)
                cx.ob(cv(load(p, AW + ('cancelled',))) == 0, fn, 'an operation that was served must not report cancellation', p)
                if not n.void:
                    r, w = (AW, peer) if op == 'read_op' else (peer, AW)
                    d = load(p, r + ('direct', '*'))
                    cx.ob(contains(d, lambda x: isinstance(x, tuple) and x[:1] == ('i',) and x[1][:len(w) + 1] == w + ('ref',))
                          or kids_from(p, r + ('direct', '*'), w + ('ref',)), fn, 'the reader must get the value of the writer', p)
    if not n_hand:
        raise Anchor('no path on which two channel operations meet')


def kids_from(p, path, src):
    n = len(path)
    kids = [v for k, v in p.state.store.items() if len(k) > n and k[:n] == path]
    return bool(kids) and all(contains(v, lambda x: isinstance(x, tuple) and x[:1] == ('i',) and x[1][:len(src)] == src) for v in kids)


def result_eng(p):
    v = p.value
    if v is None:
        return None
    if v[0] == 'L':
        if v[1] + ('?',) not in p.state.store and v[1][-1] == '*' :
            return None
        return fact(p, load(p, v[1] + ('?',)))
    c = cv(v)
    if c is not None:
        return bool(c)
    return None


def is_result_fn(f):
    return 'as_result_tag' in str(f['params'])


def buf_events(p, n, *ms):
    return [e for e in p.events if e.kind == 'call' and 'circular_buffer' in e.name and short(e.name) in ms]


def n_change(p):
    """how a completed operation changed the number of values of a channel<void>"""
    v = load(p, CH + ('n_',))
    i = I(CH + ('n_',))
    if v == i:
        return 0
    for d in (-1, 1):
        if v in (('o', '+', i, ('c', d)), ('o', '+', ('c', d), i), ('o', '-', i, ('c', -d))):
            return d
    return None


@rule('P09')
def value_is_taken_once(cx):
    """A reader that ends with a value takes it from where it was handed to, or exactly the oldest value of the buffer; one that ends
    with an error takes none."""
    for fn in ops(cx, 'read_op', 'await_resume', pred=is_result_fn):
        n = names(cx, fn)
        for p in runs(cx, fn):
            ok = result_eng(p)
            if not cx.ob(ok is not None, fn, 'a read must end with a value or an error', p):
                continue
            d = initial_direct(p, n)
            if n.void:
                ch = n_change(p)
                cx.ob(ch == (0 if not ok or d else -1), fn, 'a read must take exactly one value, and none if it fails', p)
                continue
            pops, frs = buf_events(p, n, POP), buf_events(p, n, 'front')
            other = buf_events(p, n, 'clear', 'push_back', 'push_front', 'pop_back', 'erase', 'rotate', 'back', 'operator[]', 'at')
            cx.ob(not other, fn, 'a read must take the oldest value only', p)
            if not ok:
                cx.ob(not pops, fn, 'a read that fails must not take a value', p)
            elif d is True:
                cx.ob(not pops and not frs, fn, 'a read that was served must leave the buffer alone', p)
                cx.ob(has_sym_path(p, p.value, AW + ('direct',)), fn, 'a read must yield the value handed to it', p)
            elif d is False:
                cx.ob(len(pops) == 1 and len(frs) == 1 and p.events.index(frs[0]) < p.events.index(pops[0]), fn, 'a read must take the oldest value once', p)
                cx.ob(bool(frs) and yields_value(p, frs[0].val), fn, 'a read must yield the oldest value', p)
            else:
                cx.ob(False, fn, 'a read must tell a value handed to it from one in the buffer', p)


def initial_direct(p, n):
    f = p.state.facts
    for k in (('i', AW + ('direct', '?')), ('i', AW + ('direct',))):
        if k in f:
            return f[k]
    return None


def yields_value(p, v):
    """the returned value is (a copy of) what v refers to"""
    r = p.value
    if r is None or r[0] != 'L':
        return False
    base = r[1] + ('*',)
    got = [load(p, base)] + [x for k, x in p.state.store.items() if k[:len(base)] == base and len(k) > len(base)]
    return any(contains(g, lambda x: x == v) for g in got)


def has_sym_path(p, r, src):
    if r is None or r[0] != 'L':
        return False
    base = r[1] + ('*',)
    got = [load(p, base)] + [x for k, x in p.state.store.items() if k[:len(base)] == base and len(k) > len(base)]
    return any(contains(g, lambda x: isinstance(x, tuple) and len(x) == 2 and x[0] == 'i' and x[1][:len(src)] == src) for g in got)


@rule('P09')
def value_is_stored_once(cx):
    """A writer that ends without an error has handed its value over, or puts it at the end of the buffer once; one that ends with
    an error stores none."""
    for fn in ops(cx, 'write_op', 'await_resume', pred=is_result_fn):
        n = names(cx, fn)
        for p in runs(cx, fn):
            ok = result_eng(p)
            if not cx.ob(ok is not None, fn, 'a write must succeed or end with an error', p):
                continue
            d = initial_direct(p, n)
            if n.void:
                cx.ob(n_change(p) == (0 if not ok or d else 1), fn, 'a write must store exactly one value, and none if it fails', p)
                continue
            st = buf_events(p, n, PUSH, 'push_front', 'insert')
            other = buf_events(p, n, 'clear', POP, 'pop_back', 'erase', 'rotate', 'set_capacity', 'resize')
            cx.ob(not other, fn, 'a write must not take values out of the buffer', p)
            if not ok or d is True:
                cx.ob(not st, fn, 'a write that failed or was served directly must not store its value', p)
            elif d is False:
                cx.ob(len(st) == 1 and short(st[0].name) == PUSH, fn, 'a write must append its value once', p)
                cx.ob(bool(st) and has_sym(st[0].args + tuple(st[0].argv or ()), 'ref') and has_sym(st[0].args + tuple(st[0].argv or ()), 'aw'), fn,
                      'a write must store the value it was given', p)
            else:
                cx.ob(False, fn, 'a write must tell whether its value was handed over', p)


@rule('P09', 'P35')
def next_one_is_woken(cx):
    """After taking a value (or a slot) the first waiting operation of the other kind is woken exactly if it can be served; waking
    marks it, takes it out of its queue, keeps its value or slot reserved, and resumes it once through the executor."""
    for op in ('read_op', 'write_op'):
        for fn in ops(cx, op, 'await_resume', pred=is_result_fn):
            n = names(cx, fn)
            other, woken = (n.wq, n.ww) if op == 'read_op' else (n.rq, n.rw)
            for p in runs(cx, fn):
                ok = result_eng(p)
                fr = [e for e in fronts(p) if lname(e) == other]
                wake = [e for e in posts(p)]
                if not ok:
                    cx.ob(not wake, fn, 'an operation that failed must not wake another one', p)
                    continue
                e = is_empty(p, other)
                if not cx.ob(e is not None, fn, 'an operation that was served must look for a waiting one of the other kind', p):
                    continue
                if e:
                    cx.ob(not wake, fn, 'nobody waits', p)
                    continue
                ready = peer_ready(p, n, op)
                cx.ob(len(fronts(p)) >= 1 and all(lname(x) == other for x in fronts(p)) and len(set(x.val for x in fronts(p))) == 1, fn, 'the first one waiting must be woken', p)
                if wake:
                    peer = (('d', fr[0].val),)
                    cx.ob(len(wake) == 1, fn, 'one operation must be woken', p)
                    cx.ob(ready is True, fn, 'an operation must be woken only if it can be served', p)
                    check_wake(cx, fn, p, peer, woken)
                else:
                    cx.ob(ready is False, fn, 'a waiting operation that can be served must be woken', p)


def peer_ready(p, n, op):
    """was the first waiting operation found to be ready (None: not asked)"""
    asked = None
    for k, t in p.state.facts.items():
        s = str(k)
        if ('capacity' in s or 'limit_' in s) if op == 'read_op' else ((('size' in s and n.rw in s) or ('n_' in s and n.rw in s))):
            if not has_fresh(k) and not ("'chn'" in s):
                if op == 'write_op' or True:
                    pass
            asked = t if asked is None else (asked or t)
    if asked is False:
        # not ready by the counters: then only if closed
        for k, t in p.state.facts.items():
            if isinstance(k, tuple) and k[0] == 'i' and k[1][-1] == n.closed and k[1][0] != CH[0] and t:
                return True
    return asked


def has_fresh(k):
    return contains(k, lambda x: isinstance(x, tuple) and x[:1] == ('u',))


def check_wake(cx, fn, p, peer, woken):
    cx.ob(cv(load(p, peer + ('woken',))) == 1, fn, 'a woken operation must be marked, so that it is not cancelled any more', p)
    cx.ob(bool([e for e in p.events if short(e.name) == 'unlink' and e.obj == ('L', peer)]), fn, 'a woken operation must leave its queue', p)
    pb = [e for e in p.events if short(e.name) == PUSH and 'intrusive' in e.name and lname(e) == woken and e.args and e.args[0] == ('L', peer)]
    cx.ob(len(pb) == 1, fn, 'a woken operation must keep its value or slot reserved', p)
    po = [e for e in posts(p) if e.args[1] == ('L', peer + ('awaited_from',)) or post_value(p, e) == I(peer + ('awaited_from',))]
    cx.ob(len(po) == 1, fn, 'a woken operation must be resumed once', p)
    cx.ob(bool([e for e in p.events if e.name == SLOT_CLEAR and e.obj == ('L', peer + ('cancel_slot',))]), fn,
          'a woken operation must not be cancelled any more', p)


@rule('P09', 'P10')
def ended_operation_is_unlinked(cx):
    """An operation leaves whatever list it is in before it looks at the buffer, so that its own reservation does not count."""
    for op in ('read_op', 'write_op'):
        for fn in ops(cx, op, 'await_resume', pred=is_result_fn):
            for p in runs(cx, fn):
                ul = [i for i, e in enumerate(p.events) if short(e.name) == 'unlink' and e.obj == ('L', AW)]
                us = [i for i, e in enumerate(p.events) if (short(e.name) in ('size', 'front', PUSH, POP, EMPTY) and e.kind == 'call')]
                cx.ob(bool(ul) and (not us or ul[0] < us[0]), fn, 'an operation must leave its list before it completes', p)


@rule('P10')
def close_wakes_everyone(cx):
    """close() marks the channel closed, and takes every waiting operation out of its queue, marks it and resumes it through the
    executor, until both queues are empty."""
    for fn in cx.fns('channel::close'):
        n = names(cx, fn)
        for p in cx.paths(fn, this=CH):
            if p.outcome != 'return':
                continue
            cx.ob(cv(load(p, CH + (n.closed,))) == 1, fn, 'closing must mark the channel as closed', p)
            drained(cx, fn, p, n)
            fr = fronts(p)
            for i, e in enumerate(fr):
                if e.obj[1][0] != CH[0]:
                    continue
                peer = (('d', e.val),)
                a = p.events.index(e)
                b = p.events.index(fr[i + 1]) if i + 1 < len(fr) else len(p.events)
                seg = p.events[a:b]
                cx.ob(bool([x for x in seg if short(x.name) == 'unlink' and x.obj == ('L', peer)]), fn, 'a closed operation must leave its queue', p)
                cx.ob(cv(load(p, peer + ('cancelled',))) == 1, fn, 'a closed operation must end with an error', p)
                cx.ob(bool([x for x in seg if x.name == SLOT_CLEAR and x.obj == ('L', peer + ('cancel_slot',))]), fn, 'a closed operation must not be cancelled again', p)
                if lname(e) == n.wq:
                    cx.ob(cv(load(p, peer + ('closed',))) == 1, fn, 'a waiting write must report that the channel was closed', p)
                w = I(peer + ('awaited_from',))
                po = [x for x in seg if x in posts(p) and post_value(p, x) == w]
                res = [x for x in seg if x.kind == 'resume']
                cx.ob(not res, fn, 'closing must not resume from inside', p)
                if fact(p, w) is not False:
                    cx.ob(len(po) == 1, fn, 'every waiting operation must be resumed once', p)


def drained(cx, fn, p, n):
    for q in (n.rq, n.wq):
        es = [e for e in p.events if short(e.name) == EMPTY and e.kind == 'call' and lname(e) == q]
        last = fact(p, es[-1].val) if es else None
        cx.ob(last is True, fn, 'every waiting operation must be taken out of the queues', p)
        cx.ob(not [e for e in p.events if e.kind == 'loopend' and e.extra and 'break' in e.extra], fn, 'no waiting operation may be left behind', p)


@rule('P10')
def destruction_unlinks_everyone(cx):
    """Destroying a channel ends every waiting coroutine until both queues are empty."""
    for fn in cx.fns('channel::~channel'):
        n = names(cx, fn)
        for p in cx.paths(fn, this=CH):
            if p.outcome != 'return':
                continue
            drained(cx, fn, p, n)
            for e in fronts(p):
                peer = (('d', e.val),)
                after = p.events[p.events.index(e):]
                gone = cv(load(p, peer + ('awaited_from',))) == 0 or [x for x in after if short(x.name) == 'unlink' and x.obj == ('L', peer)]
                cx.ob(bool(gone), fn, 'an operation of a destroyed channel must leave its queue', p)
                w = I(peer + ('awaited_from',))
                cx.ob(bool([x for x in after if x.kind in ('reset', 'destroy', 'resume') or x in posts(p)]), fn, 'a coroutine waiting for a destroyed channel must be ended', p)


@rule('P10')
def errors_tell_what_happened(cx):
    """A read of a closed channel fails with broken_pipe exactly if it has no value and no buffered one is left for it, a write
    exactly if its value was not handed over; an operation cancelled before ends with operation_aborted."""
    for op in ('read_op', 'write_op'):
        for fn in ops(cx, op, 'await_resume', pred=is_result_fn):
            n = names(cx, fn)
            ps = runs(cx, fn)
            for p in ps:
                ok = result_eng(p)
                code = err_code(p)
                d = initial_direct(p, n)
                canc = p.state.facts.get(I(AW + ('cancelled',)))
                closed = p.state.facts.get(I(CH + (n.closed,)))
                if ok:
                    cx.ob(canc is False, fn, 'a cancelled operation must end with an error', p)
                    if op == 'write_op':
                        cx.ob(p.state.facts.get(I(AW + ('closed',))) is False and (closed is False or d is True), fn, 'a write to a closed channel must fail', p)
                    continue
                cx.ob(code in ('broken_pipe', 'operation_aborted'), fn, 'a failing channel operation must report closing or cancellation', p)
                if code == 'operation_aborted':
                    cx.ob(canc is True, fn, 'only a cancelled operation may report cancellation', p)
                    if op == 'write_op':
                        cx.ob(closed is False or d is True, fn, 'a write to a closed channel must report broken_pipe', p)
                if code == 'broken_pipe':
                    if op == 'read_op':
                        cx.ob(closed is True and d is False, fn, 'only a read that has no value on a closed channel may report broken_pipe', p)
                    else:
                        cx.ob(p.state.facts.get(I(AW + ('closed',))) is True or (closed is True and d is False), fn,
                              'only a write whose value was not handed over on a closed channel may report broken_pipe', p)
            if op == 'read_op':
                lim = 3
                for cap in range(lim):
                    for size in range(cap + 1):
                        for rw in range(size + 1):
                            env0 = counters(n, size, cap, rw, 0, 1)

                            def env(v, env0=env0):
                                if v[0] == 'i' and v[1] in (AW + ('direct', '?'), AW + ('direct',), AW + ('cancelled',)):
                                    return 0
                                return env0(v)
                            got = [err_code(p) if not result_eng(p) else 'value' for p in ps if feasible(p, env)]
                            cx.ob(bool(got) and all(g == ('value' if size > rw else 'broken_pipe') for g in got), fn,
                                  'a closed channel must serve what is still buffered, and then report broken_pipe', None, key='closed read')


def err_code(p):
    v = p.value
    for e in reversed(p.events):
        if e.kind == 'ctor' and 'result' in e.name:
            for a in list(e.argv or ()) + list(e.args):
                s = str(a)
                for c in ('broken_pipe', 'operation_aborted'):
                    if c in s:
                        return c
            if 'in_place_error' in str(e.args):
                return str(e.args)
    if v is not None:
        for c in ('broken_pipe', 'operation_aborted'):
            if c in str(load(p, v[1]) if v[0] == 'L' else v):
                return c
    return None


@rule('P10')
def interrupting_one_operation(cx):
    """Interrupting a waiting operation takes exactly that one out of its queue and resumes it as cancelled; one that was served
    or woken already is left alone."""
    for op in ('read_op', 'write_op'):
        for fn in ops(cx, op, 'interrupt_await'):
            n = names(cx, fn)
            for p in runs(cx, fn):
                if p.outcome != 'return':
                    continue
                d, w = initial_direct(p, n), p.state.facts.get(I(AW + ('woken',)))
                res = [e for e in p.events if e.kind == 'resume']
                ul = [e for e in p.events if short(e.name) == 'unlink']
                if d or w:
                    cx.ob(not res and not ul and AW + ('cancelled',) not in p.state.store, fn, 'an operation that was served must not be interrupted', p)
                    continue
                cx.ob(d is False and w is False, fn, 'an operation may be interrupted only when it was neither served nor woken', p)
                cx.ob(len(ul) == 1 and ul[0].obj == ('L', AW), fn, 'an interrupted operation must leave its queue', p)
                cx.ob(cv(load(p, AW + ('cancelled',))) == 1, fn, 'an interrupted operation must report cancellation', p)
                if fact(p, I(AW + ('awaited_from',))) is not False:
                    cx.ob(len(res) == 1 and cv(load(p, AW + ('awaited_from',))) == 0, fn, 'an interrupted operation must be resumed once', p)
                else:
                    cx.ob(not res, fn, 'nobody waits', p)


@rule('P35')
def queues_are_first_in_first_out(cx):
    """Operations are put at the end of a queue and served from its front; nothing reorders a queue."""
    bad = {'push_front', 'insert', 'splice', 'sort', 'reverse', 'merge', 'swap', 'back', 'pop_back', 'rbegin'}
    n = 0
    for name in sorted(cx.db.by_name):
        if not name.startswith(NS + 'channel::'):
            continue
        for fn in uniq(cx.db.by_name[name]):
            if 'body' not in fn or short(name) not in ('await_suspend', 'await_resume', 'close', 'wake', 'interrupt_await'):
                continue
            for p in (runs(cx, fn) if '_op::' in name else cx.paths(fn, this=CH)):
                for e in p.events:
                    if e.kind == 'call' and 'intrusive::list' in e.name and e.obj and short(e.name) not in (EMPTY, 'size'):
                        n += 1
                        cx.ob(short(e.name) not in bad, fn, 'waiting operations must be served in the order of their arrival', p)
    for op in ('read_op', 'write_op'):
        for fn in ops(cx, op, 'await_suspend'):
            nm = names(cx, fn)
            own, other = (nm.rq, nm.wq) if op == 'read_op' else (nm.wq, nm.rq)
            for p in runs(cx, fn):
                for e in p.events:
                    if short(e.name) == PUSH and e.kind == 'call' and 'intrusive' in e.name:
                        cx.ob(lname(e) == own, fn, 'an operation must queue up behind the others of its kind', p)
                    if e in fronts(p):
                        cx.ob(is_empty(p, own) is True and lname(e) == other, fn, 'an operation must not overtake the ones waiting before it', p)
    if not n:
        raise Anchor('no use of the queues found')
