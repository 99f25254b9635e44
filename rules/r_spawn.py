"""Spawned tasks (P20)."""
from lib import *
from r_op import T_, comes_from, killed
from r_slot import value_of_path

HOPS = ('post', 'dispatch', 'defer')


def hops(p):
    """work handed to an executor"""
    return [e for e in p.events if e.kind == 'call' and e.name in tuple('boost::asio::' + x for x in HOPS)]


def under(st, path):
    """what is stored below a location: [(rest, value)]"""
    return [(k[len(path):], v) for k, v in st.store.items() if len(k) > len(path) and k[:len(path)] == path]


class At:
    """remembers the state of a path right before chosen calls"""
    def __init__(self, *names):
        self.names, self.at = names, {}

    def __call__(self, eng, s, kind, name):
        if short(name) in self.names:
            self.at[id(s.trace[1])] = (s.trace[1], s.copy())
        return False

    def before(self, e):
        return self.at[id(e)][1]


def member_holding(st, path, want):
    """the member of the object at path that holds what location `want` held at first"""
    for k, v in under(st, path):
        if v == ('i', want):
            return path + k
        for n in range(1, len(k)):
            if v == ('i', want + k[n:]):
                return path + k[:n]
    return None


def class_of_temp(p, path):
    for e in p.events:
        if e.kind == 'dtor' and e.obj == ('L', path):
            return e.name
    return None


def only(cx, es, fn, what, p):
    cx.ob(len(es) == 1, fn, what, p)
    return es[0] if len(es) == 1 else None


def task_fields(cx):
    rec = next(r for r in cx.recs('detail::task_receiver') if '<void>' not in r['id'])
    pr = cx.recs('detail::task_promise')[0]
    return dict(done=cx.field(rec, 'done', lambda t: t == 'bool'), exc=cx.field(rec, 'exception', lambda t: 'exception_ptr' in t),
                promise=cx.field(rec, 'promise', lambda t: 'task_promise' in t), await_=cx.field(rec, 'awaited_from', lambda t: 'unique_handle' in t),
                exec_=cx.field(pr, 'exec_', lambda t: 'optional' in t and 'guard' not in t), work=cx.field(pr, 'exec', lambda t: 'work_guard' in t),
                sig=cx.field(pr, 'signal', lambda t: 'signal' in t), rcv=cx.field(cx.recs('detail::task_promise_result')[0], 'receiver', lambda t: 'task_receiver' in t),
                in_task=cx.field(cx.recs('task')[0], 'receiver_', lambda t: 'receiver' in t))


@rule('P20', 'P34')
def a_spawned_task_starts_once_and_reports_to_its_handler(cx):
    """Spawning a task keeps its state alive until its handler has run, binds it to the executor that was given, starts it there exactly once
    and calls the handler exactly once with the exception and the value of the task; a cancellation of the handler reaches the task."""
    F = task_fields(cx)
    EX = I(T_ + (cx.field(cx.recs('detail::async_initiate_spawn')[0], 'exec', lambda t: 'executor' in t),))
    h, a = root('h'), root('a')
    R0 = a + (F['in_task'],)
    PR = (('d', I(R0 + (F['promise'],))),)
    live = done = 0
    for fn in cx.fns('detail::async_initiate_spawn::operator()'):
        at = At('post_coroutine', 'assign', 'emplace', *HOPS)
        void = 'task<void>' in fn['params'][1]['t']
        for p in cx.paths(fn, this=T_, args=[('L', h), ('L', a)], on_foreign=at, opaque_pred=lambda q, b: short(q['n']) == 'operator()'):
            d = fact(p, I(R0 + (F['done'],)))
            if p.outcome == 'throw':
                continue
            hs = hops(p)
            cx.ob(d is not None, fn, 'a task that is finished has to be told from one that is not', p)
            if d:
                done += 1
                e = only(cx, hs, fn, 'the handler of a finished task must be called exactly once', p)
                if e is None:
                    continue
                ap = [x for x in p.events if x.kind == 'call' and short(x.name) in ('append', 'prepend') and x.val == e.argv[1]]
                if len(ap) != 1:
                    raise Anchor('what is dispatched for a finished task')
                ap = ap[0]
                cx.ob(comes_from(p, ap.args[0], h), fn, 'the handler of a finished task must be called', p)
                cx.ob(ap.argv[1] == I(R0 + (F['exc'],)), fn, 'the handler must receive the exception of the task', p)
                if not void and fact(p, I(R0 + (F['exc'],))) is False:
                    cx.ob(comes_from(p, ap.args[2], R0 + ('result', '*')) or ap.argv[2] == I(R0 + ('result', '*')), fn, 'the handler must receive the value of the task', p)
                elif not void:
                    cx.ob(fact(p, I(R0 + (F['exc'],))) is True, fn, 'the value of a failed task must not be read', p)
                q = [x for x in p.events if x.kind == 'call' and x.val == e.argv[0] and 'get_associated' in x.name]
                cx.ob(len(q) == 1 and comes_from(p, q[0].args[0], h) and q[0].argv[1] == EX, fn, 'the handler must be called through its own executor', p)
                continue
            if fact(p, I(R0 + (F['exc'],))) is True:
                continue        # interrupted, and whoever awaited it did not get to see it: cannot be spawned
            live += 1
            # the handler waits for the task
            pc = only(cx, [e for e in p.events if e.kind == 'call' and short(e.name) == 'post_coroutine'], fn, 'one coroutine must wait for the end of the task', p)
            go = only(cx, hs, fn, 'the task must be started exactly once', p)
            if pc is None or go is None:
                continue
            s, g = at.before(pc), at.before(go)
            X = pc.args[0][1]
            rp = ENG.load(g, PR + (F['rcv'],))
            cx.ob(rp[0] == 'p' and rp[1][0][0] == 'd' and rp[1] != R0, fn, 'the task must report into state that outlives the call', p)
            if rp[0] != 'p':
                continue
            R = rp[1]
            cx.ob(ENG.load(g, R + (F['await_'],)) == pc.val, fn, 'the end of the task must resume what waits for it', p)
            own = ('i', ()) if R[0][0] != 'd' else R[0][1]
            fields = dict(under(s, X))
            cls = class_of_temp(p, X)
            rec = [r for r in cx.db.recs.values() if r.get('n') == cls and 'fields' in r]
            keep = [k for k, v in fields.items() if v == own and any(f['n'] == k[0] and ('shared_ptr' in f['t'] or 'unique_ptr' in f['t']) for r in rec for f in r['fields'])]
            if not rec:
                raise Anchor('completion handler of spawn')
            cx.ob(bool(keep), fn, 'the completion must keep the state of the task alive', p)
            hm = member_holding(s, X, h)
            if hm is None:
                hm = next((e.obj[1] for e in p.events if e.kind in ('move', 'copy') and e.obj and e.obj[1][:len(X)] == X and e.args and comes_from(p, e.args[0], h)), None)
            if hm is None:
                hm = next((X + (k[0],) for k, v in fields.items() if mentions(v, I(h))), None)
            cx.ob(hm is not None, fn, 'the completion must take the handler over', p)
            if hm is None or not keep:
                continue
            # where the task runs
            cx.ob(ENG.load(g, PR + (F['exec_'], '*')) == EX and cv(ENG.load(g, PR + (F['exec_'], '?'))) == 1, fn, 'the task must know the executor it was spawned on', p)
            cx.ob(mentions(ENG.load(g, PR + (F['work'], '*')), EX) and cv(ENG.load(g, PR + (F['work'], '?'))) == 1, fn, 'the task must keep its executor busy', p)
            cx.ob(go.argv[0] == EX, fn, 'the task must start on the executor it was spawned on', p)
            cx.ob(go.argv[1] is not None and has_sym(go.argv[1], 'from_promise') and mentions(go.argv[1], I(R0 + (F['promise'],))), fn, 'the task itself must be started', p)
            cx.ob(not any(e.kind == 'destroy' or e.kind == 'resume' for e in p.events), fn, 'spawning must neither resume nor destroy the task by itself', p)
            # cancellation
            sl = [e for e in p.events if e.kind == 'call' and 'get_associated_cancellation_slot' in e.name]
            conn = [(k, t) for k, t in p.state.facts.items() if k[0] == 'o' and k[1] == SLOT_CONN and any(x.val == k[2] for x in sl)]
            asg = [e for e in p.events if e.kind == 'call' and e.name in (SLOT_ASSIGN, SLOT_EMPLACE)]
            cx.ob(len(sl) == 1 and comes_from(p, sl[0].args[0], h), fn, 'the cancellation slot of the handler must be used', p)
            if conn and conn[0][1]:
                as1 = only(cx, asg, fn, 'a cancellation of the handler must reach the task', p)
                if as1 is not None:
                    cx.ob(as1.extra == sl[0].val, fn, 'a cancellation of the handler must reach the task', p)
                    forwarded(cx, fn, at, as1, R, PR, F, EX)
            else:
                cx.ob(not asg, fn, 'only a connected slot may be used', p)
            # the end of the task
            args = fn['q'], [x['t'] for x in fn['params']]
            ops = [o for o in cx.db.find(cls + '::operator()') if 'body' in o and all(t in o['q'] for t in args[1])]
            if not ops:
                raise Anchor('call operator of the completion handler of spawn')
            for o in ops[:1]:
                the_end(cx, fn, o, s, X, hm, keep, R, F, sl[0].val if sl else None, void)
            for what, want in (('get_executor', 'get_associated_executor'), ('get_allocator', 'get_associated_allocator')):
                src = [e for e in p.events if e.kind == 'call' and short(e.name) == want]
                gs = [o for o in cx.db.find(cls + '::' + what) if 'body' in o and all(t in o['q'] for t in args[1])]
                cx.ob(bool(gs), fn, 'the completion must run with the executor and allocator of the handler', p)
                for o in gs[:1]:
                    for q in cx.paths(o, this=X, state=s):
                        v = value_of_path(q)
                        cx.ob(any(comes_from(p, e.args[0], h) and mentions(v, e.val) for e in src), o, 'the completion must run with the executor and allocator of the handler', q)
    if not live or not done:
        raise Anchor('spawning of a task')


def closure_given(cx, e, state, args=None, **opts):
    """paths of the function object passed to call e"""
    for a, v in zip(e.args, e.argv):
        if v is not None and v[0] == 'lam':
            qs = cx.closure(a, state, args, **opts)
            if qs is None:
                qs = cx.closure(v, state, args, **opts)
            if qs:
                return qs
    return None


def forwarded(cx, fn, at0, e, R, PR, F, EX):
    ct = ('s', 'ct')
    at = At(*HOPS)
    rs = closure_given(cx, e, at0.before(e), [ct], on_foreign=at)
    if not rs:
        raise Anchor('what is connected to the slot of the handler')
    for q in rs:
        x = only(cx, hops(q), fn, 'a cancellation must be handed to the executor of the task', q)
        if x is None:
            continue
        cx.ob(x.argv[0] == EX, fn, 'a cancellation must be handed to the executor of the task', q)
        st = at.before(x)
        for k in [k for k in st.store if k[:len(R)] == R]:
            if k[-1] == F['done']:
                st.store[k] = ('s', 'done')
        qs = closure_given(cx, x, st)
        if not qs:
            raise Anchor('what a cancellation does')
        for r in qs:
            em = [y for y in r.events if y.kind == 'emit' or y.kind == 'call' and y.name == EMIT]
            if fact(r, ('s', 'done')) is True:
                cx.ob(not em, fn, 'a task that is finished must not be cancelled', r)
                continue
            cx.ob(len(em) == 1 and em[0].obj == ('L', PR + (F['sig'],)) and em[0].argv and em[0].argv[0] == ct, fn, 'a cancellation must reach the task, with its type', r)


def the_end(cx, fn, o, s, X, hm, keep, R, F, slot, void):
    E, V, D = ('s', 'exception of the task'), ('s', 'value of the task'), ('s', 'there is a value')
    seed = {R + (F['done'],): TRUE, R + (F['exc'],): E}
    if not void:
        seed[R + ('result', '*')] = V
        seed[R + ('result', '?')] = D
    st = s.copy()
    st.trace = None
    for k in [k for k in st.store if not void and k[:len(R) + 1] == R + ('result',)]:
        del st.store[k]
    at = At('operator()', 'clear')

    def freed(eng, x, ptr):
        if ('d', ptr) == R[0]:
            for k in [k for k in x.store if k[:1] == R[:1]]:
                x.store[k] = ('s', 'freed')
    for q in cx.paths(o, this=X, state=st, seed=seed, on_foreign=at, frees=freed, opaque_pred=lambda c, b: short(c['n']) == 'operator()'):
        if q.outcome == 'throw':
            continue
        hc = [e for e in q.events if e.kind in ('call', 'enter') and short(e.name) == 'operator()' and e.obj is not None]
        e = only(cx, hc, o, 'the handler must be called exactly once', q)
        if e is None:
            continue
        cx.ob(e.obj[1] == hm or comes_from(q, e.obj, hm), o, 'the handler itself must be called', q)
        v = list(e.argv or [])
        cx.ob(bool(v) and v[0] == E, o, 'the handler must receive the exception of the task', q)
        if not void and fact(q, D) is True:
            cx.ob(len(v) == 2 and (mentions(v[1], V) or e.args[1][0] == 'L' and any(mentions(y, V) for k, y in under(at.before(e) if id(e) in at.at else q.state, e.args[1][1]))), o, 'the handler must receive the value of the task', q)
        elif not void:
            cx.ob(fact(q, D) is False, o, 'a value that is not there must not be read', q)
        cl = [x for x in q.events if x.kind == 'call' and x.name == SLOT_CLEAR]
        conn = [t for k, t in q.state.facts.items() if k[0] == 'o' and k[1] == SLOT_CONN]
        if not conn or conn[0]:
            cx.ob(len(cl) == 1 and cl[0].extra == slot and idx(q, cl[0]) < idx(q, e), o, 'the task must be disconnected from the slot of the handler before the handler runs', q)
        cx.ob(not any(x.kind == 'deref' and cv(x.val) == 0 for x in q.events), o, 'released state must not be used', q)


@rule('P20')
def spawn_initiates_with_what_it_was_given(cx):
    """spawn hands the task, its token and the executor on, unchanged and once."""
    n = 0
    for fn in cx.fns('spawn'):
        ps = {x['n']: root('p%d' % i) for i, x in enumerate(fn['params'])}
        r = [root('p%d' % i) for i in range(len(fn['params']))]
        if len(r) != 3:
            continue
        for p in cx.paths(fn, args=[('L', x) for x in r]):
            if p.outcome != 'return':
                continue
            n += 1
            e = only(cx, calls(p, 'async_initiate'), fn, 'a task must be spawned exactly once', p)
            if e is None:
                continue
            init = under(p.state, e.args[0][1]) if e.args[0][0] == 'L' else [((), e.args[0])]
            ge = [x for x in p.events if x.kind == 'call' and short(x.name) == 'get_executor' and x.obj == ('L', r[0])]
            want = ge[0].val if ge else I(r[0])
            cx.ob(any(mentions(v, want) for k, v in init), fn, 'the task must be spawned on the given executor', p)
            cx.ob(comes_from(p, e.args[1], r[2]), fn, 'the given token must be used', p)
            cx.ob(len(e.args) == 3 and comes_from(p, e.args[2], r[1]), fn, 'the given task must be spawned', p)
    if not n:
        raise Anchor('spawn')


@rule('P20', 'P04')
def a_posted_handler_leaves_its_coroutine_first(cx):
    """The coroutine that carries a completion handler posts it exactly once and is destroyed exactly once; the handler no longer lives in it
    when it is destroyed."""
    n = 0
    H = ('i', root('h'))
    for fn in cx.fns('detail::post_coroutine_promise::yield_value::awaitable_t::await_suspend'):
        for p in cx.paths(fn, this=T_, args=[H], facts={H: True}):
            n += 1
            k = [e for e in p.events if e.kind == 'destroy']
            cx.ob(len(k) == 1 and k[0].val == H, fn, 'the coroutine must be destroyed exactly once', p)
            e = only(cx, hops(p), fn, 'the handler must be posted exactly once', p)
            if e is None or len(k) != 1:
                continue
            cx.ob(comes_from(p, e.args[-1], T_) or any(m.kind in ('move', 'copy') and m.obj == e.args[-1] and comes_from(p, m.args[0], T_) for m in p.events) or has_sym(load(p, e.args[-1][1]) if e.args[-1][0] == 'L' else e.args[-1], 'this'),
                  fn, 'the handler itself must be posted', p)
            cx.ob(not (e.args[-1][0] == 'L' and e.args[-1][1][:1] == T_) or idx(p, e) < idx(p, k[0]), fn, 'the handler must not be taken from a destroyed coroutine', p)
            cx.ob(not any(x.obj and x.obj[0] == 'L' and x.obj[1][:1] == T_ for x in p.events[idx(p, k[0]) + 1:]), fn, 'a destroyed coroutine must not be used', p)
    if not n:
        raise Anchor('posting of a completion handler')
