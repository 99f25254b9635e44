"""Threads (P18)."""
from lib import *
from r_op import T_, H, comes_from
from r_slot import value_of_path, emits
from r_spawn import At, only, under, hops, closure_given
from r_run import thread_state, loop_calls, from_context

LOCKS = ('lock_guard', 'unique_lock', 'scoped_lock')


def fields(cx):
    st, pr, aw, th = (cx.recs(n)[0] for n in ('detail::thread_state', 'detail::thread_promise', 'detail::thread_awaitable', 'thread'))
    return dict(ctx=cx.field(st, 'ctx', lambda t: 'io_context' in t), sig=cx.field(st, 'signal', lambda t: 'cancellation_signal' in t),
                mtx=cx.field(st, 'mtx', lambda t: 'mutex' in t), waiter=cx.field(st, 'waitor', lambda t: 'completion_handler' in t),
                done=cx.field(st, 'done', lambda t: 'bool' in t), mem=cx.field(st, 'resource', lambda t: 'resource' in t),
                pmtx=cx.field(pr, 'mtx', lambda t: 'mutex' in t), pres=cx.field(pr, 'resource', lambda t: 'resource' in t),
                work=cx.field(pr, 'wexec_', lambda t: 'work_guard' in t), exe=cx.field(pr, 'exec_', lambda t: 'executor' in t and 'guard' not in t),
                src=cx.field(cx.recs('promise_cancellation_base')[0], 'source_', lambda t: 'slot' in t),
                res=cx.field(aw, 'res', lambda t: 'exception_ptr' in t), own=cx.field(aw, 'thread_', lambda t: 'std::thread' in t),
                astate=cx.field(aw, 'state_', lambda t: 'thread_state' in t), cl=cx.field(aw, 'cl', lambda t: 'slot' in t),
                thr=cx.field(th, 'thread_', lambda t: 'std::thread' in t), tstate=cx.field(th, 'state_', lambda t: 'thread_state' in t))


def held(p, m):
    """the stretches [(first, last)] of a path during which mutex m is held"""
    out, since, who = [], None, set()
    for i, e in enumerate(p.events):
        n = short(e.name)
        if e.kind == 'ctor' and n in LOCKS and e.argv and any(mentions(a, I(m)) or a == I(m) for a in e.argv[:1]):
            since, who = i, {e.obj}
        elif e.kind == 'dtor' and n in LOCKS and since is not None and e.obj in who:
            out.append((since, i))
            since = None
        elif e.kind == 'call' and n in ('lock', 'unlock') and (e.obj == ('L', m) or e.obj in who):
            if n == 'lock':
                since, who = i, who | {e.obj}
            elif since is not None:
                out.append((since, i))
                since = None
    if since is not None:
        out.append((since, len(p.events)))
    return out


def inside(iv, i):
    return next((x for x in iv if x[0] < i < x[1]), None)


def touches(p, path):
    """indices of the events of a path that look at or change what is at path"""
    out, tested = [], set()
    for i, e in enumerate(p.events):
        if e.kind in ('enter', 'leave', 'return'):
            continue
        if e.kind == 'branch':      # once it was looked at, a copy may be tested
            if out or e.val in tested:
                continue
            tested.add(e.val)
        at = [e.obj] if e.kind != 'branch' else []
        at += [a for a in e.args or [] if a is not None]
        if any(a and a[0] == 'L' and a[1][:len(path)] == path for a in at) or e.kind == 'branch' and e.val is not None and contains(e.val, lambda x: isinstance(x, tuple) and len(x) == 2 and x[0] == 'i' and isinstance(x[1], tuple) and x[1][:len(path)] == path):
            out.append(i)
    return out


def done_set(p, path):
    return [i for i, e in enumerate(p.events) if e.obj == ('L', path) and (e.kind == 'store' or e.kind == 'call' and short(e.name) in ('operator=', 'store', 'exchange'))]


@rule('P18', 'P34')
def a_thread_publishes_its_end_once(cx):
    """A thread runs its context once, with the executor, resource and signal that belong to it; once that ended it announces the end and
    looks for whoever waits, both under the lock, hands over the exception exactly once and lets it out only if nobody waits."""
    F = fields(cx)
    RES, EXE = thread_state(cx)
    fn = cx.fn('detail::run_thread')
    S = (('d', I(root('st'))),)
    PR = (('d', ('o', 'promise_of', I(root('h')))),)
    at = At('run', 'post', 'dispatch', 'defer')
    n = {'end': 0, 'told': 0, 'out': 0, 'go': 0}
    for p in cx.paths(fn, args=[('L', root('st')), ('L', root('h'))], on_foreign=at, may_throw=lambda name, g, fr: short(name) in ('run',)):
        run = only(cx, [e for e in p.events if e.kind == 'call' and e.name.startswith('boost::asio::io_context::') and short(e.name) == 'run'], fn, 'the context of the thread must be run exactly once', p)
        if run is None:
            continue
        cx.ob(run.obj == ('L', S + (F['ctx'],)), fn, 'the thread must run its own context', p)
        r = idx(p, run)
        st = at.before(run)
        hs = hops(p)
        # what is there before the context runs
        cx.ob(ENG.load(st, RES) == P(S + (F['mem'],)), fn, 'the thread must use its own memory resource', p)
        cx.ob(ENG.load(st, PR + (F['pres'],)) == P(S + (F['mem'],)), fn, 'the coroutine of the thread must use the memory resource of the thread', p)
        cx.ob(cv(ENG.load(st, EXE + ('?',))) == 1 and from_context(p, ENG.load(st, EXE + ('*',)), S + (F['ctx'],)), fn, 'the executor of the thread must be that of its context', p)
        cx.ob(cv(ENG.load(st, PR + (F['exe'], '?'))) == 1 and from_context(p, ENG.load(st, PR + (F['exe'], '*')), S + (F['ctx'],)), fn, 'the coroutine of the thread must use the executor of its context', p)
        cx.ob(cv(ENG.load(st, PR + (F['work'], '?'))) == 1 and from_context(p, ENG.load(st, PR + (F['work'], '*')), S + (F['ctx'],)), fn, 'the coroutine of the thread must keep the context busy', p)
        src = ENG.load(st, PR + (F['src'],))
        cx.ob(any(e.kind == 'call' and short(e.name) == 'slot' and e.obj == ('L', S + (F['sig'],)) and e.val is not None and mentions(src, e.val) for e in p.events[:r]) or mentions(src, I(S + (F['sig'],))),
              fn, 'the coroutine of the thread must listen to the signal of the thread', p)
        # how the coroutine starts
        go = only(cx, [e for e in hs if idx(p, e) < r], fn, 'the coroutine must be started through the context exactly once', p)
        if go is not None:
            n['go'] += 1
            cx.ob(from_context(p, go.argv[0], S + (F['ctx'],)) or go.argv[0] == I(S + (F['ctx'],)), fn, 'the coroutine must be started in the context of the thread', p)
            starts(cx, fn, F, p, go, at.before(go))
            nothing_owns(cx, fn, p, go, at.before(go), I(root('st')))
        cx.ob(not any(e.kind in ('resume', 'destroy') for e in p.events), fn, 'the coroutine must only run within the context', p)
        # how it ends
        M = held(p, S + (F['mtx'],))
        W = S + (F['waiter'],)
        ep = None
        for e in p.events:
            if e.kind == 'call' and e.name.endswith('current_exception') and e.val is not None:
                ep = e.val
        d = done_set(p, S + (F['done'],))
        cx.ob(len(d) == 1 and d[0] > r and (cv(p.events[d[0]].argv[0]) == 1 if p.events[d[0]].argv else cv(p.events[d[0]].val) == 1), fn, 'the end of the thread must be announced exactly once, after its context ended', p)
        if len(d) != 1:
            continue
        n['end'] += 1
        ts = touches(p, W)
        cx.ob(all(inside(M, i) for i in ts), fn, 'whoever waits for the thread must only be looked at under the lock', p)
        cx.ob(not ts or min(ts) > r, fn, 'whoever waits for the thread must be looked up after its context ended', p)
        secs = {inside(M, i) for i in ts} | {x for x in M if x[0] > r}
        last = max((x for x in secs if x), default=None)
        cx.ob(last is not None and d[0] < last[1] and all(d[0] < i or inside(M, i) and inside(M, d[0]) == inside(M, i) for i in ts), fn, 'the end of the thread must be announced before looking for whoever waits', p)
        w = fact(p, I(W + ('?',)))
        out = [e for e in hs if idx(p, e) > r]
        bad = ep is not None and fact(p, ep) is not False
        cx.ob(w is not None or not bad and not out, fn, 'whoever waits for the thread must be told', p)
        if w:
            n['told'] += 1
            e = only(cx, out, fn, 'whoever waits for the thread must be told exactly once', p)
            cx.ob(p.outcome != 'throw', fn, 'an exception somebody waits for must not leave the thread', p)
            cx.ob(cv(load(p, W + ('?',))) == 0, fn, 'whoever waits for the thread must not be kept', p)
            if e is not None:
                ap = [x for x in p.events if x.kind == 'call' and short(x.name) in ('append', 'prepend') and x.val in e.argv]
                if len(ap) == 1:
                    vs, who = ap[0].argv[1:], ap[0].args[0]
                    cx.ob(has_sym(ap[0].argv[0], F['waiter']) or comes_from(p, who, W + ('*',)), fn, 'exactly the one waiting for the thread must be told', p)
                    cx.ob(len(vs) == 1 and (vs[0] == ep if ep is not None else cv(vs[0]) == 0), fn, 'whoever waits for the thread must receive its exception', p)
                else:
                    raise Anchor('what is posted at the end of a thread')
        elif w is False:
            cx.ob(not out, fn, 'nobody waits for the thread, nobody must be told', p)
            if bad:
                n['out'] += 1
                cx.ob(p.outcome == 'throw', fn, 'an exception nobody waits for must leave the thread', p)
        if p.outcome == 'throw':
            cx.ob(bad and w is False and (ep is None or p.value == ep or contains(ep, lambda x: x == p.value)), fn, 'only the exception nobody waits for must leave the thread', p)
    for k, v in n.items():
        if not v:
            raise Anchor('how a thread ends (%s)' % k)


def starts(cx, fn, F, p, go, st):
    """the function posted to start the coroutine"""
    own = None
    rs = closure_given(cx, go, st)
    if not rs:
        raise Anchor('what starts the coroutine of the thread')
    for q in rs:
        if q.outcome == 'throw':
            continue
        rs_ = [i for i, e in enumerate(q.events) if e.kind == 'resume']
        cx.ob(len(rs_) == 1, fn, 'the coroutine must be resumed exactly once', q)
        if len(rs_) != 1:
            continue
        h = q.events[rs_[0]]
        PR = (('d', ('o', 'promise_of', I(root('h')))),)
        M = held(q, PR + (F['pmtx'],))
        cx.ob(mentions(h.val or (h.argv or [None])[0] or h.obj, I(root('h'))), fn, 'the coroutine of the thread must be started, no other one', q)
        cx.ob(any(b < rs_[0] for a, b in M) and not inside(M, rs_[0]), fn, 'the coroutine must be resumed after it suspended, with its mutex released', q)
        cx.ob(not any(b > rs_[0] for a, b in M), fn, 'a coroutine that was resumed might be gone and must not be touched', q)
        cx.ob(not any(e.kind == 'destroy' for e in q.events), fn, 'a coroutine that was resumed must not be destroyed', q)


@rule('P18')
def awaiting_a_thread(cx):
    """Whether a thread has ended is decided under its lock, where the waiting coroutine is registered as well, with the place its outcome
    goes to; a thread that is owned is joined, and its exception is thrown exactly if it reported one."""
    F = fields(cx)
    S = (('d', I(T_ + (F['astate'],))),)
    D = S + (F['done'],)

    def is_done(p):
        for k, t in list(p.state.facts.items()):
            if contains(k, lambda x: x == I(D)):
                return t
        return None
    atomic = any('atomic' in f['t'] for f in cx.recs('detail::thread_state')[0]['fields'] if f['n'] == F['done'])
    for fn in cx.fns('detail::thread_awaitable::await_ready'):
        ok = 0
        for p in cx.paths(fn, this=T_):
            if p.outcome == 'throw':
                cx.ob(not touches(p, S) and is_done(p) is None, fn, 'a thread that is gone must be refused', p)
                continue
            ok += 1
            v, M = value_of_path(p), held(p, S + (F['mtx'],))
            cx.ob(cv(v) == 0 or contains(v, lambda x: x == I(D)) or cv(v) is not None and is_done(p) is (cv(v) == 1), fn, 'exactly a thread that ended must be ready', p)
            cx.ob(any(k[0] == 'o' and contains(k, lambda x: x == I(T_ + (F['astate'],))) or k == I(T_ + (F['astate'],)) for k in p.state.facts) or any(e.kind == 'call' and e.argv and short(e.name).startswith('operator') and I(T_ + (F['astate'],)) in e.argv for e in p.events),
                  fn, 'a thread that is gone must be refused', p)
            ts = touches(p, D)
            cx.ob(atomic or all(inside(M, i) for i in ts), fn, 'whether a thread ended must be read under its lock', p)
        if not ok:
            raise Anchor('threads that can be awaited')
    n = 0
    W = S + (F['waiter'],)
    for fn in cx.fns('detail::thread_awaitable::await_suspend'):
        at = At('emplace', 'assign')
        for p in cx.paths(fn, this=T_, args=[('L', H)], on_foreign=at):
            if p.outcome == 'throw':
                continue
            M, d = held(p, S + (F['mtx'],)), is_done(p)
            v = cv(value_of_path(p))
            ts, ds = touches(p, W), touches(p, D)
            cx.ob(bool(ds) and all(inside(M, i) for i in ts + ds), fn, 'a thread must be decided on and waited for under its lock', p)
            cx.ob(len({inside(M, i) for i in ts + ds}) == 1, fn, 'the lock must not be given up between deciding that the thread is running and waiting for it', p)
            cx.ob(d is not None, fn, 'a thread that ended must not be waited for', p)
            eng = [e for e in p.events if e.kind in ('engage', 'store') and e.obj == ('L', W)]
            if d:
                cx.ob(v == 0 and not eng, fn, 'a thread that ended must not be waited for', p)
            elif d is False:
                n += 1
                cx.ob(v in (1, None), fn, 'a thread that is running must be waited for', p)
                e = only(cx, eng, fn, 'the coroutine must be registered with the thread exactly once', p)
                if e is not None:
                    a = e.argv or []
                    if len(a) == 1 and a[0] is not None:
                        ok = mentions(a[0], I(H)) and mentions(a[0], I(T_ + (F['res'],)))
                    else:
                        ok = len(a) >= 2 and mentions(a[0], I(H)) and (e.args[1] == ('L', T_ + (F['res'],)) or mentions(a[1], I(T_ + (F['res'],))))
                    cx.ob(ok, fn, 'the thread must know the coroutine that waits and where its outcome goes', p)
    if not n:
        raise Anchor('waiting for a thread')
    for fn in cx.fns('detail::thread_awaitable::await_resume'):
        plain = not fn['params']
        for p in cx.paths(fn, this=T_, args=[('L', root('tag'))] * len(fn['params'])):
            o, r = fact(p, I(T_ + (F['own'], '?'))), fact(p, I(T_ + (F['res'], '?')))
            j = [e for e in p.events if e.kind == 'call' and e.name == 'std::thread::join']
            if o is None and not j:
                able = [t for k, t in p.state.facts.items() if has_sym(k, 'joinable')]
                o = None if not able else able[0]
            cx.ob(len(j) == 1 and j[0].obj == ('L', T_ + (F['own'], '*')) if o else not j, fn, 'a thread that is owned must be joined, and no other', p)
            cx.ob(o is not None, fn, 'a thread that is owned must be joined', p)
            x = I(T_ + (F['res'], '*', 0))
            cx.ob(r is not None, fn, 'a thread that was over already has no outcome to report', p)
            used = [e for e in p.events if e.kind == 'optderef' and e.obj == ('L', T_ + (F['res'],))]
            cx.ob(r or not used, fn, 'a thread that was over already has no outcome to report', p)
            thrown = fact(p, x)
            if thrown is None:
                thrown = next((t for k, t in p.state.facts.items() if contains(k, lambda y: isinstance(y, tuple) and len(y) == 2 and y[0] == 'i' and isinstance(y[1], tuple) and y[1][:len(T_) + 2] == T_ + (F['res'], '*'))), None)
            if plain:
                cx.ob((p.outcome == 'throw') == bool(r and thrown), fn, 'the exception of a thread must be thrown exactly if there is one', p)
                if r:
                    cx.ob(thrown is not None, fn, 'the exception of a thread must be thrown exactly if there is one', p)
    # an awaitable that owns its thread never lets go of one that can be joined
    k = 0
    for fn in cx.fns('detail::thread_awaitable::~thread_awaitable', need=0):
        for p in cx.paths(fn, this=T_):
            dtor_joins(cx, fn, p, T_ + (F['own'], '*'), fact(p, I(T_ + (F['own'], '?'))), T_ + (F['astate'],), F)
            k += 1
    rec = cx.recs('detail::thread_awaitable')[0]
    cx.ob(k > 0, cx.fns('detail::thread_awaitable::await_resume')[0], 'a thread awaited by a coroutine that is destroyed must be joined')


def dtor_joins(cx, fn, p, thr, there, state, F):
    """on p the thread at thr is joined iff it is joinable, after its context was told to stop"""
    j = [i for i, e in enumerate(p.events) if e.kind == 'call' and e.name == 'std::thread::join']
    able = None
    for i, e in enumerate(p.events):
        if e.kind == 'call' and e.name == 'std::thread::joinable' and e.obj == ('L', thr):
            able = fact(p, e.val)
    if there is False:
        cx.ob(not j, fn, 'only a thread that is there can be joined', p)
        return
    cx.ob(able is not None, fn, 'a thread must be joined exactly if it is joinable', p)
    cx.ob(len(j) == (1 if able else 0), fn, 'a thread must be joined exactly if it is joinable', p)
    has = truth(p, state)
    stops = [i for i, e in enumerate(p.events) if e.kind == 'call' and short(e.name) == 'stop' and e.obj == ('L', (('d', I(state)), F['ctx']))]
    if able:
        cx.ob(has is not None, fn, 'the context of a thread must be stopped before the thread is joined', p)
        if has:
            cx.ob(bool(stops) and stops[0] < min(j), fn, 'the context of a thread must be stopped before the thread is joined', p)
    derefs = [e for e in p.events if e.kind in ('call', 'enter') and e.obj and e.obj[0] == 'L' and e.obj[1][:1] == (('d', I(state)),)]
    cx.ob(has is not False or not derefs, fn, 'the state of a thread that is gone must not be touched', p)


def truth(p, path):
    t = fact(p, I(path))
    if t is None:
        for e in p.events:
            if e.kind == 'call' and e.val is not None and short(e.name) in ('operator==', 'operator!=', 'operator bool', 'operator!') and any(v == I(path) for v in (e.argv or [])):
                f = fact(p, e.val)
                if f is not None:
                    t = f if short(e.name) in ('operator!=', 'operator bool') else not f
    return t


@rule('P18')
def a_thread_object_owns_its_thread(cx):
    """Destroying a thread stops its context and joins it if that is possible; detaching gives up both; cancelling emits on the thread itself
    and does not keep its context alive; the executor is that of the context, for as long as the thread runs."""
    F = fields(cx)
    ST, TH = T_ + (F['tstate'],), T_ + (F['thr'],)
    S = (('d', I(ST)),)
    for fn in cx.fns('thread::~thread'):
        for p in cx.paths(fn, this=T_):
            dtor_joins(cx, fn, p, TH, None, ST, F)
    for fn in cx.fns('thread::detach'):
        for p in cx.paths(fn, this=T_):
            d = only(cx, [e for e in p.events if e.kind == 'call' and e.name == 'std::thread::detach'], fn, 'detaching a thread must detach it', p)
            cx.ob(d is None or d.obj == ('L', TH), fn, 'detaching a thread must detach it', p)
            cx.ob(cv(load(p, ST)) == 0, fn, 'a detached thread must not be stopped by its former owner', p)
    for name, call in (('join', 'join'), ('joinable', 'joinable'), ('get_id', 'get_id')):
        for fn in cx.fns('thread::' + name):
            for p in cx.paths(fn, this=T_):
                d = only(cx, [e for e in p.events if e.kind == 'call' and e.name == 'std::thread::' + call], fn, '%s must be that of the thread' % name, p)
                cx.ob(d is None or d.obj == ('L', TH) and (name == 'join' or value_of_path(p) == d.val), fn, '%s must be that of the thread' % name, p)
    for fn in cx.fns('thread::get_executor'):
        ok = 0
        for p in cx.paths(fn, this=T_, args=[('L', root('loc'))] * len(fn['params'])):
            done = next((t for k, t in p.state.facts.items() if contains(k, lambda x: x == I(S + (F['done'],)))), None)
            has = truth(p, ST)
            if p.outcome == 'throw':
                cx.ob(done is True or has is False, fn, 'the executor of a running thread must be available', p)
                cx.ob(has_sym(p.value, 'bad_executor'), fn, 'a thread that is gone has no executor', p)
            else:
                ok += 1
                cx.ob(done is False and has is True, fn, 'a thread that is gone has no executor', p)
                v = value_of_path(p)
                cx.ob(from_context(p, v, S + (F['ctx'],)) or mentions(v, I(S + (F['ctx'],))), fn, 'the executor of a thread must be that of its context', p)
        if not ok:
            raise Anchor('executor of a running thread')
    n = 0
    for fn in cx.fns('thread::cancel'):
        at = At(*hop_names())
        for p in cx.paths(fn, this=T_, args=[('s', 'ct')], on_foreign=at):
            hs, has = hops(p), truth(p, ST)
            if has is not True:
                cx.ob(not hs and has is False, fn, 'a thread that is gone cannot be cancelled', p)
                continue
            e = only(cx, hs, fn, 'cancelling must be done by the thread itself', p)
            if e is None:
                continue
            n += 1
            cx.ob(from_context(p, e.argv[0], S + (F['ctx'],)) or e.args[0] == ('L', S + (F['ctx'],)) or mentions(e.argv[0], I(S + (F['ctx'],))), fn, 'cancelling must be done by the thread itself', p)
            nothing_owns(cx, fn, p, e, at.before(e), I(ST))
            for q in closure_given(cx, e, at.before(e)) or []:
                em = only(cx, emits(q), fn, 'cancelling must emit on the signal of the thread once', q)
                if em is not None:
                    cx.ob(em.obj == ('L', S + (F['sig'],)) and ('s', 'ct') in em.argv, fn, 'cancelling must emit the given type on the signal of the thread', q)
    if not n:
        raise Anchor('cancelling a thread')
    # the lvalue and the rvalue form
    for fn in cx.fns('thread::operator co_await'):
        for p in cx.paths(fn, this=T_):
            if p.outcome == 'throw':
                continue
            v = p.value
            if v is None or v[0] != 'L':
                raise Anchor('awaitable of a thread')
            cx.ob(load(p, v[1] + (F['astate'],)) == I(ST), fn, 'awaiting a thread must use its state', p)
    # what is run in a thread
    for fn in cx.fns('detail::thread_promise::get_return_object'):
        for p in cx.paths(fn, this=T_):
            if p.outcome == 'throw':
                continue
            t = [e for e in p.events if e.kind == 'ctor' and e.name == 'std::thread' and e.argv and any(v and v[0] == 'lam' for v in e.argv)]
            t = only(cx, t, fn, 'a thread coroutine must start exactly one thread', p)
            if t is None:
                continue
            at = At()
            qs = closure_given(cx, t, p.state, opaque_pred=lambda g, b: short(g['n']) == 'run_thread')
            if not qs:
                raise Anchor('what a thread runs')
            for q in qs:
                if q.outcome == 'throw':
                    continue
                rt = [e for e in q.events if e.kind in ('call', 'enter') and short(e.name) == 'run_thread']
                e = only(cx, rt, fn, 'the thread must run its coroutine', q)
                if e is None:
                    continue
                cx.ob(len(e.argv) == 2 and has_sym(e.argv[1], 'from_promise') and mentions(e.argv[1], P(T_)), fn, 'the thread must run its coroutine', q)
                v = p.value
                if v is not None and v[0] == 'L':
                    cx.ob(load(p, v[1] + (F['tstate'],)) == e.argv[0], fn, 'the thread and its owner must share their state', q)


def hop_names():
    return ('post', 'dispatch', 'defer')


def nothing_owns(cx, fn, p, e, st, state):
    """the handler given to e holds no owner of the state its context lives in"""
    for a, v in zip(e.args, e.argv):
        if v is None or v[0] != 'lam':
            continue
        base = a[1] if a and a[0] == 'L' else None
        caps = owners_captured(p, base) if base else []
        cx.ob(not caps, fn, 'a handler in the context of a thread must not own that context', p)


def owners_captured(p, base):
    return [x for x in p.events if x.kind in ('ctor', 'copy', 'move') and 'shared_ptr' in x.name and x.obj and x.obj[0] == 'L' and x.obj[1][:len(base)] == base and len(x.obj[1]) > len(base)]


@rule('P18')
def what_a_thread_left_behind(cx):
    """The context of a thread may hold operations allocated from its resource when it goes, so the resource goes after the context; the
    coroutine holds its mutex until it suspended for the first time, and releases the context when it is finished."""
    F = fields(cx)
    rec = cx.recs('detail::thread_state')[0]
    names = [f['n'] for f in rec['fields']]
    fn = cx.fn('detail::run_thread')
    cx.ob(names.index(F['mem']) < names.index(F['ctx']), fn, 'the memory resource of a thread must outlive its context')
    for c in cx.fns('detail::thread_promise::thread_promise', pred=lambda f: not f['params']):
        for p in cx.paths(c, this=T_):
            M = held(p, T_ + (F['pmtx'],))
            cx.ob(len(M) == 1 and M[0][1] == len(p.events), c, 'a new thread coroutine must hold its mutex', p)
    for c in cx.fns('detail::thread_promise::initial_awaitable::await_suspend'):
        for p in cx.paths(c, this=T_, args=[('L', H)]):
            u = [e for e in p.events if e.kind == 'call' and short(e.name) == 'unlock' and e.obj and e.obj[0] == 'L' and e.obj[1][-1] == F['pmtx']]
            cx.ob(len(u) == 1 and mentions(u[0].obj[1], I(H)) and p.outcome == 'return', c, 'the mutex of a thread coroutine must be released once it suspended', p)
    for c in cx.fns('detail::thread_promise::initial_awaitable::await_ready'):
        for p in cx.paths(c, this=T_):
            cx.ob(cv(value_of_path(p)) == 0, c, 'a thread coroutine must wait for its thread', p)
    for c in cx.fns('detail::thread_promise::final_suspend'):
        for p in cx.paths(c, this=T_):
            cx.ob(cv(load(p, T_ + (F['work'], '?'))) == 0, c, 'a finished thread coroutine must let its context end', p)
    for c in cx.fns('detail::thread_promise::set_executor'):
        for p in cx.paths(c, this=T_, args=[('L', root('e'))]):
            cx.ob(load(p, T_ + (F['exe'], '*')) == I(root('e')) and mentions(load(p, T_ + (F['work'], '*')), I(root('e'))), c, 'a thread coroutine must use the executor it was given', p)
