"""Cancellation handlers: where they are installed, what they do, when they are removed."""
from lib import *

AW = root('aw')
# these only pass the call on to the awaitable they wrap (which is analysed itself)
WRAPPERS = ('as_result_t', 'as_tuple_t', 'detail::fork::promise_type::wrapped_awaitable')


def suspend_fns(cx):
    """Every await_suspend of the library (all instantiations)."""
    out = []
    for n in sorted(cx.db.by_name):
        if n.startswith(NS) and n.endswith('::await_suspend') and not any(n == NS + w + '::await_suspend' for w in WRAPPERS):
            for f in cx.db.by_name[n]:
                if 'body' in f and len(f['params']) >= 1:
                    out.append(f)
    if len(out) < 20:
        raise Anchor('only %d await_suspend functions found' % len(out))
    return uniq(out)


def installs(p):
    return [e for e in p.events if e.name in (SLOT_EMPLACE, SLOT_ASSIGN)]


def slot_value(p, e):
    return load(p, e.obj[1] if e.obj[0] in ('L', 'p') else e.obj)


def slot_keys(p, v):
    """where under the awaitable the slot value is kept when the function returns"""
    return [k for k in p.state.store if isinstance(k, tuple) and k and k[0] == AW[0] and len(k) > 1 and p.state.store[k] == v]


def clear_events(p, v=None):
    return [e for e in p.events if e.name == SLOT_CLEAR and (v is None or e.extra == v)]


def connected(p, v):
    return fact(p, ('o', SLOT_CONN, v))


def find_conn(p, v):
    """is_connected(v) as assumed on this path (None: not asked)"""
    for k, t in p.state.facts.items():
        if isinstance(k, tuple) and len(k) >= 3 and k[0] == 'o' and k[1] == SLOT_CONN and k[2] == v:
            return t
    return None


def suspends(p):
    """does the awaiting coroutine stay suspended (True), run on (False)"""
    v = value_of_path(p)
    if v is None:
        return True                      # void await_suspend
    if v[0] == 'p':
        v = load(p, v[1])
    c = cv(v)
    if c is not None:
        return bool(c)
    if has_sym(v, 'noop'):
        return True
    if is_own_handle(p.fn, v):
        return False
    t = fact(p, v)
    return True if t is None else t


def is_own_handle(fn, v):
    """is v the handle await_suspend was called with (returning it continues the awaiting coroutine)"""
    pid = fn['params'][0]['id']
    return v[0] == 'i' and len(v[1]) == 1 and v[1][0][:2] == ('v', pid)


def ready_under(cx, fn, p):
    """await_ready is true under the assumptions of path p, so that the path is never taken"""
    for f in cx.db.by_name.get(fn['n'].rsplit('::', 1)[0] + '::await_ready', []):
        if f['cls'] != fn['cls'] or 'body' not in f:
            continue
        fs = {k: t for k, t in p.state.facts.items() if isinstance(k, tuple) and k and k[0] == 'i'}
        ps = cx.paths(f, this=AW, facts=fs)
        return all(q.outcome != 'return' or fact(q, value_of_path(q)) is True for q in ps)
    return False


def value_of_path(p):
    v = p.value
    if v is None:
        return None
    return load(p, v[1]) if v[0] == 'L' else v


def handle_promise(fn):
    import re
    m = re.match(r'.*coroutine_handle<(.*)>$', fn['params'][0].get('tc') or fn['params'][0]['t'])
    return m.group(1) if m else None


def has_method(cx, rec, name, depth=0):
    r = cx.db.recs.get(rec)
    if r is None or depth > 6:
        return False
    if any(short(m['n']) == name for m in r.get('methods', [])):
        return True
    return any(has_method(cx, b if isinstance(b, str) else b.get('t') or b.get('n') or b.get('id'), name, depth + 1) for b in r.get('bases', []))


def slot_paths(cx):
    """[(fn, [paths])] of the await_suspend functions that install a handler; computed once per run"""
    if 'slot' in cx._cache:
        return cx._cache['slot']
    out = []
    for f in suspend_fns(cx):
        ps = cx.paths(f, this=AW)
        if any(installs(p) for p in ps):
            out.append((f, ps))
    cx._cache['slot'] = out
    return out


EXPECTED = ('channel::read_op', 'channel::write_op', 'detail::promise_receiver::awaitable', 'detail::generator_receiver::awaitable',
            'detail::task_receiver::awaitable', 'detail::thread_awaitable', 'detail::gather_variadic_impl::awaitable',
            'detail::gather_ranged_impl::awaitable', 'detail::join_variadic_impl::awaitable', 'detail::join_ranged_impl::awaitable',
            'detail::race_variadic_impl::awaitable', 'detail::race_ranged_impl::awaitable', 'detail::gather_wrapper::awaitable_type',
            'detail::race_wrapper::awaitable_type')


def shared_state_field(cx, key):
    r = cx.recs('detail::fork::shared_state')[0]
    return key[-1] if any(f['n'] == key[-1] for f in r['fields']) else None


def final_clears(cx, field):
    """does the last fork clear the handler before it resumes the awaiting coroutine"""
    ck = ('final', field)
    if ck in cx._cache:
        return cx._cache[ck]
    ST, FA, PRM, SLOTV = root('state'), root('fa'), root('forkpromise'), ('o', 'theslot')
    ok = True
    n = 0
    for fn in cx.fns('detail::fork::promise_type::final_awaitable::await_suspend'):
        seed = {PRM + ('state',): P(ST), PRM + ('state', 'px'): P(ST), ST + (field,): SLOTV}
        for p in cx.paths(fn, this=FA, args=[('o', 'from_promise', P(PRM))], seed=seed):
            v = value_of_path(p)
            if v is None or has_sym(v, 'noop'):
                continue
            n += 1
            if clear_events(p, SLOTV) or find_conn(p, SLOTV) is False:
                continue
            ok = False
    cx._cache[ck] = ok and n > 0
    return cx._cache[ck]


@rule('P06')
def handler_removed_before_resumption(cx):
    """Whoever installs a handler in the cancellation slot of the awaiting coroutine keeps the slot and clears it before the
    awaiting coroutine continues: in every await_resume of the awaitable, or in the last fork before it resumes the awaiter."""
    seen = set()
    for fn, ps in slot_paths(cx):
        seen.add(fn['n'])
        for p in ps:
            ins = installs(p)
            if not ins:
                continue
            v = slot_value(p, ins[-1])
            after = p.events[p.events.index(ins[-1]):]
            cleared = [e for e in after if e.name == SLOT_CLEAR and e.extra == v]
            if p.outcome == 'throw':
                if p.value is not None and (p.value[0] == 'o' and p.value[1] == 'extthrow' or has_sym(p.value, 'bad_executor')):   # a running coroutine has an executor
                    continue
                cx.ob(bool(cleared), fn, 'an await that is refused must not leave its cancellation handler behind', p)
                continue
            if cleared:
                cx.ob(True, fn, '')
                continue
            keys = slot_keys(p, v)
            if not cx.ob(bool(keys), fn, 'the slot a cancellation handler is installed in must be kept to clear it later', p):
                continue
            k = keys[0]
            if shared_state_field(cx, k):
                cx.ob(suspends(p), fn, 'a handler must not be installed when the awaiting coroutine is not suspended', p)
                cx.ob(final_clears(cx, k[-1]), fn, 'the handler in the slot of the awaiting coroutine must be cleared before the last member resumes it', p)
                continue
            check_resumes(cx, fn, k)
    if not seen:
        raise Anchor('no operation installs a cancellation handler')


def check_resumes(cx, fn, k):
    ck = ('resume', fn['cls'], k)
    if ck in cx._cache:
        return
    cx._cache[ck] = True
    V = ('o', 'theslot')
    rs = [f for f in cx.db.by_name[fn['n'].rsplit('::', 1)[0] + '::await_resume'] if f['cls'] == fn['cls'] and ('body' in f)]
    cx.ob(bool(rs), fn, 'awaitable without await_resume')
    for r in rs:
        for p in cx.paths(r, this=AW, seed={k: V}):
            cx.ob(bool(clear_events(p, V)) or find_conn(p, V) is False, r,
                  'the cancellation handler must be cleared when the operation resumes', p)


@rule('P06')
def fork_clears_its_own_slot(cx):
    """A member of gather, join or race removes its handler from the slot it was given before it ends."""
    V = ('o', 'theslot')
    for fn in cx.fns('detail::fork::promise_type::final_suspend'):
        rec = cx.recs('detail::fork::promise_type')[0]
        f = cx.field(rec, 'cancel', lambda t: t == SLOT)
        for p in cx.paths(fn, this=AW, seed={AW + (f,): V}):
            cx.ob(bool(clear_events(p, V)) or find_conn(p, V) is False, fn, 'a finished member must clear its cancellation slot', p)


# -- P07 -----------------------------------------------------------------------

CT = ('i', (('obj', 'ct'),))


def run_handler(cx, p, e):
    """abstract paths of invoking the handler installed by event e with cancellation type ct"""
    if e.name == SLOT_ASSIGN:
        return cx.closure(e.args[0], p.state, args=[CT])
    rec = (e.fn or {}).get('tr') or (e.fn or {}).get('ta')
    if not rec:
        return None
    ops = [f for f in cx.db.by_name.get((e.fn or {}).get('ta', '') + '::operator()', []) if f['cls'] == rec and 'body' in f]
    ctor = [f for f in cx.db.by_name.get((e.fn or {}).get('ta', '') + '::' + short(e.fn['ta']), []) if f['cls'] == rec and len(f.get('params', [])) == len(e.args)
            and ('inits' in f or 'body' in f)]
    ctor = [f for f in ctor if not any(rec.split('::')[-1] in q['t'] and '&' in q['t'] for q in f['params'])]
    if not ops:
        return None
    HO = root('handler')
    st = p.state.copy()
    if ctor:
        cps = cx.paths(ctor[0], this=HO, args=list(e.args), state=st)
        st = cps[0].state
    else:
        r = cx.db.recs.get(rec)
        for f, a in zip(r['fields'], e.args):
            st.store[HO + (f['n'],)] = a
    return cx.paths(ops[0], this=HO, args=[CT], state=st)


def emits(p):
    return [e for e in p.events if e.name == EMIT]


def emit_type(e):
    return e.argv[0] if e.argv else None


def kind_of(fn):
    n = fn['n'][len(NS):]
    for a in ('promise_receiver', 'generator_receiver', 'task_receiver'):
        if n.startswith('detail::' + a):
            return a
    if n.startswith('channel'):
        return 'channel'
    if n.startswith('detail::thread_awaitable'):
        return 'thread'
    if any(n.startswith('detail::' + a) for a in ('gather', 'join', 'race')):
        return 'fork'
    return 'other'


@rule('P07')
def a_suspended_await_can_be_cancelled(cx):
    """Every await that suspends a coroutine with a cancellation slot has installed a handler in that very slot (unless the
    slot is not connected)."""
    todo = dict((f['id'], (f, ps)) for f, ps in slot_paths(cx))
    for n in EXPECTED:
        for fn in cx.fns(n + '::await_suspend'):
            if fn['id'] not in todo:
                todo[fn['id']] = (fn, cx.paths(fn, this=AW))
    for fn, ps in todo.values():
        prom = handle_promise(fn)
        if not prom or not has_method(cx, prom, 'get_cancellation_slot'):
            continue
        for p in ps:
            if p.outcome != 'return' or not suspends(p):
                continue
            ins = installs(p)
            if kind_of(fn) == 'channel' and not any(short(e.name) == 'push_back' for e in p.events):
                continue               # handed over: completes without waiting
            if not ins and ready_under(cx, fn, p):
                continue
            if ins:
                v = slot_value(p, ins[-1])
                cx.ob(has_sym(v, 'promise_of'), fn, 'the handler must go into the slot of the awaiting coroutine', p)
                last = p.events.index(ins[-1])
                cx.ob(not [e for e in p.events[last:] if e.name == SLOT_CLEAR and e.extra == v], fn,
                      'a suspended operation must keep its cancellation handler', p)
            else:
                f = [k for k, t in p.state.facts.items() if isinstance(k, tuple) and len(k) >= 3 and k[0] == 'o' and k[1] == SLOT_CONN
                     and t is False and has_sym(k[2], 'promise_of')]
                cx.ob(bool(f), fn, 'a suspended operation must install a cancellation handler in a connected slot', p)


@rule('P07')
def the_handler_reaches_the_operation(cx):
    """The installed handler passes exactly the requested cancellation type on to the operation waited for: the signal of the
    coroutine, of every live member, of the thread (on its own executor), or it takes the channel operation out of its queue
    and resumes it as cancelled."""
    handlers_reach(cx, None)


@rule('P10')
def cancelling_a_channel_operation(cx):
    """Cancelling a waiting channel operation takes exactly that one out of its queue at once, marks it and resumes it."""
    handlers_reach(cx, ('channel',))


@rule('P11', 'P12', 'P13')
def cancelling_a_combinator(cx):
    """Cancelling a combinator passes the requested type on to the signal of every member."""
    n = {'P11': 'detail::gather', 'P12': 'detail::join', 'P13': 'detail::race'}[cx.pid]
    handlers_reach(cx, ('fork',), lambda fn: fn['n'].startswith(NS + n))


@rule('P18')
def cancelling_a_thread(cx):
    """Cancelling the coroutine that waits for a thread emits the type on the signal of the thread, on the executor of the thread."""
    handlers_reach(cx, ('thread',))


def handlers_reach(cx, kinds, pred=None):
    done = set()
    for fn, ps in slot_paths(cx):
        kd = kind_of(fn)
        if kinds and kd not in kinds or pred and not pred(fn):
            continue
        for p in ps:
            ins = installs(p)
            if not ins or p.outcome != 'return' or not suspends(p):
                continue
            e = ins[-1]
            sig = (fn['id'], e.line, e.name)
            if sig in done:
                continue
            done.add(sig)
            hs = run_handler(cx, p, e)
            if not cx.ob(bool(hs), fn, 'the cancellation handler has no body', p):
                continue
            for h in hs:
                if h.outcome == 'throw':
                    continue
                HANDLERS[kd](cx, fn, p, h)


def h_receiver(cx, fn, p, h):
    es = emits(h)
    cx.ob(len(es) == 1 and emit_type(es[0]) == CT, fn, 'cancelling must emit the requested type on the awaited coroutine once', h)
    if es:
        o = es[0].obj
        cx.ob(has_sym(o, 'cancel_signal') or has_sym(o, 'signal'), fn, 'cancelling must reach the signal of the awaited coroutine', h)
        cx.ob(contains(o, lambda x: x == ('i', AW + ('self',)) or x == ('i', AW + ('receiver',))) or has_sym(o, 'aw'), fn,
              'cancelling must reach the awaited coroutine, not another one', h)


def h_channel(cx, fn, p, h):
    k = None
    for key, v in h.state.store.items():
        if key[:1] == AW and key[-1] == 'cancelled':
            k = v
    cx.ob(cv(k) == 1 if k is not None else False, fn, 'a cancelled channel operation must be marked cancelled', h)
    cx.ob(bool([e for e in h.events if short(e.name) == 'unlink' and has_sym(e.obj, 'aw')]), fn,
          'a cancelled channel operation must leave the queue of the channel', h)
    w = load(p, AW + ('awaited_from',))
    posts = [e for e in h.events if e.kind == 'call' and short(e.name) in ('post', 'defer', 'dispatch') and any(contains(a, lambda x: x == w) for a in e.argv)]
    t = truth_of(h.state, w)
    if t is not False:
        cx.ob(len(posts) == 1, fn, 'a cancelled channel operation must resume the waiting coroutine', h)
        given = cv(load(h, AW + ('awaited_from',))) == 0 or posts and 'rr' in [k for a, k in zip(posts[0].argv, (posts[0].fn or {}).get('pk') or []) if contains(a, lambda x: x == w)]
        cx.ob(bool(given), fn, 'the handle of the resumed coroutine must be given up', h)


def h_thread(cx, fn, p, h):
    posts = [e for e in h.events if short(e.name) in ('post', 'dispatch', 'defer')]
    if not emits(h) and not posts:
        # nothing to cancel: only if the state is already gone
        cx.ob(any(t is False for k, t in h.state.facts.items() if k not in p.state.facts), fn, 'cancelling must reach the thread', h)
        return
    cx.ob(not emits(h), fn, 'the cancellation signal of a thread must be emitted on the thread itself', h)
    for e in posts:
        qs = None
        for clo in list(e.argv) + list(e.args):
            qs = qs or cx.closure(clo, h.state)
        if not cx.ob(bool(qs), fn, 'cancelling a thread must post the emission to it', h):
            continue
        import r_thread
        r_thread.nothing_owns(cx, fn, h, e, h.state, None)
        for q in qs:
            es = emits(q)
            cx.ob(len(es) == 1 and emit_type(es[0]) == CT, fn, 'the thread must emit the requested cancellation type', q)


def h_fork(cx, fn, p, h):
    """every live member must get the signal"""
    import r_fork
    r_fork.cancel_everyone(cx, fn, p, h)


def h_other(cx, fn, p, h):
    es = emits(h)
    cx.ob(bool(es) and all(emit_type(e) == CT for e in es), fn, 'the handler must pass on the requested cancellation type', h)


HANDLERS = {'promise_receiver': h_receiver, 'generator_receiver': h_receiver, 'task_receiver': h_receiver, 'channel': h_channel,
            'thread': h_thread, 'fork': h_fork, 'other': h_other}


@rule('P07')
def coroutine_state_listens_to_its_signal(cx):
    """The cancellation state of a coroutine is made from the slot of the signal that its owner emits on, and the owner
    (promise, generator) keeps the address of exactly that signal."""
    T = root('this')
    n = 0
    for k in ('cobalt_promise', 'generator_promise', 'task_promise', 'main_promise'):
        got = 0
        for fn in cx.fns('detail::%s::%s' % (k, k), body=False):
            if 'body' not in fn and 'inits' not in fn or any('%s<' % k in q['t'] or q['t'].rstrip(' &').endswith(k) for q in fn['params']):
                continue
            for p in cx.paths(fn, this=T):
                if p.outcome != 'return' or not p.state.store:
                    continue
                got += 1
                sl = [e for e in p.events if e.name == 'boost::asio::cancellation_signal::slot' and e.obj and e.obj[1][:1] == T]
                vals = [v for key, v in p.state.store.items() if key == T + ('source_',)]
                cx.ob(bool(sl) and bool(vals) and vals[0] == sl[-1].val, fn, 'the cancellation source of a coroutine must be its own signal', p)
                st = [e for e in p.events if e.kind == 'store' and e.obj == ('L', T + ('state_',))]
                cx.ob(bool(sl) and bool(st) and contains(st[-1].val, lambda x: x == sl[-1].val), fn,
                      'the cancellation state of a coroutine must be connected to its own signal', p)
        if not got:
            raise Anchor('no constructor of %s found' % k)
    for k in ('cobalt_promise', 'generator_promise'):
        for fn in cx.fns('detail::%s::get_return_object' % k):
            for p in cx.paths(fn, this=T):
                vs = [v for key, v in p.state.store.items() if key[-1] == 'cancel_signal']
                cx.ob(bool(vs) and all(v[0] == 'p' and v[1][:1] == T and cx_is_signal(cx, fn, v[1]) for v in vs), fn,
                      'the owner of a coroutine must be given the signal of that coroutine', p)


def cx_is_signal(cx, fn, path):
    r = cx.db.recs.get(fn['cls'])
    return any(f['n'] == path[-1] and 'cancellation_signal' in f['t'] for f in r['fields'])
