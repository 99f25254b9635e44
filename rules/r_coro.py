"""promise, task and generator: the hand-off between a coroutine and whoever awaits it."""
from lib import *

KINDS = [
    dict(kind='promise', recv='detail::promise_receiver', prom='detail::cobalt_promise', pub='promise', link='ref', done='done'),
    dict(kind='task', recv='detail::task_receiver', prom='detail::task_promise', pub='task', link='promise', done='done'),
    dict(kind='generator', recv='detail::generator_receiver', prom='detail::generator_promise', pub='generator', link='ref', done='done'),
]

R, PR, AW, R2 = root('receiver'), root('promise'), root('awaitable'), root('other')
H = ('o', 'from_promise', P(PR))
WAITER = ('i', R + ('awaited_from',))


def tname(t):
    return t.split('<')[0].split('::')[-1]


def roles(cx, k):
    """field names of receiver and promise by role"""
    rec = cx.recs(k['recv'])[0]
    prec = cx.recs(k['prom'])[0]
    r = {}
    r['waiter'] = cx.field(rec, 'awaited_from', lambda t: 'unique_handle<void>' in t)
    r['exc'] = cx.field(rec, 'exception', lambda t: 'exception_ptr' in t)
    r['done'] = cx.field(rec, 'done', lambda t: t == 'bool')
    r['recv'] = 'receiver'
    return r


def linked_seed(k, r, linked):
    s = {PR + (r['recv'],): P(R) if linked else NULL}
    return s


def field_ptr(cx, fn, this, target_cls, value):
    """seed every pointer/reference member of fn's class that points to target_cls"""
    rec = cx.db.recs.get(fn.get('cls'))
    out = {}
    if rec:
        for f in rec.get('fields', []):
            if target_cls in f['t'] and f['t'].rstrip(' const').endswith(('*', '&')):
                out[this + (f['n'],)] = value
    return out


def is_exc(v, name):
    """is v the library exception `name` (error::name wrapped into an exception_ptr)"""
    return v is not None and v[0] == 'o' and v[1] == 'eptr' and has_sym(v, 'error::' + name)


def engaged(st, path):
    return ENG.load(st, path + ('?',))


@rule('P01', 'P02')
def final_suspend_hands_over(cx):
    """At the end of a promise, task or generator body the awaiting coroutine (if any) is taken out of the receiver and
    returned as the next coroutine to run, the receiver is finished, an outcome is always present, the frame is destroyed once."""
    for k in KINDS:
        r = roles(cx, k)
        for fn in cx.fns(k['prom'] + '::final_awaitable::await_suspend'):
            for linked in (True, False):
                seed = linked_seed(k, r, linked)
                seed.update(field_ptr(cx, fn, AW, tname(k['prom']), P(PR)))
                for p in cx.paths(fn, this=AW, args=[H], seed=seed):
                    w = ('i', R + (r['waiter'],))
                    ret = value_of(p)
                    if not cx.ob(p.outcome == 'return', fn, 'final suspend of a %s must not throw' % k['kind'], p):
                        continue
                    d = [e for e in p.events if e.kind == 'destroy']
                    cx.ob(len(d) == 1 and d[0].val == H, fn, 'the finished %s frame must be destroyed exactly once' % k['kind'], p)
                    if not linked:
                        cx.ob(is_noop(ret), fn, 'a detached %s has nobody to resume' % k['kind'], p)
                        cx.ob(not null_deref(p), fn, 'a detached %s must not touch its receiver' % k['kind'], p)
                        continue
                    t = fact(p, w)
                    if t is not False:
                        cx.ob(ret == w, fn, 'the coroutine awaiting the %s must be resumed when it finishes' % k['kind'], p)
                        cx.ob(not [e for e in p.events if e.kind in ('reset', 'dtor', 'destroy') and e.val == w], fn,
                              'the coroutine awaiting the %s must not be destroyed' % k['kind'], p)
                        cx.ob(cv(load(p, R + (r['waiter'],))) == 0, fn, 'the receiver must give up the coroutine it resumes', p)
                    else:
                        cx.ob(is_noop(ret), fn, 'nothing but the awaiting coroutine may be resumed', p)
                    check_finished(cx, fn, p, r, k, d[0] if d else None)


def check_finished(cx, fn, p, r, k, destroy=None):
    """receiver is done and holds an outcome, either now or through the promise destructor run by destroy()"""
    if destroy is not None and load(p, PR + (r['recv'],)) == P(R):
        return
    done0, exc0 = ('i', R + (r['done'],)), ('i', R + (r['exc'],))
    cx.ob(fact(p, load(p, R + (r['done'],))) is True, fn, 'the receiver of a finished %s must be marked done' % k['kind'], p)
    exc = load(p, R + (r['exc'],))
    if fact(p, done0) is False and fact(p, exc0) is False:
        # generator receivers are only marked done here; they may hold a result already
        cx.ob(is_exc(exc, 'completed_unexpected') or (k['kind'] == 'generator'), fn,
              'a %s that ends without a result must report that' % k['kind'], p)
    else:
        cx.ob(exc == exc0, fn, 'the outcome of a %s must not be replaced when it finishes' % k['kind'], p)


def is_noop(v):
    return v is not None and has_sym(v, 'noop')


def value_of(p):
    """returned value of a path (an object's own value for a returned object)"""
    v = p.value
    if v is None or p.outcome == 'throw':
        return v
    return load(p, v[1]) if v[0] == 'L' else v


def null_deref(p):
    """does the path touch memory through a null pointer"""
    for e in p.events:
        for x in (e.obj,):
            if isinstance(x, tuple) and contains(x, lambda y: isinstance(y, tuple) and len(y) == 2 and y[0] == 'd' and cv(y[1]) == 0 if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], tuple) else False):
                return True
    return False


@rule('P02')
def final_ready_keeps_waiter(cx):
    """Final suspension may only be skipped when no coroutine waits for the result."""
    for k in KINDS:
        r = roles(cx, k)
        for fn in cx.fns(k['prom'] + '::final_awaitable::await_ready'):
            for linked in (True, False):
                seed = linked_seed(k, r, linked)
                seed.update(field_ptr(cx, fn, AW, tname(k['prom']), P(PR)))
                for p in cx.paths(fn, this=AW, seed=seed):
                    w = ('i', R + (r['waiter'],))
                    v = p.value
                    # the returned condition may itself be the test of the waiter
                    for t, st in ENG.truth(p.state.copy(), v):
                        if t and linked:
                            cx.ob(truth_of(st, w) is False, fn, 'final suspension is skipped although a coroutine waits for the %s' % k['kind'], p)
                        else:
                            cx.ob(not null_deref(p), fn, 'a detached %s must not touch its receiver' % k['kind'], p)


@rule('P01', 'P05')
def promise_destructor(cx):
    """Destroying the coroutine frame early finishes the receiver: it is done, reports completed_unexpected when nothing was produced,
    and lets go of the awaiting coroutine."""
    for k in KINDS:
        r = roles(cx, k)
        for fn in cx.fns(k['prom'] + '::~' + tname(k['prom'])):
            for linked in (True, False):
                for p in cx.paths(fn, this=PR, seed=linked_seed(k, r, linked)):
                    if linked:
                        done0, exc0 = ('i', R + (r['done'],)), ('i', R + (r['exc'],))
                        cx.ob(fact(p, load(p, R + (r['done'],))) is True, fn, 'the receiver of a destroyed %s must be marked done' % k['kind'], p)
                        exc = load(p, R + (r['exc'],))
                        if fact(p, done0) is False and fact(p, exc0) is False:
                            cx.ob(is_exc(exc, 'completed_unexpected'), fn, 'a %s destroyed before it finished must report that' % k['kind'], p)
                        else:
                            cx.ob(exc == exc0, fn, 'the outcome of a %s must survive its frame' % k['kind'], p)
                        cx.ob(cv(load(p, R + (r['waiter'],))) == 0, fn, 'a destroyed %s must let go of its awaiter' % k['kind'], p)
                    else:
                        cx.ob(not null_deref(p), fn, 'a detached %s must not touch its receiver' % k['kind'], p)


@rule('P01')
def return_value_reaches_receiver(cx):
    """co_return stores the value in the linked receiver and marks it done; a detached coroutine drops it."""
    for k in KINDS:
        r = roles(cx, k)
        names = ['return_value', 'return_void'] if k['kind'] != 'generator' else ['return_value']
        fns = []
        for n in names:
            for cls in ((k['prom'], ) if k['kind'] == 'generator' else (k['prom'], 'detail::%s_result' % ('cobalt_promise' if k['kind'] == 'promise' else 'task_promise'))):
                fns += cx.fns(cls + '::' + n, need=0)
        if not fns:
            raise Anchor('no return_value/return_void in ' + k['prom'])
        for fn in fns:
            for linked in (True, False):
                val = root('value')
                args = [('L', val)] if fn['params'] else []
                for p in cx.paths(fn, this=PR, args=args, seed=linked_seed(k, r, linked)):
                    if not linked:
                        cx.ob(p.outcome == 'return' and not null_deref(p), fn, 'a detached %s must drop its result' % k['kind'], p)
                        continue
                    if k['kind'] != 'generator':
                        cx.ob(fact(p, load(p, R + (r['done'],))) is True, fn, 'co_return must mark the %s done' % k['kind'], p)
                    if fn['params']:
                        res = [x for x in ('result', 'result_buffer') if stored_value(p, R + (x,)) == I(val)]
                        cx.ob(len(res) == 1, fn, 'co_return must store the value of the %s' % k['kind'], p)
                        if k['kind'] == 'generator' and res:
                            # an unread value must not be overwritten
                            t = fact(p, I(R + ('result', '?')))
                            cx.ob((res[0] == 'result') == (t is False), fn, 'an unread value of the generator must not be overwritten', p)


def stored_value(p, opt):
    if fact(p, load(p, opt + ('?',))) is not True:
        return None
    return load(p, opt + ('*',))


@rule('P01')
def exception_reaches_receiver(cx):
    """An exception leaving the body is stored in the linked receiver (which is then done); without a receiver it propagates."""
    for k in KINDS:
        r = roles(cx, k)
        for fn in cx.fns(k['prom'] + '::unhandled_exception'):
            for linked in (True, False):
                for p in cx.paths(fn, this=PR, seed=linked_seed(k, r, linked)):
                    if linked:
                        v = load(p, R + (r['exc'],))
                        cx.ob(v[0] == 'o' and v[1] in ('current_exception', 'eptr') and p.outcome == 'return', fn,
                              'the exception leaving a %s must be stored for its awaiter' % k['kind'], p)
                        if k['kind'] != 'generator':
                            cx.ob(fact(p, load(p, R + (r['done'],))) is True, fn, 'a %s that threw must be marked done' % k['kind'], p)
                    else:
                        cx.ob(p.outcome == 'throw', fn, 'the exception leaving a detached %s must not be swallowed' % k['kind'], p)


def outcome_of(p, value=None):
    """('error', payload) / ('value', payload) of a system::result, tuple<exception_ptr, T> or plain return"""
    if p.outcome == 'throw':
        v = p.value
        if v[0] == 'o' and v[1] == 'of_eptr':
            return 'error', v[2]
        return 'error', ('o', 'eptr', v)
    v = p.value
    if v is None:
        return 'value', None
    if v[0] == 'L':
        q = load(p, v[1] + ('?',))
        base = load(p, v[1])
        if base[0] == 'o' and base[1] == 'res':
            t = fact(p, q)
            if t is True:
                return 'value', load(p, v[1] + ('*',))
            if t is False:
                return 'error', load(p, v[1] + ('!',))
        return 'value', base
    return 'value', v


@rule('P01', 'P23')
def result_is_what_was_produced(cx):
    """Taking the result yields the stored exception whenever there is one, otherwise the stored value, and marks it taken."""
    for k in KINDS[:2]:
        r = roles(cx, k)
        for fn in cx.fns(k['recv'] + '::get_result'):
            for p in cx.paths(fn, this=R):
                exc0 = I(R + (r['exc'],))
                kind, pay = outcome_of(p)
                if fact(p, exc0) is not False:
                    cx.ob(kind == 'error' and pay == exc0, fn, 'a stored exception must be what the awaiter of a %s gets' % k['kind'], p)
                    if fact(p, I(R + (r['done'],))) is not False:
                        cx.ob(fact(p, load(p, R + ('result_taken',))) is True, fn, 'a taken result must be marked taken', p)
                    else:
                        cx.ob(cv(load(p, R + (r['exc'],))) == 0, fn, 'an interruption must be reported only once', p)
                else:
                    cx.ob(kind == 'value', fn, 'the awaiter of a %s gets the value when nothing was thrown' % k['kind'], p)
                    if 'void' not in fn['ret'].split(',')[0]:
                        cx.ob(pay == I(R + ('result', '*')), fn, 'the awaiter of a %s gets the value that was returned' % k['kind'], p)
                    cx.ob(fact(p, load(p, R + ('result_taken',))) is True, fn, 'a taken result must be marked taken', p)


# ---------------------------------------------------------------------------

def await_resumes(cx, cls):
    return cx.fns(cls + '::await_resume')


def seed_aw(cx, fn):
    return field_ptr(cx, fn, AW, '_receiver', P(R))


@rule('P01', 'P23', 'P03')
def awaiting_yields_the_outcome(cx):
    """Every form of awaiting a promise or task (throwing, as_result, as_tuple) reports the stored exception or value; a refused
    second await reports its own error."""
    for k in KINDS[:2]:
        r = roles(cx, k)
        for fn in cx.fns(k['recv'] + '::awaitable::await_resume'):
            form = 'result' if any('as_result_tag' in q['t'] for q in fn['params']) else 'tuple' if any('as_tuple_tag' in q['t'] for q in fn['params']) else 'plain'
            has_ex = any(f['n'] == 'ex' for f in cx.db.recs[fn['cls']]['fields'])
            for p in cx.paths(fn, this=AW, seed=seed_aw(cx, fn), opaque=()):
                exc0, ex0 = I(R + (r['exc'],)), I(AW + ('ex',))
                own = has_ex and fact(p, ex0) is not False
                want = ex0 if own else exc0 if fact(p, exc0) is not False else None
                if form == 'tuple':
                    got = tuple_outcome(p)
                else:
                    got = outcome_of(p)
                if want is not None:
                    cx.ob(got is not None and got[0] == 'error' and got[1] == want, fn, 'awaiting a %s that failed must report the failure' % k['kind'], p)
                else:
                    cx.ob(got is not None and got[0] == 'value', fn, 'awaiting a %s that succeeded must not report a failure' % k['kind'], p)
                    if got and got[1] is not None and 'void' not in fn['ret'] and stores_result(cx, fn):
                        cx.ob(has_sym(got[1], 'result') or mentions(got[1], I(R + ('result', '*'))), fn, 'awaiting a %s must produce the returned value' % k['kind'], p)


def stores_result(cx, fn):
    return True


def tuple_outcome(p):
    """as_tuple forms: std::make_tuple(ep, value) or a bare exception_ptr for void"""
    if p.outcome == 'throw':
        return None
    v = value_of(p)
    mk = [e for e in p.events if e.kind == 'call' and e.name in ('std::make_tuple', 'std::forward_as_tuple')]
    if mk:
        a = mk[-1].argv
        t = fact(p, a[0])
        if cv(a[0]) == 0 or t is False or (a[0][0] == 'o' and a[0][1] == 'new' and len(a[0]) == 3):
            return 'value', a[1] if len(a) > 1 else None
        return 'error', a[0]
    ct = [e for e in p.events if e.kind == 'ctor' and e.name.startswith('std::tuple')]
    if ct:
        a = ct[-1].argv
        if a:
            t = fact(p, a[0])
            if cv(a[0]) == 0 or t is False:
                return 'value', a[1] if len(a) > 1 else None
            return 'error', a[0]
    if v is None:
        return 'value', None
    t = fact(p, v)
    if cv(v) == 0 or t is False:
        return 'value', None
    return 'error', v


@rule('P03', 'P02')
def await_suspend_registers(cx):
    """Awaiting a promise, task or generator: a finished one does not suspend, a second concurrent await is refused with already_awaited
    and leaves the first waiter registered, and otherwise exactly the awaiting coroutine is registered and stays suspended."""
    for k in KINDS:
        r = roles(cx, k)
        for fn in cx.fns(k['recv'] + '::awaitable::await_suspend'):
            h = ('i', (('arg', 'h'),))
            w0 = I(R + (r['waiter'],))
            done0 = I(R + (r['done'],))
            hv = ('o', 'the-awaiter')
            for p in cx.paths(fn, this=AW, args=[hv], seed={**seed_aw(cx, fn), **({R + ('promise',): P(PR)} if k['kind'] == 'task' else {})}, facts={hv: True}):
                ret = value_of(p)
                if p.outcome == 'throw':
                    cx.ob(load(p, R + (r['waiter'],)) == I(R + (r['waiter'],)), fn, 'an await that throws must not leave a waiter registered', p)
                    continue
                stays = suspends(p, ret, hv)
                w = load(p, R + (r['waiter'],))
                d = fact(p, done0)
                destroyed = [e for e in p.events if e.kind in ('reset', 'dtor', 'destroy') and e.val == w0 and fact(p, w0) is not False]
                if k['kind'] != 'task':
                    cx.ob(not destroyed or fact(p, w0) is False, fn, 'a coroutine already awaiting the %s must not be dropped' % k['kind'], p)
                if d is True:
                    if k['kind'] != 'generator':
                        cx.ob(stays is False, fn, 'awaiting a finished %s must continue right away' % k['kind'], p)
                    cx.ob(w == w0, fn, 'awaiting a finished %s must not register a waiter' % k['kind'], p)
                    continue
                cx.ob(d is False, fn, 'whether the %s is finished must be tested before waiting for it' % k['kind'], p)
                if stays is False:
                    ex = load(p, AW + ('ex',))
                    if fact(p, I(AW + ('ex',))) is not True:
                        cx.ob(fact(p, w0) is True and is_exc(ex, 'already_awaited'), fn,
                              'awaiting an unfinished %s may only be refused because it is awaited already, and must say so' % k['kind'], p)
                    cx.ob(w == w0, fn, 'a refused await must leave the registered waiter alone', p)
                else:
                    cx.ob(w == hv, fn, 'the coroutine awaiting the %s must be registered' % k['kind'], p)
                    if k['kind'] != 'task':
                        cx.ob(fact(p, w0) is False, fn, 'a second coroutine awaiting the same %s must be refused' % k['kind'], p)
                    if k['kind'] == 'task':
                        cx.ob(ret == H, fn, 'awaiting a task must start it', p)


def suspends(p, ret, hv):
    """True: the awaiter stays suspended; False: it continues; None: undecided"""
    if ret is None:
        return True
    if ret == hv:
        return False
    c = cv(ret)
    if c is not None:
        return bool(c)
    if ret[0] in ('o', 'i', 'u', 'p', 'd'):
        if ret[0] == 'o' and ret[1] in ('!', '==', '<'):
            return None
        return True
    return None


@rule('P04')
def moving_relinks(cx):
    """Moving a promise, task or generator: the destination takes over outcome, state and waiter and becomes the receiver the running
    coroutine reports to; the source is finished and, if it was running, reports moved_from."""
    for k in KINDS:
        r = roles(cx, k)
        cands = [(f, False) for f in cx.fns(k['recv'] + '::' + tname(k['recv']), ctor='move')]
        cands += [(f, True) for f in cx.fns(k['recv'] + '::operator=', need=0, assign='move') if not f.get('defaulted')]
        if k['kind'] != 'task' and not any(a for _, a in cands):
            raise Anchor('no move assignment of ' + k['recv'])
        for fn, assign in cands:
            back = root('producer')   # the coroutine's pointer to its receiver
            seed = {}
            if k['link'] == 'ref':
                seed[R2 + ('reference',)] = P(back + ('receiver',))
                seed[back + ('receiver',)] = P(R2)
            else:
                seed[R2 + ('promise',)] = P(back)
                seed[back + ('receiver',)] = P(R2)
            oldback = root('oldproducer')
            if assign:
                seed[R + ('reference',)] = P(oldback + ('receiver',))
            for p in cx.paths(fn, this=R, args=[('L', R2)], seed=seed):
                d0, e0, w0 = I(R2 + (r['done'],)), I(R2 + (r['exc'],)), I(R2 + (r['waiter'],))
                running = fact(p, d0) is False and fact(p, e0) is not True
                cx.ob(fact(p, d0) is not None, fn, 'a moved %s must be re-linked according to whether it is still running' % k['kind'], p)
                cx.ob(load(p, R + (r['done'],)) == d0 or fact(p, load(p, R + (r['done'],))) == fact(p, d0) is not None, fn, 'the moved-to %s must take over whether it is finished' % k['kind'], p)
                cx.ob(load(p, R + (r['exc'],)) == e0, fn, 'the moved-to %s must take over the stored exception' % k['kind'], p)
                cx.ob(load(p, R + (r['waiter'],)) == w0, fn, 'the moved-to %s must take over the waiting coroutine' % k['kind'], p)
                cx.ob(cv(load(p, R2 + (r['waiter'],))) == 0, fn, 'the moved-from %s must not keep the waiting coroutine' % k['kind'], p)
                if k['link'] == 'ref':
                    cx.ob(load(p, R + ('reference',)) == P(back + ('receiver',)), fn, 'the moved-to %s must know its coroutine' % k['kind'], p)
                    cx.ob(load(p, R + ('cancel_signal',)) == I(R2 + ('cancel_signal',)), fn, 'the moved-to %s must be able to cancel its coroutine' % k['kind'], p)
                else:
                    cx.ob(load(p, R + ('promise',)) == P(back), fn, 'the moved-to %s must know its coroutine' % k['kind'], p)
                link = load(p, back + ('receiver',))
                if running:
                    cx.ob(link == P(R), fn, 'the running coroutine must report to the moved-to %s' % k['kind'], p)
                    cx.ob(is_exc(load(p, R2 + (r['exc'],)), 'moved_from'), fn, 'the moved-from %s must report that it was moved from' % k['kind'], p)
                    touched = True
                elif fact(p, d0) is True:
                    # the coroutine is gone: its frame must not be touched
                    cx.ob(link == P(R2) and not writes(p, back), fn, 'the frame of a finished %s must not be written' % k['kind'], p)
                cx.ob(fact(p, load(p, R2 + (r['done'],))) is True, fn, 'the moved-from %s must count as finished' % k['kind'], p)
                taken_over(cx, k, r, fn, p)
                if assign:
                    old = load(p, oldback + ('receiver',))
                    od = I(R + (r['done'],))
                    mine = ENG.eq(I(oldback + ('receiver',)), P(R))
                    if fact(p, od) is not False:
                        cx.ob(not reads(p, oldback) and not writes(p, oldback), fn, 'assigning over a finished %s must not touch its destroyed coroutine' % k['kind'], p)
                    elif fact(p, mine) is not False:
                        cx.ob(cv(old) == 0, fn, 'the coroutine of the overwritten %s must be detached from it' % k['kind'], p)


def all_fields(cx, rec, depth=0):
    """field names of a record and its bases"""
    r = cx.db.recs.get(rec)
    if r is None or depth > 4:
        return []
    out = [f['n'] for f in r['fields']]
    for b in r.get('bases') or []:
        out += [x for x in all_fields(cx, b, depth + 1) if x not in out]
    return out


def same_optional(p, a, b):
    """the optional at a is what the one at b was when the path began"""
    ea, eb = load(p, a + ('?',)), fact(p, I(b + ('?',)))
    if eb is None:
        eb = fact(p, I(b))
    if fact(p, ea) is not None and fact(p, ea) == eb:
        return eb is False or holds(p, a + ('*',), b + ('*',)) or contains(load(p, a + ('*',)), lambda x: x == I(b + ('*',)))
    return False


def taken_over(cx, k, r, fn, p):
    skip = {r['done'], r['exc'], r['waiter'], 'reference', 'promise', 'cancel_signal'}
    flds = [x for x in all_fields(cx, fn['cls']) if x not in skip]
    if k['kind'] != 'promise' and not flds and 'void' not in fn['cls']:
        raise Anchor('no state in ' + fn['cls'])
    for fld in flds:
        a = load(p, R + (fld,))
        cx.ob(a == I(R2 + (fld,)) or holds(p, R + (fld,), R2 + (fld,)) or same_optional(p, R + (fld,), R2 + (fld,)), fn,
              'the moved-to %s must take over %s' % (k['kind'], fld), p)


@rule('P01', 'P08')
def moving_keeps_what_was_delivered(cx):
    """Moving the object of a coroutine takes everything along that was delivered to it or is meant for the coroutine: value, buffered
    value, pushed value, exception, completion."""
    for k in KINDS:
        if (k['kind'] == 'generator') != (cx.pid == 'P08'):
            continue
        r = roles(cx, k)
        cands = cx.fns(k['recv'] + '::' + tname(k['recv']), ctor='move')
        cands += [f for f in cx.fns(k['recv'] + '::operator=', need=0, assign='move') if not f.get('defaulted')]
        for fn in cands:
            for p in cx.paths(fn, this=R, args=[('L', R2)]):
                taken_over(cx, k, r, fn, p)
                d0, e0 = I(R2 + (r['done'],)), I(R2 + (r['exc'],))
                cx.ob(load(p, R + (r['done'],)) == d0 or fact(p, load(p, R + (r['done'],))) == fact(p, d0) is not None, fn,
                      'the moved-to %s must take over whether it is finished' % k['kind'], p)
                cx.ob(load(p, R + (r['exc'],)) == e0, fn, 'the moved-to %s must take over the stored exception' % k['kind'], p)


def writes(p, rt):
    return [e for e in p.events if e.kind == 'store' and isinstance(e.obj, tuple) and e.obj[0] == 'L' and e.obj[1][:1] == rt]


def reads(p, rt):
    """does a branch decision depend on memory under rt"""
    return [e for e in p.events if e.kind == 'branch' and e.val is not None and contains(e.val, lambda x: isinstance(x, tuple) and len(x) == 2 and x[0] == 'i' and x[1][:1] == rt)]


@rule('P05')
def receiver_destructor_detaches(cx):
    """Destroying the handle of a running coroutine cuts the coroutine's link to it (and destroys a task that never started); a handle
    that is not linked, or whose coroutine is finished, leaves the coroutine alone."""
    for k in KINDS:
        r = roles(cx, k)
        for fn in cx.fns(k['recv'] + '::~' + tname(k['recv'])):
            back = root('producer')
            for mine in (True, False):
                seed = {}
                if k['link'] == 'ref':
                    seed[R + ('reference',)] = P(back + ('receiver',))
                else:
                    seed[R + ('promise',)] = P(back)
                seed[back + ('receiver',)] = P(R) if mine else P(R2)
                for p in cx.paths(fn, this=R, seed=seed):
                    d = fact(p, I(R + (r['done'],)))
                    link = load(p, back + ('receiver',))
                    w = writes(p, back)
                    if d is True or not mine:
                        cx.ob(not w, fn, 'a %s that is not linked must leave the coroutine alone' % k['kind'], p)
                        if d is True:
                            cx.ob(not reads(p, back), fn, 'the frame of a finished %s must not be read' % k['kind'], p)
                        cx.ob(not [e for e in p.events if e.kind == 'destroy'], fn, 'a %s that is not linked must not destroy a coroutine' % k['kind'], p)
                    else:
                        cx.ob(d is False, fn, 'whether the %s is finished decides whether its coroutine may be touched' % k['kind'], p)
                        cx.ob(cv(link) == 0, fn, 'the running coroutine must be detached from a destroyed %s' % k['kind'], p)
                        ds = [e for e in p.events if e.kind == 'destroy']
                        if k['kind'] == 'task':
                            started = fact(p, I(back + ('started',)))
                            cx.ob(started is not None and bool(ds) == (started is False), fn, 'dropping a task destroys its coroutine exactly when it never started', p)
                        else:
                            cx.ob(not ds, fn, 'dropping a %s must not destroy its running coroutine' % k['kind'], p)


@rule('P05')
def task_start_is_recorded(cx):
    """A task is marked started when its body begins, not before."""
    for fn in cx.fns('detail::task_promise::initial_awaitable::await_resume'):
        seed = field_ptr(cx, fn, AW, 'task_promise', P(PR))
        for p in cx.paths(fn, this=AW, seed=seed):
            cx.ob(fact(p, load(p, PR + ('started',))) is True, fn, 'a task must be marked started when its body begins', p)
    for fn in cx.fns('detail::task_promise::initial_awaitable::await_ready'):
        for p in cx.paths(fn, this=AW):
            cx.ob(fact(p, p.value) is False, fn, 'a task must not start before it is awaited', p)


@rule('P05')
def handle_destruction_cancels(cx):
    """Destroying or overwriting an attached promise, or a generator, cancels it; a detached promise is left running; cancelling reaches
    the coroutine only while it runs and reports to this handle."""
    back, sig = root('producer'), root('signal')
    for pub, recv in (('promise', 'detail::promise_receiver'), ('generator', 'detail::generator_receiver')):
        jobs = [(f, 'dtor') for f in cx.fns('%s::~%s' % (pub, pub))] + [(f, 'assign') for f in cx.fns(pub + '::operator=', assign='move')] + \
               [(f, 'cancel') for f in cx.fns(pub + '::cancel')]
        RV = ('receiver_',)
        T = root('handle')
        for fn, what in jobs:
            for mine in (True, False):
                seed = {T + RV + ('reference',): P(back + ('receiver',)), back + ('receiver',): P(T + RV) if mine else NULL,
                        T + RV + ('cancel_signal',): P(sig)}
                args = [('L', root('src'))] if what == 'assign' else [('o', 'ct')] if what == 'cancel' else []
                for p in cx.paths(fn, this=T, args=args, seed=seed):
                    em = [e for e in p.events if e.kind == 'call' and e.name == EMIT]
                    att = I(T + ('attached_',))
                    d = fact(p, I(T + RV + ('done',)))
                    expect = mine
                    if pub == 'promise' and what != 'cancel':
                        a = fact(p, att)
                        if a is False:
                            expect = False
                        else:
                            cx.ob(a is True, fn, 'whether a promise is attached decides whether dropping it cancels', p)
                    if d is True:
                        expect = False
                    cx.ob(bool(em) == expect and len(em) <= 1, fn, 'dropping an attached, running %s must cancel it (and nothing else may)' % pub, p)
                    for e in em:
                        cx.ob(e.obj == ('L', sig), fn, 'cancelling a %s must reach its own coroutine' % pub, p)
                        if what == 'cancel':
                            cx.ob(e.argv and e.argv[0] == ('o', 'ct'), fn, 'the requested kind of cancellation must be passed on', p)
                        elif e.argv and cv(e.argv[0]) is not None:
                            cx.ob(has_sym(e.argv[0], '::all') or cv(e.argv[0]) in (7, 4294967295, -1, 0xffffffff), fn, 'dropping a %s requests every kind of cancellation' % pub, p)
    # moving transfers the attachment
    for fn in cx.fns('promise::operator=', assign='move') + cx.fns('promise::promise', ctor='move'):
        T, S = root('handle'), root('src')
        for p in cx.paths(fn, this=T, args=[('L', S)], opaque={'boost::cobalt::detail::promise_receiver::operator=', 'boost::cobalt::promise::cancel'}):
            cx.ob(load(p, T + ('attached_',)) == I(S + ('attached_',)), fn, 'moving a promise must carry over whether it is attached', p)
            cx.ob(cv(load(p, S + ('attached_',))) == 0, fn, 'a moved-from promise must not cancel anything', p)
    for name, val in (('detach', 0), ('attach', 1), ('operator+', 0)):
        for fn in cx.fns('promise::' + name):
            for p in cx.paths(fn, this=root('handle')):
                cx.ob(cv(load(p, root('handle') + ('attached_',))) == val, fn, '%s must change whether the promise is attached' % name, p)
    # a freshly created promise is attached and linked
    for fn in cx.fns('promise::promise', pred=lambda f: any('cobalt_promise' in q['t'] for q in f['params'])):
        T = root('handle')
        for p in cx.paths(fn, this=T, args=[P(PR)]):
            cx.ob(fact(p, load(p, T + ('attached_',))) is True, fn, 'a new promise is attached', p)
            cx.ob(load(p, PR + ('receiver',)) == P(T + ('receiver_',)), fn, 'a new promise is linked to its coroutine', p)
            cx.ob(load(p, T + ('receiver_', 'cancel_signal')) == P(PR + ('signal',)), fn, 'a new promise cancels through its coroutine\'s signal', p)
    for fn in cx.fns('generator::generator', pred=lambda f: any('generator_promise' in q['t'] for q in f['params'])):
        T = root('handle')
        for p in cx.paths(fn, this=T, args=[P(PR)]):
            cx.ob(load(p, PR + ('receiver',)) == P(T + ('receiver_',)), fn, 'a new generator is linked to its coroutine', p)
            cx.ob(load(p, T + ('receiver_', 'cancel_signal')) == P(PR + ('signal',)), fn, 'a new generator cancels through its coroutine\'s signal', p)
    for fn in cx.fns('task::task', pred=lambda f: any('task_promise' in q['t'] for q in f['params'])):
        T = root('handle')
        for p in cx.paths(fn, this=T, args=[P(PR)]):
            cx.ob(load(p, PR + ('receiver',)) == P(T + ('receiver_',)), fn, 'a new task is linked to its coroutine', p)


@rule('P01')
def observers_tell_the_state(cx):
    """ready() is true exactly when an outcome is there, and the boolean test stays true until the outcome was taken."""
    T = root('handle')
    spec = {
        'promise::ready': lambda f: f('done'),
        'promise::operator bool': lambda f: not f('done') or not f('result_taken'),
        'promise::attached': None,
        'generator::ready': lambda f: f('result?') or f('exception'),
        'generator::operator bool': lambda f: not f('done') or f('result?') or f('exception'),
    }
    for name, want in spec.items():
        for fn in cx.fns(name):
            for p in cx.paths(fn, this=T):
                for t, st in ENG.truth(p.state.copy(), p.value):
                    if want is None:
                        cx.ob(p.value == I(T + ('attached_',)), fn, 'attached() must tell whether the promise is attached', p)
                        continue
                    def f(n, pos):
                        path = T + ('receiver_',) + ((n[:-1], '?') if n.endswith('?') else (n,))
                        x = truth_of(st, ENG.load(st, path))
                        return pos if x is None else x
                    # undetermined inputs must not matter: try both
                    res = {bool(want(lambda n: f(n, b))) for b in (True, False)}
                    cx.ob(res == {t}, fn, '%s must follow the state of the coroutine' % name, p)
