"""Operations and completion handlers (P16, P17), composed operations (P30)."""
from lib import *
from r_slot import value_of_path
from r_with import freed

T_ = root('this')
H = ('i', root('h'))
STATE = root('state')
CI = 'boost::cobalt::detail::completed_immediately_t::'
NO, MAYBE, YES, INIT = (('e', CI + n, i) for i, n in enumerate(('no', 'maybe', 'yes', 'initiating')))


def enum_ok(v, want):
    return v == want or v is not None and v[0] == 'e' and v[2] == want[2] or cv(v) == want[2]


def ch_fields(cx):
    """names of the members of a completion handler, by role"""
    r = cx.recs('completion_handler')[0]
    b = cx.recs('detail::completion_handler_base')[0]
    return dict(self=cx.field(r, 'self', lambda t: 'unique_handle' in t), result=cx.field(r, 'result', lambda t: 'optional' in t),
                ci=cx.field(b, 'completed_immediately', lambda t: 'completed_immediately_t' in t), slot=cx.field(b, 'cancellation_slot', lambda t: 'slot' in t),
                exec=cx.field(b, 'executor_', lambda t: 'executor' in t), alloc=cx.field(b, 'allocator', lambda t: 'alloc' in t))


def unwinding(p):
    """what std::uncaught_exceptions() > 0 was on the path (None: not asked)"""
    for k, t in p.state.facts.items():
        if has_sym(k, 'uncaught_exceptions'):
            return t
    return None


def thrown(p):
    return [e for e in p.events if e.kind == 'raise']


def sane(p):
    u = unwinding(p)
    return u is None or u == bool(thrown(p))


def killed(p, h=H):
    """events that destroy coroutine h"""
    return [e for e in p.events if e.val == h and (e.kind == 'destroy' or e.kind in ('dtor', 'reset') and 'unique_handle' in e.name)]


def locals_left(p, under):
    return [k for k, v in p.state.store.items() if k[:len(under)] == under and v is not None and v[0] == 'p' and v[1] and v[1][0][0] in ('v', 't')]


def dies(cls):
    """the awaitable at T_ goes down with the coroutine that awaits it"""
    def f(eng, s, h):
        if h != H:
            return
        fr = en.Frame({'file': '', 'line': 0, 'n': '', 'q': '', 'params': [], 'id': 0}, (), None, None, None)
        for r in eng.destroy_members(T_, cls, fr, [s], {}):
            s.store, s.facts = r.store, r.facts
            break
        eng.put(s, T_, ('o', 'freed', H))
    return f


def started(cx, fn, mode, seen):
    f = ch_fields(cx)

    def hook(eng, s, kind, name):
        if kind != 'call' or short(name) != 'initiate':
            return False
        a = s.trace[1].args[0]
        h = a[1] if a is not None and a[0] == 'L' else None
        ptr = eng.load(s, h + (f['ci'],))
        at = ptr[1] if ptr[0] == 'p' else (('d', ptr),)
        seen.append(dict(self=eng.load(s, h + (f['self'],)), result=eng.load(s, h + (f['result'],)), ptr=ptr, state=eng.load(s, at),
                         slot=eng.load(s, h + (f['slot'],)), exec=eng.load(s, h + (f['exec'],)), alloc=eng.load(s, h + (f['alloc'],)), obj=s.trace[1].obj))
        if mode in ('kept', 'done', 'threw'):
            eng.put(s, h + (f['self'],), NULL)
        if mode == 'done':
            eng.put(s, at, YES)
        return True
    thr = (lambda n, q, fr: short(n) == 'initiate') if mode in ('threw', 'unwound') else None
    ps = cx.paths(fn, this=T_, args=[H] + [('L', root('loc'))] * (len(fn['params']) - 1), facts={H: True}, on_foreign=hook, may_throw=thr, frees=dies(fn['cls']))
    return [p for p in ps if sane(p) and not no_executor(p) and (mode not in ('threw', 'unwound') or thrown(p))]


def no_executor(p):
    """the path of a coroutine that was never given an executor"""
    return any(t is False and has_sym(k, 'exec') and has_sym(k, '?') for k, t in p.state.facts.items()) or \
        any(has_sym(e.val, 'bad_executor') for e in thrown(p))


def suspends_(p):
    v = value_of_path(p)
    return True if v is None else fact(p, v)


@rule('P16', 'P17')
def operation_is_started_once(cx):
    """Awaiting an operation that is not ready starts it exactly once, with a handler that belongs to the awaiting coroutine; whether it
    is pending, done, failed to start or dropped its handler when that returns decides how the coroutine goes on."""
    for fn in cx.fns('op::awaitable_base::await_suspend'):
        for mode in ('kept', 'done', 'threw', 'unwound', 'dropped'):
            seen = []
            for p in started(cx, fn, mode, seen):
                es = [e for e in p.events if e.kind in ('call', 'enter') and short(e.name) == 'initiate']
                cx.ob(len(es) == 1, fn, 'the operation must be started exactly once', p)
                cx.ob(p.outcome == 'return', fn, 'an exception of the initiation must not leave the suspension', p)
                s = suspends_(p)
                ks = killed(p)
                if mode == 'kept':
                    cx.ob(s is True, fn, 'a pending operation must suspend the coroutine', p)
                    cx.ob(not ks, fn, 'the waiting coroutine must not be destroyed', p)
                    for x in seen[-1:]:
                        cx.ob(x['ptr'][0] == 'p' and enum_ok(load(p, x['ptr'][1]), NO), fn, 'a completion after the initiation must resume the coroutine', p)
                elif mode == 'done':
                    cx.ob(s is False, fn, 'an operation that completed while being started must not suspend the coroutine', p)
                    cx.ob(not ks, fn, 'the coroutine of a completed operation must not be destroyed', p)
                elif mode in ('threw', 'unwound'):
                    cx.ob(s is False, fn, 'an operation that failed to start must not suspend the coroutine', p)
                    cx.ob(not ks, fn, 'the coroutine of an operation that failed to start must not be destroyed', p)
                    ex = thrown(p)[0].val
                    cx.ob(any(v == ('o', 'eptr', ex) for k, v in p.state.store.items() if k[:1] == T_), fn, 'the exception of the initiation must be kept', p)
                else:
                    cx.ob(len(ks) == 1, fn, 'a coroutine whose handler got dropped must be destroyed', p)
                    cx.ob(s is True, fn, 'a destroyed coroutine must not go on', p)
                    if ks:
                        late = p.events[idx(p, ks[0]) + 1:]
                        cx.ob(not [e for e in late if e.kind == 'store' and e.obj and e.obj[0] == 'L' and e.obj[1][:1] == T_ or freed(e.val) or any(freed(a) for a in e.argv or [])] and
                              not any(freed(k) for k in p.state.facts), fn, 'a destroyed awaitable must not be used', p)
                if mode != 'dropped':
                    cx.ob(not locals_left(p, T_), fn, 'the awaitable must not keep pointers into a finished await_suspend', p)
            cx.ob(bool(seen), fn, 'the operation must be started')
            for x in seen:
                cx.ob(x['obj'] == ('L', (('d', I(T_ + ('op_',))),)) or has_sym(x['obj'], 'op_'), fn, 'the awaited operation must be started')
                cx.ob(x['self'] == H, fn, 'the handler must resume the awaiting coroutine')
                cx.ob(x['result'] == P(T_ + ('result',)) or has_sym(x['result'], 'result') and x['result'][1][:1] == T_, fn, 'the handler must deliver into the awaitable')
                cx.ob(x['ptr'][0] == 'p' and x['ptr'][1][:1] == T_, fn, 'the handler must know whether it is still being started')
                cx.ob(enum_ok(x['state'], INIT), fn, 'the initiation must be marked as such')
                cx.ob(mentions(x['alloc'], I(T_ + ('resource',))), fn, 'the handler must allocate from the resource of the operation')
                cx.ob(has_sym(x['exec'], 'promise_of') or 'get_executor' not in str(promise_members(cx, fn)), fn, 'the handler must use the executor of the awaiting coroutine')
                cx.ob(x['slot'] is not None and has_sym(x['slot'], 'get_associated_cancellation_slot') or has_sym(x['slot'], 'promise_of'), fn, 'the handler must use the cancellation slot of the awaiting coroutine')


def promise_members(cx, fn):
    t = (fn['params'][0].get('tc') or fn['params'][0]['t'])
    i = t.find('coroutine_handle<')
    t = t[i + 17:t.rfind('>')] if i >= 0 else ''
    names = []
    for f in cx.db.fns.values():
        if f.get('cls') == t:
            names.append(short(f['n']))
    return names


def with_args(fn):
    return [('L', root('a%d' % i)) for i in range(len(fn['params']))]


def arg_values(fn):
    return [I(root('a%d' % i)) for i in range(len(fn['params']))]


def given(p, loc, vals):
    """the optional tuple at loc was filled, once, with vals in their order"""
    es = [e for e in p.events if e.kind == 'engage' and e.obj and e.obj[0] == 'L' and e.obj[1] == loc]
    return len(es) == 1 and list(es[0].argv or []) == vals


@rule('P16', 'P17')
def completion_delivers_and_resumes_once(cx):
    """Invoking a completion handler stores the completion arguments, in order, before the coroutine gets to run. The coroutine is resumed
    exactly once, unless the operation is still being started: then it is only marked as complete."""
    f = ch_fields(cx)
    for fn in cx.fns('completion_handler::operator()'):
        for st in (None, NO, MAYBE, INIT):
            seed = {T_ + (f['ci'],): NULL if st is None else P(STATE), T_ + (f['self'],): H, T_ + (f['result'],): P(root('result'))}
            if st is not None:
                seed[STATE] = st

            def hook(eng, s, kind, name):
                if kind == 'resume':
                    eng.put(s, T_, ('o', 'freed', H))
                return False
            for p in cx.paths(fn, this=T_, args=with_args(fn), seed=seed, facts={H: True}, on_foreign=hook, loop=4):
                cx.ob(p.outcome == 'return', fn, 'completing must not fail', p)
                rs = [e for e in p.events if e.kind == 'resume']
                res = [k for k, v in p.state.store.items() if k[:1] == root('result')]
                cx.ob(delivered(p, fn), fn, 'the completion arguments must be delivered in order, once', p)
                cx.ob(not killed(p), fn, 'the completed coroutine must not be destroyed', p)
                if st in (MAYBE, INIT):
                    cx.ob(not rs, fn, 'the coroutine must not be resumed from inside of its own suspension', p)
                    cx.ob(enum_ok(load(p, STATE), YES), fn, 'the completion must be noted while the operation is being started', p)
                    cx.ob(cv(load(p, T_ + (f['self'],))) == 0, fn, 'a handler that completed must let go of the coroutine', p)
                else:
                    cx.ob(len(rs) == 1 and rs[0].val == H, fn, 'the coroutine must be resumed exactly once', p)
                    if rs:
                        i = idx(p, rs[0])
                        cx.ob(all(idx(p, e) < i for e in p.events if e.kind == 'engage'), fn, 'the result must be there before the coroutine is resumed', p)
                        cx.ob(not [e for e in p.events[i + 1:] if e.kind == 'store' and e.obj and e.obj[0] == 'L' and e.obj[1][:1] in (T_, root('result'), STATE) or freed(e.val)], fn,
                              'nothing of the operation may be touched after the coroutine was resumed', p)
                        before = [e for e in p.events[:i] if e.kind in ('call', 'store') and e.obj and e.obj == ('L', T_ + (f['self'],))]
                        cx.ob(bool(before) or has_sym(rs[0].obj, f['self']), fn, 'the handler must let go of the coroutine before resuming it', p)


def delivered(p, fn):
    for e in p.events:
        if e.kind == 'engage' and e.obj and e.obj[0] == 'L':
            o = e.obj[1]
            if o == root('result') or has_sym(o, 'result'):
                return given(p, o, arg_values(fn))
    return False


@rule('P16')
def immediate_result_is_delivered(cx):
    """Asking whether an operation is ready happens once; it is taken as ready exactly when it delivered a result, which is kept unchanged."""
    for fn in cx.fns('op::awaitable_base::await_ready'):
        for fill in (True, False):
            n = []

            def hook(eng, s, kind, name):
                if kind == 'call' and short(name) == 'ready':
                    n.append(1)
                    a = s.trace[1].args[0]
                    r = eng.load(s, a[1] + ('result',)) if a is not None and a[0] == 'L' else None
                    if r is not None and r[0] == 'p':
                        eng.put(s, r[1] + ('?',), TRUE if fill else FALSE)
                    return True
            for p in cx.paths(fn, this=T_, on_foreign=hook, seed={T_ + ('result', '?'): FALSE}):
                es = [e for e in p.events if e.kind in ('call', 'enter') and short(e.name) == 'ready']
                cx.ob(len(es) == 1 and has_sym(es[0].obj, 'op_'), fn, 'the operation must be asked exactly once whether it is ready', p)
                v = value_of_path(p)
                t = fact(p, v) if v is not None else None
                cx.ob(t is fill, fn, 'an operation is ready exactly when it delivered a result', p)
    for fn in cx.fns('handler::operator()'):
        for p in cx.paths(fn, this=T_, args=with_args(fn), seed={T_ + ('result',): P(root('result'))}):
            cx.ob(delivered(p, fn), fn, 'the arguments of an immediate completion must be delivered in order', p)


@rule('P16')
def dropped_handler_destroys_its_coroutine(cx):
    """A completion handler destroyed without having been invoked destroys the coroutine that awaits it, unless that is still being
    suspended and gets the exception that destroys the handler."""
    f = ch_fields(cx)
    for fn in cx.fns('completion_handler::~completion_handler'):
        for st in (None, NO, MAYBE, INIT):
            seed = {T_ + (f['ci'],): NULL if st is None else P(STATE), T_ + (f['self'],): H}
            if st is not None:
                seed[STATE] = st
            for p in cx.paths(fn, this=T_, seed=seed, facts={H: True}):
                left = load(p, T_ + (f['self'],)) == H
                u = unwinding(p)
                if st in (MAYBE, INIT):
                    cx.ob(u is not None, fn, 'whether the handler is dropped by an exception must be looked at', p)
                    cx.ob(left is (not u), fn, 'a coroutine whose operation failed to start must not be destroyed' if u else 'a dropped handler must destroy the coroutine', p)
                else:
                    cx.ob(left, fn, 'a dropped handler must destroy the coroutine', p)
                cx.ob(not [e for e in p.events if e.kind == 'resume'], fn, 'a dropped handler must not resume the coroutine', p)


@rule('P17')
def immediate_executor_runs_inline_only_during_the_initiation(cx):
    """The immediate executor of a completion handler runs a function in place only while the operation is being started, marking that the
    handler may be invoked from there, and undoes the mark when it was not; otherwise the function is posted. Each function runs once."""
    for fn in cx.fns('detail::completion_handler_noop_executor::execute'):
        for st in (None, NO, MAYBE, INIT):
            for completes in (True, False):
                seed = {T_ + ('completed_immediately',): NULL if st is None else P(STATE)}
                if st is not None:
                    seed[STATE] = st
                at = []

                def hook(eng, s, kind, name):
                    e = s.trace[1]
                    if kind == 'call' and is_fn(e):
                        at.append(eng.load(s, STATE))
                        if completes:
                            eng.put(s, STATE, YES)
                        return True
                    return kind == 'call' and short(name) in POST
                for p in cx.paths(fn, this=T_, args=[('L', root('fn'))], seed=seed, on_foreign=hook, opaque_pred=lambda q, b: short(q['n']) in POST or 'operator()' in q['n']):
                    run = [e for e in p.events if e.kind == 'call' and is_fn(e)]
                    posted = [e for e in p.events if e.kind == 'call' and short(e.name) in POST]
                    cx.ob(len(run) + len(posted) == 1, fn, 'a function given to the immediate executor must run exactly once', p)
                    if st in (MAYBE, INIT):
                        cx.ob(len(run) == 1, fn, 'functions are run immediately while the operation is being started', p)
                        cx.ob(all(enum_ok(x, MAYBE) for x in at), fn, 'a function run in place must be marked as such', p)
                        if completes:
                            cx.ob(enum_ok(load(p, STATE), YES), fn, 'a completion must not be forgotten', p)
                        else:
                            v = load(p, STATE)
                            cx.ob(enum_ok(v, INIT) or st == MAYBE and enum_ok(v, MAYBE), fn, 'the operation is still being started after a function that did not complete it', p)
                    else:
                        cx.ob(len(posted) == 1, fn, 'functions must be posted once the operation was started', p)
                        for e in posted:
                            cx.ob(any(has_sym(a, 'exec') for a in e.argv or []), fn, 'functions must be posted to the executor of the coroutine', p)
    for fn in cx.fns('detail::completion_handler_base::get_immediate_executor'):
        for p in cx.paths(fn, this=T_):
            v = p.value
            if v is not None and v[0] == 'L':
                vs = [load(p, v[1] + (n,)) for n in ('exec', 'completed_immediately')]
                cx.ob(vs[1] == I(T_ + ('completed_immediately',)), fn, 'the immediate executor must share the state of its handler', p)
                cx.ob(has_sym(vs[0], 'executor_') or vs[0] == I(T_ + ('executor_',)), fn, 'the immediate executor must use the executor of its handler', p)


POST = ('post', 'defer')


def is_fn(e):
    return e.obj is not None and (e.obj == ('L', root('fn')) or e.obj == I(root('fn')) or e.obj[0] == 'L' and e.obj[1][:1] == root('fn'))


# -- results ----------------------------------------------------------------

def is_error_type(cx, t):
    """a completion argument that stands for success or failure"""
    t = t.replace('const ', '').rstrip('& ')
    return t.endswith('error_code') or 'exception_ptr' in t


def tuple_types(t):
    i = t.find('std::tuple<')
    if i < 0:
        return []
    d, j = 0, i + 10
    while j < len(t):
        d += (t[j] == '<') - (t[j] == '>' and t[j - 1] != '-')
        j += 1
        if d == 0:
            break
    return [x.strip() for x in en.template_args(t[i:j]) if x.strip()]


def arg_fails(p, loc):
    """whether the completion argument at loc was found to be an error"""
    for k, t in p.state.facts.items():
        if k == I(loc):
            return t
        if k[0] == 'o' and mentions(k, I(loc)) and any(isinstance(x, str) and ('operator bool' in x or x.endswith('failed')) for x in k):
            return t
    return None


def as_outcome(p):
    """('value'|'error', location of the payload) of a path yielding a result, throwing or returning"""
    if p.outcome == 'throw':
        return 'error', None, p.value
    v = p.value
    if v is not None and v[0] == 'L':
        t = load(p, v[1] + ('?',))
        if t in (TRUE, FALSE):
            return ('value', v[1] + ('*',), load(p, v[1] + ('*',))) if t == TRUE else ('error', v[1] + ('!',), load(p, v[1] + ('!',)))
    return 'value', v[1] if v is not None and v[0] == 'L' else None, load(p, v[1]) if v is not None and v[0] == 'L' else v


def check_interpreted(cx, fn, p, types, base, ret_tuple, what):
    """the outcome of p is what the completion arguments (types, at base) stand for"""
    at = lambda k: base + (('get', k),)
    err = bool(types) and is_error_type(cx, types[0])
    kind, loc, v = as_outcome(p)
    t = arg_fails(p, at(0)) if err else False
    cx.ob(t is not None, fn, 'whether the operation failed must be looked at ' + what, p)
    if t:
        cx.ob(kind == 'error' and v is not None and mentions(v, I(at(0))), fn, 'a failed operation must report its error ' + what, p)
        return
    cx.ob(kind == 'value', fn, 'a successful operation must not report an error ' + what, p)
    rest = list(range(1 if err else 0, len(types)))
    if kind != 'value' or not rest:
        return
    if len(rest) == 1:
        cx.ob(v is not None and (v == I(at(rest[0])) or mentions(v, I(at(rest[0])))) or loc == at(rest[0]), fn, 'the value of the operation must be passed on ' + what, p)
        return
    ok = loc is not None
    for i, k in enumerate(rest):
        x = load(p, loc + (('get', i),)) if loc else None
        ok = ok and (x == I(at(k)) or loc == base and not err)
    cx.ob(ok, fn, 'the values of the operation must be passed on in order ' + what, p)


@rule('P16', 'P23')
def completion_arguments_become_the_result(cx):
    """The arguments of a completion are an error when the first one is a set error code or exception, otherwise the rest are the value, in order."""
    for fn in cx.fns('interpret_as_result'):
        types = tuple_types(fn['params'][0].get('tc') or fn['params'][0]['t'])
        for p in cx.paths(fn, args=[('L', root('args'))]):
            cx.ob(p.outcome == 'return', fn, 'interpreting a completion must not fail', p)
            check_interpreted(cx, fn, p, types, root('args'), True, '')


@rule('P16', 'P23')
def awaiting_an_operation_yields_its_outcome(cx):
    """Every form of awaiting an operation reports an exception of the initiation, otherwise what it completed with: all the arguments as a
    tuple, a result, or the value or the error as an exception."""
    for fn in cx.fns('op::awaitable_base::await_resume'):
        form = 'result' if any('as_result_tag' in q['t'] for q in fn['params']) else 'tuple' if any('as_tuple_tag' in q['t'] for q in fn['params']) else 'plain'
        fr = [f for f in cx.db.recs[fn['cls']]['fields'] if f['n'] == 'result'][0]
        types = tuple_types(fr.get('tc') or fr['t'])
        base = T_ + ('result', '*')
        for p in cx.paths(fn, this=T_, seed={T_ + ('result', '?'): TRUE}):
            t = fact(p, I(T_ + ('init_ep',)))
            cx.ob(t is not None, fn, 'an exception of the initiation must be looked for', p)
            if t:
                cx.ob(p.outcome == 'throw' and mentions(p.value, I(T_ + ('init_ep',))), fn, 'an exception of the initiation must be thrown to the awaiter', p)
                continue
            if form == 'tuple':
                v = p.value
                cx.ob(p.outcome == 'return' and v is not None and v[0] == 'L', fn, 'awaiting as a tuple must not throw the error of the operation', p)
                if v is not None and v[0] == 'L':
                    cx.ob(all(load(p, v[1] + (('get', k),)) == I(base + (('get', k),)) or v[1] == base for k in range(len(types))), fn, 'all the completion arguments must be in the tuple, in order', p)
            else:
                if form == 'result':
                    cx.ob(p.outcome == 'return', fn, 'awaiting as a result must not throw the error of the operation', p)
                elif as_outcome(p)[0] == 'error':
                    cx.ob(p.outcome == 'throw', fn, 'awaiting an operation that failed must throw', p)
                check_interpreted(cx, fn, p, types, base, False, '')


@rule('P16')
def adapted_initiations_run_once_with_everything(cx):
    """An operation made from an initiation (use_op, deferred) starts it exactly once, with the given handler and all the arguments in order."""
    for fn in cx.fns('boost::asio::async_result::op_impl::initiate'):
        n = len(en.template_args(next(f.get('tc') or f['t'] for f in cx.db.recs[fn['cls']]['fields'] if f['n'] == 'args')))
        for p in cx.paths(fn, this=T_, args=[('L', root('complete'))]):
            es = [e for e in p.events if e.kind in ('call', 'enter') and e.obj == ('L', T_ + ('initiation',))]
            cx.ob(p.outcome != 'return' or len(es) == 1, fn, 'the initiation must run exactly once', p)
            for e in es[:1]:
                cx.ob(len(e.args) >= n + 1 and comes_from(p, e.args[0], root('complete')), fn, 'the initiation must be given the handler', p)
                cx.ob(all(comes_from(p, a, T_ + ('args', ('get', k))) for k, a in enumerate(e.args[1:n + 1])), fn, 'the initiation must be given its arguments in order', p)
    for fn in cx.fns('enable_await_deferred::await_transform::deferred_op::initiate'):
        for p in cx.paths(fn, this=T_, args=[('L', root('complete'))]):
            es = [e for e in p.events if e.kind in ('call', 'enter') and e.obj == ('L', T_ + ('op_',))]
            cx.ob(len(es) == 1 and comes_from(p, es[0].args[0], root('complete')), fn, 'the deferred operation must be started exactly once with the handler', p)
    for fn in cx.fns('enable_await_deferred::await_transform'):
        for p in cx.paths(fn, this=T_, args=[('L', root('op_'))]):
            cx.ob(p.value is not None and p.value[0] == 'L' and load(p, p.value[1] + ('op_',)) == I(root('op_')), fn, 'the operation that is awaited must be the given one', p)
    for fn in cx.fns('boost::asio::async_result::initiate'):
        for p in cx.paths(fn, args=with_args(fn)):
            v = p.value
            if v is None or v[0] != 'L':
                cx.ob(False, fn, 'the operation must be returned', p)
                continue
            cx.ob(load(p, v[1] + ('initiation',)) == I(root('a0')) or comes_from(p, ('L', v[1] + ('initiation',)), root('a0')), fn, 'the operation must keep its initiation', p)
            n = len(fn['params']) - 2
            cx.ob(all(load(p, v[1] + ('args', ('get', k))) == I(root('a%d' % (k + 2))) or comes_from(p, ('L', v[1] + ('args', ('get', k))), root('a%d' % (k + 2))) for k in range(n)), fn,
                  'the operation must keep its arguments in order', p)


def comes_from(p, a, src):
    """location a is src or was made from it"""
    if a is None or a[0] != 'L':
        return a is not None and (a == I(src) or mentions(a, I(src)))
    if a[1] == src or load(p, a[1]) == I(src):
        return True
    under = [v for k, v in p.state.store.items() if k[:len(a[1])] == a[1]] + [e.val for e in p.events if e.kind == 'store' and e.obj and e.obj[0] == 'L' and e.obj[1][:len(a[1])] == a[1]] + [e.argv[0] for e in p.events if e.kind in ('ctor', 'move', 'copy') and e.obj == a and e.argv]
    return any(path_under(v, src) for v in under)


def path_under(v, src):
    """v contains the initial value of something under src"""
    if not isinstance(v, tuple):
        return False
    if len(v) == 2 and v[0] == 'i' and isinstance(v[1], tuple) and v[1][:len(src)] == src:
        return True
    return any(path_under(x, src) for x in v)


@rule('P16', 'P21')
def an_operation_uses_the_memory_of_its_awaitable(cx):
    """The awaitable of an operation, wherever it was moved to, points at its own buffer or at the resource it was given, and at its operation."""
    for fn in cx.fns('op::awaitable::awaitable') + cx.fns('op::operator co_await'):
        kind = 'co_await' in fn['n']
        if fn.get('implicit') or not kind and not fn['params']:
            continue
        moved = not kind and 'awaitable &&' in fn['params'][0]['t'].replace('op<', '').replace('>::awaitable', 'awaitable') or not kind and fn['params'][0]['t'].rstrip().endswith('&&')
        for p in cx.paths(fn, this=T_, args=[('L', root('rhs'))]):
            if kind:
                cx.ob(p.value is not None and p.value[0] == 'L', fn, 'an awaitable must be made', p)
                if p.value is None or p.value[0] != 'L':
                    continue
            at = p.value[1] if kind else T_
            rs = [(k, v) for k, v in p.state.store.items() if k[:len(at)] == at and k[-1] == 'resource' and v is not None and v[0] == 'p']
            cx.ob(bool(rs) and all(v[1][:len(at)] == at for k, v in rs), fn, 'an awaitable must allocate from its own buffer', p)
            op = load(p, at + ('op_',))
            if kind:
                cx.ob(op == P(T_) or any(v == P(T_) for k, v in p.state.store.items() if k[:len(at)] == at), fn, 'the awaitable must be one of this operation', p)
    for fn in cx.fns('op::awaitable::replace_resource'):
        for p in cx.paths(fn, this=T_, args=[I(root('res'))]):
            v = p.value
            cx.ob(v is not None and v[0] == 'L' and load(p, v[1] + ('resource',)) == I(root('res')), fn, 'the given resource must be used', p)



# -- composed operations ------------------------------------------------------

CP = 'detail::composition_promise::'


def same_handler(cx, p, at, src):
    """the handler at `at` is the one that was at `src`"""
    f = ch_fields(cx)
    bad = []
    for role in ('self', 'ci', 'slot', 'exec', 'alloc'):
        v = load(p, at + (f[role],))
        if v != I(src + (f[role],)):
            bad.append(role)
    r = load(p, at + (f['result'],))
    if r is not None and not (r == I(src + (f['result'],)) or has_sym(r, f['result']) or r == P((('d', I(src + (f['result'],))),))):
        bad.append('result')
    return not bad


@rule('P30')
def composition_owns_its_handler(cx):
    """A composed operation runs at once with the completion handler it was given last, and keeps it until it is done."""
    for fn in cx.fns(CP + 'composition_promise'):
        if fn.get('implicit') or not fn['params'] or fn['params'][0]['t'].startswith('const boost::cobalt::detail::composition_promise'):
            continue
        n = len(fn['params'])
        for p in cx.paths(fn, this=T_, args=[('L', root('a%d' % i)) for i in range(n)]):
            cx.ob(p.outcome == 'return' and same_handler(cx, p, T_ + ('handler',), root('a%d' % (n - 1))), fn, 'the operation must take over the handler it was given last', p)
    for fn in cx.fns(CP + 'initial_suspend'):
        cx.ob('suspend_never' in fn['ret'], fn, 'a composed operation must run when it is started')
    for fn in cx.fns(CP + 'final_suspend'):
        for p in cx.paths(fn, this=T_):
            v = p.value
            cx.ob(v is not None and v[0] == 'L' and same_handler(cx, p, v[1] + ('handler',), T_ + ('handler',)), fn, 'the handler must be completed by the final suspension', p)
    for n, role in (('get_executor', 'exec'),):
        for fn in cx.fns(CP + n):
            for p in cx.paths(fn, this=T_):
                v = value_of_path(p)
                cx.ob(v == I(T_ + ('handler', ch_fields(cx)[role])), fn, 'a composed operation must run on the executor of its handler', p)


@rule('P30')
def composition_delivers_its_result(cx):
    """What a composed operation returns is delivered to the awaiter; what it throws leaves it."""
    for fn in cx.fns(CP + 'return_value'):
        for p in cx.paths(fn, this=T_, args=[('L', root('args'))]):
            es = [e for e in p.events if e.kind == 'engage' and has_sym(e.obj, 'result')]
            cx.ob(len(es) == 1 and es[0].obj == ('L', (('d', I(T_ + ('handler', ch_fields(cx)['result']))),)), fn, 'the result must be delivered exactly once, to the awaiter', p)
            for e in es:
                at = e.obj[1] + ('*',)
                cx.ob(list(e.argv or []) == [I(root('args'))] or load(p, at) == I(root('args')), fn, 'the result must be what the composed operation returned', p)
    for fn in cx.fns(CP + 'unhandled_exception'):
        for p in cx.paths(fn, this=T_):
            cx.ob(p.outcome == 'throw', fn, 'an exception must leave the composed operation', p)


@rule('P30', 'P17')
def composition_resumes_its_awaiter_once(cx):
    """When a composed operation is done its coroutine is destroyed and the awaiter is resumed exactly once; if it was done while still being
    started, the awaiter is not resumed but told so. Nothing of the destroyed coroutine is used afterwards."""
    f = ch_fields(cx)
    D = I(root('me'))
    for fn in cx.fns(CP + 'final_awaitable::await_ready'):
        for p in cx.paths(fn, this=T_):
            cx.ob(fact(p, value_of_path(p)) is False, fn, 'the final suspension must complete the operation', p)
    for fn in cx.fns(CP + 'final_awaitable::await_suspend'):
        hf = T_ + ('handler',)
        for st in (None, NO, MAYBE, INIT):
            seed = {hf + (f['ci'],): NULL if st is None else P(STATE), hf + (f['self'],): H, root('me'): D}
            if st is not None:
                seed[STATE] = st

            def frees(eng, s, h):
                if h == D:
                    fr = en.Frame({'file': '', 'line': 0, 'n': '', 'q': '', 'params': [], 'id': 0}, (), None, None, None)
                    for r in eng.destroy_members(T_, fn['cls'], fr, [s], {}):
                        s.store, s.facts, s.trace = r.store, r.facts, r.trace
                        break
                    eng.put(s, T_, ('o', 'freed', D))
            for p in cx.paths(fn, this=T_, args=[('L', root('me'))], seed=seed, facts={H: True, D: True}, frees=frees):
                mine = killed(p, D)
                cx.ob(len(mine) == 1, fn, 'the finished coroutine must be destroyed exactly once', p)
                cx.ob(not killed(p, H), fn, 'the awaiter must not be destroyed', p)
                rs = [e for e in p.events if e.kind == 'resume']
                v = value_of_path(p)
                inside = st in (MAYBE, INIT)
                n = sum(e.val == H for e in rs) + (v == H)
                cx.ob(n == (0 if inside else 1), fn, 'the awaiter must not be resumed from inside of its own suspension' if inside else 'the awaiter must be resumed exactly once', p)
                if inside:
                    cx.ob(enum_ok(load(p, STATE), YES), fn, 'the completion must be noted while the operation is being started', p)
                if mine:
                    late = p.events[idx(p, mine[0]) + 1:]
                    cx.ob(not used_after(p, late), fn, 'nothing of a destroyed coroutine may be used', p)


def used_after(p, late):
    for e in late:
        if e.kind in ('dtor', 'branch', 'leave') and not freed(e.val):
            continue
        if e.kind == 'store' and e.obj and e.obj[0] == 'L' and e.obj[1][:1] == T_:
            return True
        if freed(e.val) or any(freed(a) for a in e.argv or []) or freed(e.obj):
            return True
    return any(freed(k) for k in p.state.facts) or freed(p.value)


def stateless(cx, fn):
    """the operation given to fn has nothing that tells it from another of its type"""
    r = cx.db.recs.get(fn['params'][0].get('tc') or '')
    return r is not None and not r.get('fields')


@rule('P30', 'P16')
def composition_awaits_with_its_memory(cx):
    """Operations awaited in a composed operation are the given ones, use the memory of its handler, are started once and reported as tuples."""
    for fn in cx.fns(CP + 'await_transform'):
        if not fn.get('params') or 'this_coro' in fn['params'][0]['t'] or 'executor_tag' in fn['params'][0]['t']:
            continue
        for p in cx.paths(fn, this=T_, args=[('L', root('op_'))]):
            v = p.value
            cx.ob(v is not None and v[0] == 'L' and 'tuple' in fn['ret'] or v is not None and v[0] == 'L' and any('as_tuple' in e.name for e in p.events), fn, 'an operation awaited by a composed operation must be reported as a tuple', p)
            if v is None or v[0] != 'L':
                continue
            under = {k: x for k, x in p.state.store.items() if k[:len(v[1])] == v[1]}
            cx.ob(any(has_sym(x, 'allocator') and has_sym(x, 'handler') and has_sym(x, 'resource') for x in under.values()) or
                  any(k[-1] == 'resource' and has_sym(x, 'handler') for k, x in under.items()), fn, 'the memory of the handler must be used', p)
            cx.ob(stateless(cx, fn) or any(x == I(root('op_')) or path_under(x, root('op_')) or x == P(root('op_')) for x in under.values()), fn, 'the given operation must be awaited', p)
    for n in ('deferred_op', 'replacing_op'):
        for fn in cx.fns(CP + 'await_transform::%s::operator co_await' % n):
            for p in cx.paths(fn, this=T_):
                v = p.value
                cx.ob(v is not None and v[0] == 'L' and load(p, v[1] + ('resource',)) == I(T_ + ('resource',)), fn, 'the awaitable must use the memory of the handler', p)
    for fn in cx.fns(CP + 'await_transform::deferred_op::initiate'):
        for p in cx.paths(fn, this=T_, args=[('L', root('complete'))]):
            es = [e for e in p.events if e.kind in ('call', 'enter') and e.obj == ('L', T_ + ('op_',))]
            cx.ob(len(es) == 1 and comes_from(p, es[0].args[0], root('complete')), fn, 'the deferred operation must be started exactly once with the handler', p)
