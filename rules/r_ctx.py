"""Stackful contexts (P33)."""
from lib import *
from engine import Engine, Frame, Path

EX = 'boost::cobalt::experimental::'
FRAME = EX + 'detail::context_frame'
RESUME = 'boost::context::fiber::resume'
AT = ('d', ('s', 'frame'))


def drv(cx, name):
    return cx.fn('drv_ctx::' + name)


def calls(p, name, after=-1):
    return [i for i, e in enumerate(p.events) if i > after and e.kind == 'call' and (e.name == name if '::' in name else short(e.name) == name)]


def frame_of(p, i):
    """the frame whose fiber is resumed by event i"""
    o = p.events[i].obj
    return o[1][:-1] if o is not None and o[0] == 'L' else None


def touched(p, frame, after):
    """the first use of the frame after an event"""
    n = len(frame)
    for e in p.events[after + 1:]:
        if e.kind in ('store', 'dtor', 'call', 'ctor', 'move', 'engage') and e.obj is not None and e.obj[0] == 'L' and e.obj[1][:n] == frame:
            return e
    return None


def alive(p, v):
    """whether the fiber v is known to be there"""
    for k, t in p.state.facts.items():
        if k[0] == 'o' and mentions(k, v):
            n = str(k[1]) + ' ' + str(k[2])
            if 'operator!' in n:
                return not t
            if 'operator bool' in n or 'conv' in n:
                return t
    return None


def instances(cx, meth):
    return [f for f in cx.fns(FRAME + '::' + meth) if 'drv_ctx' in f['q']]


@rule('P33')
def finished_context_is_not_touched(cx):
    """A context whose fiber finished has taken its frame with it: resuming it touches the frame afterwards only when the fiber came back,
    keeps that fiber then and runs what the body left to do exactly once."""
    for fn in instances(cx, 'resume'):
        this = (root('this')[0],)
        for p in cx.paths(fn, this=root('this')):
            rs = calls(p, RESUME)
            cx.ob(len(rs) == 1, fn, 'resuming a context must switch to its fiber exactly once', p)
            if len(rs) != 1:
                continue
            i = rs[0]
            came = p.events[i].val
            back = alive(p, came) if came is not None else None
            e = touched(p, root('this'), i)
            if back is not True:
                read = [k for k in p.state.facts if mentions(k, I(root('this') + ('after_resume',)))] if e is None else []
                cx.ob(e is None and not read, fn, 'the frame must not be used once its fiber has finished', p, line=e.line if e else None)
                continue
            f = p.events[i].obj[1]
            cx.ob(load(p, f) == came, fn, 'the fiber must be kept while the context is suspended', p)
            ind = calls(p, '<indirect>', i)
            cx.ob(len(ind) <= 1, fn, 'what the context awaits must be started once', p)
            for j in ind:
                what = p.events[j].obj
                cx.ob(fact(p, what) is True, fn, 'a context that awaits nothing must not start an operation', p)
                place_ = what[1] if what is not None and what[0] == 'i' else None
                cleared = any(e.kind == 'store' and e.obj == ('L', place_) and cv(e.val) == 0 for e in p.events[:j])
                cx.ob(cleared, fn, 'what was awaited must be forgotten before it is started', p, line=p.events[j].line)
                cx.ob(p.events[j].argv[:1] and mentions(p.events[j].argv[0], ('p', root('this'))) or p.events[j].argv[:1] == (('p', root('this')),), fn,
                      'the operation must be started for this context', p, line=p.events[j].line)
                t = touched(p, root('this'), j)
                cx.ob(t is None, fn, 'the frame must not be used after the operation was started, which may end the context', p, line=t.line if t else None)


def switch_of(cx, fn):
    """the paths of an await, and the states in which they leave for the resumer"""
    left = []

    def hook(eng, s, kind, name):
        if kind == 'call' and name == RESUME:
            left.append(s.copy())
        return False
    ps = cx.paths(fn, args=[('L', root(x['n'])) for x in fn['params']], on_foreign=hook)
    return ps, left


AWAITS = (('await_void', 'void'), ('await_bool', 'bool'), ('await_hnd', 'handle'), ('yield_', 'void'))


@rule('P33')
def await_switches_once_and_yields_the_result(cx):
    """Awaiting in a context asks the awaitable once whether it is ready, leaves for the resumer exactly once when it is not and never
    when it is, keeps the way back, and yields what the awaitable yields."""
    for name, kind in AWAITS:
        fn = drv(cx, name)
        ps, left = switch_of(cx, fn)
        src = 'yield_value' if name == 'yield_' else 'await_transform'
        for p in ps:
            made = calls(p, src)
            cx.ob(len(made) == 1, fn, 'the promise must transform the awaitable exactly once', p)
            rd = calls(p, 'await_ready')
            cx.ob(len(rd) == 1, fn, 'the awaitable must be asked exactly once whether it is ready', p)
            rs = calls(p, RESUME)
            got = calls(p, 'await_resume')
            if len(rd) != 1 or len(made) != 1:
                continue
            ready = fact(p, p.events[rd[0]].val)
            cx.ob(ready is not None and len(rs) == (0 if ready else 1), fn, 'a context must leave exactly once for what is not ready, and never for what is', p)
            cx.ob(len(got) == 1 and got[0] > max(rs + rd), fn, 'the result must be taken exactly once, after the context came back', p)
            cx.ob(not calls(p, 'await_suspend'), fn, 'the operation must not be started while the context still runs', p)
            if len(got) == 1:
                cx.ob(p.value is not None and p.value == p.events[got[0]].val, fn, 'what was awaited must yield its result', p)
                cx.ob(p.events[got[0]].obj == p.events[rd[0]].obj, fn, 'the result must be that of the awaitable which was awaited', p)
            for i in rs:
                f = p.events[i].obj[1]
                cx.ob(load(p, f) == p.events[i].val, fn, 'the context must keep the way back to its new resumer', p, line=p.events[i].line)
        cx.ob(bool(left), fn, 'an awaitable that is not ready must suspend the context')


@rule('P33')
def suspended_context_starts_the_operation_once(cx):
    """Once the context has left, its resumer starts the operation exactly once with a handle to this context, and goes on according to
    what that answers: nothing, the context itself when the operation refused to suspend, or the given coroutine."""
    res = instances(cx, 'resume')
    for name, kind in AWAITS:
        fn = drv(cx, name)
        ps, left = switch_of(cx, fn)
        for s in left:
            i = max(k for k, e in enumerate(trail(s)) if e.kind == 'call' and e.name == RESUME) if any(
                e.kind == 'call' and e.name == RESUME for e in trail(s)) else None
            e = s.trace[1] if i is None else trail(s)[i]
            frame = e.obj[1][:-1]
            prm = next((x.obj for x in trail(s) if x.kind == 'call' and short(x.name) in ('await_transform', 'yield_value')), None)
            base = prm[1][:-1] if prm is not None and prm[0] == 'L' else None
            cx.ob(frame == base, fn, 'the fiber left must be that of the context whose promise was asked', line=e.line)
            aw = next((x.obj for x in trail(s) if x.kind == 'call' and short(x.name) == 'await_ready'), None)
            for r in [f for f in res if 'prom<int>' in f['q']]:
                st = s.copy()
                st.trace = None
                for p in cx.paths(r, this=frame, state=st):
                    sw = calls(p, RESUME)
                    if len(sw) != 1 or alive(p, p.events[sw[0]].val) is False:
                        continue
                    sus = calls(p, 'await_suspend')
                    cx.ob(len(sus) == 1, fn, 'the awaited operation must be started exactly once', p)
                    if len(sus) != 1:
                        continue
                    a = p.events[sus[0]]
                    cx.ob(a.obj == aw, fn, 'what is started must be the awaitable the context awaits', p, line=a.line)
                    h = a.argv[0] if a.argv else None
                    cx.ob(h is not None and is_handle(h, frame), fn, 'the operation must be given this context to resume', p, line=a.line)
                    after = resumed(p, sus[0])
                    if kind == 'void':
                        want = []
                    elif kind == 'bool':
                        want = [] if fact(p, a.val) is True else [('frame',)]
                        if fact(p, a.val) is None:
                            cx.ob(False, fn, 'whether the operation suspends must decide whether the context goes on', p, line=a.line)
                            continue
                    else:
                        want = [('value', a.val)]
                    ok = len(after) == len(want)
                    for x, w in zip(after, want):
                        ok = ok and (is_handle(x, frame) if w[0] == 'frame' else mentions(x, w[1]) or x == w[1])
                    cx.ob(ok, fn, 'the resumer must go on with what the operation answered', p, line=a.line)
                    t = touched(p, frame, sus[0])
                    cx.ob(t is None, fn, 'the frame must not be used after the operation was started, which may end the context', p, line=t.line if t else None)


def trail(s):
    out = []
    t = s.trace
    while t is not None:
        out.append(t[1])
        t = t[0]
    return out[::-1]


def is_handle(v, frame):
    return v == ('p', frame) or mentions(v, ('p', frame)) or len(frame) == 1 and isinstance(frame[0], tuple) and frame[0][0] == 'd' and mentions(v, frame[0][1])


def resumed(p, after):
    """what coroutines are resumed after an event"""
    return [e.val if e.val is not None else (e.argv or (None,))[0] for e in p.events[after + 1:] if e.kind == 'resume']


def bodies(cx):
    """[(the function the fiber runs, which promise)]"""
    out = []
    for f in cx.db.fns.values():
        if f['n'].startswith(EX + 'make_context::') and f['n'].endswith('::operator()') and 'body' in f and 'drv_ctx' in f['q'] \
                and f['params'] and 'boost::context::fiber' in f['params'][0]['t']:
            out.append(f)
    if len(out) < 3:
        raise Anchor('the functions run by the fibers were not found')
    return out


def prom_calls(p, after=-1):
    return [(i, e) for i, e in enumerate(p.events) if i > after and e.kind == 'call' and e.name.startswith('drv_ctx::')
            and short(e.name) in ('return_value', 'return_void', 'unhandled_exception', 'initial_suspend', 'final_suspend')]


def body_paths(cx, fn, thr):
    return cx.paths(fn, this=root('this'), args=[('L', root('f'))], may_throw=thr)


@rule('P33')
def body_runs_once_and_its_outcome_reaches_the_promise(cx):
    """The fiber of a context starts as its promise wants, runs the body exactly once with the context of its frame, hands what it returned
    or threw to the promise exactly once, then suspends finally, and goes back to whoever resumed it last."""
    for fn in bodies(cx):
        lazy = 'lazy' in fn['q'].split('make_context')[1][:120]
        void = 'ret<void>' in fn['q']
        ps = body_paths(cx, fn, lambda n, f, fr: n == '<indirect>' or short(n) in ('return_value', 'return_void'))
        cx.ob(any(p.outcome == 'throw' and any(e.kind == 'raise' and e.name == '<indirect>' for e in p.events)
                  and 'unhandled_exception' not in [short(e.name) for i, e in prom_calls(p)] for p in ps),
              fn, 'the unwinding of a destroyed context must go on')
        for p in ps:
            run = calls(p, '<indirect>')
            raised = [i for i, e in enumerate(p.events) if e.kind == 'raise']
            caught = [e for e in p.events if e.kind == 'catch']
            unwound = any('forced_unwind' in e.name for e in caught)
            pc = [(i, short(e.name)) for i, e in prom_calls(p)]
            cx.ob(len(run) == 1, fn, 'the body must run exactly once', p)
            if len(run) != 1:
                continue
            first = [n for i, n in pc if i < run[0]]
            cx.ob(lazy or first == ['initial_suspend'], fn, 'the context must start as its promise wants', p)
            back = [i for i, e in enumerate(p.events) if e.kind == 'store' and load_at(e) and i < (calls(p, RESUME) + [len(p.events)])[0] and mentions_root(e.val, 'f')]
            cx.ob(bool(back) and back[0] < min([i for i, n in pc] + [run[0]]), fn, 'the way back must be kept before anything else', p)
            done = [n for i, n in pc if i > run[0]]
            ret = 'return_void' if void else 'return_value'
            if unwound:
                cx.ob(p.outcome == 'throw', fn, 'the unwinding of a destroyed context must go on', p)
                cx.ob('unhandled_exception' not in done and 'final_suspend' not in done, fn, 'the unwinding of a destroyed context is no outcome', p)
                continue
            if not raised:
                want = [ret, 'final_suspend']
            elif p.events[raised[0]].name == '<indirect>':
                want = ['unhandled_exception', 'final_suspend']
            else:
                want = [ret, 'unhandled_exception', 'final_suspend']
            cx.ob(done == want, fn, 'the outcome of the body must reach the promise exactly once, and the context then end', p)
            cx.ob(p.outcome != 'throw', fn, 'what the body throws must not leave the fiber', p)
            if not raised and not void:
                rv = next((e for i, e in prom_calls(p) if short(e.name) == 'return_value'), None)
                v = p.events[run[0]].val
                cx.ob(rv is not None and rv.argv and rv.argv[0] == v, fn, 'the promise must be given what the body returned', p)
            if p.outcome != 'throw':
                fin = [i for i, n in pc if n == 'final_suspend']
                rd = calls(p, 'await_ready', fin[-1]) if fin else []
                cx.ob(len(rd) == 1, fn, 'the final suspension must be awaited', p)
                v = p.value
                v = load(p, v[1]) if v is not None and v[0] == 'L' else v
                sw = calls(p, RESUME)
                want_v = p.events[sw[-1]].val if sw else None
                cx.ob(v is not None and (v == want_v if want_v is not None else mentions_root(v, 'f')), fn,
                      'the fiber must end into whoever resumed it last', p)


def load_at(e):
    return e.obj is not None and e.obj[0] == 'L'


def mentions_root(v, name):
    return v is not None and (mentions(v, I(root(name))) or v == I(root(name)))


def promise_ended(p):
    """how often a frame, and with it the promise, is destroyed on a path"""
    n = 0
    for e in p.events:
        if e.kind == 'enter' and e.name.startswith(FRAME + '::~') or e.kind == 'dtor' and e.name.split('<')[0] == FRAME:
            n += 1
        elif e.kind == 'call' and short(e.name) in ('destroy_at', 'destroy', '_Destroy') and e.argv and e.argv[0] is not None and e.argv[0][0] in 'pi':
            n += 1
    return n


def destroyed(cx, fn):
    """the paths on which an object of a class is destroyed with all its members"""
    eng = Engine(cx.db, loop=2)
    fr = Frame(fn, (), root('this'), None, None)
    s = State()
    out = []
    for _, st in eng.destroy(root('this'), dict(id=fn['id'], n=fn['n']), fn.get('cls'), fr, s, {}):
        out.append(Path('return', None, st))
    cx.fn_seen.add(fn['id'])
    cx.paths_seen += len(out)
    return out


@rule('P33')
def promise_dies_once_however_the_context_ends(cx):
    """The promise of a context is destroyed exactly once: when the fiber finished, when the context is destroyed while it is suspended,
    and when it is destroyed before it ever ran; destroying it takes the fiber along."""
    for fn in bodies(cx):
        cls = fn['q'][:-len('::operator()')]
        want = [f for f in cx.db.fns.values() if f['q'].startswith(cls + '::~')]
        own = 0
        alive_ = True
        if want:
            ps = [p for p in destroyed(cx, want[0])]
            own = {promise_ended(p) for p in ps if not emptied(p)}
            cx.ob(len(own) == 1, fn, 'the functor of the fiber must always treat the frame alike')
            own = max(own) if own else 0
        ret = [f for f in instances(cx, 'destroy') if frame_type(fn) in f['q']]
        for d in ret:
            for p in cx.paths(d, this=root('this')):
                n = promise_ended(p)
                cx.ob(n + own == 1, d, 'destroying a context must destroy its promise exactly once', p)
                fib = [i for i, e in enumerate(p.events) if e.kind == 'dtor' and 'boost::context::fiber' in e.name and mentions(e.val, I(root('this'))[0:1]) or
                       e.kind == 'dtor' and 'boost::context::fiber' in e.name and e.val is not None and e.val[0] == 'i' and e.val[1][:1] == root('this')]
                cx.ob(len(fib) == 1, d, 'destroying a context must end its fiber', p)
                if own and len(fib) == 1:
                    t = touched(p, root('this'), fib[0])
                    cx.ob(t is None, d, 'the frame must not be used once its fiber has ended', p, line=t.line if t else None)
        for p in body_paths(cx, fn, lambda n, f, fr: n == '<indirect>'):
            n = promise_ended(p)
            if p.outcome == 'throw':
                k = max([promise_ended(q) for d in ret for q in cx.paths(d, this=root('this'))] or [0])
                cx.ob(n + own + k == 1, fn, 'the unwinding of a destroyed context must destroy its promise exactly once', p)
            else:
                cx.ob(n + own == 1, fn, 'a context that finished must destroy its promise exactly once', p)


def emptied(p):
    return any(t is False for k, t in p.state.facts.items() if mentions(k, I(root('this') + ('frame',))) or k[0] == 'i')


def frame_type(fn):
    for t in ('lazy', 'ret<int>', 'ret<void>'):
        if t in fn['q']:
            return {'lazy': 'lazy_prom', 'ret<int>': 'prom<int>', 'ret<void>': 'prom<void>'}[t]
    return '?'


def linear(v, sign=1, out=None):
    """a sum as {term: factor}"""
    out = {} if out is None else out
    while v is not None and v[0] == 'o' and v[1] in ('cast', 'conv'):
        v = v[-1]
    if v is not None and v[0] == 'c':
        out[1] = out.get(1, 0) + sign * v[1]
    elif v is not None and v[0] == 'o' and v[1] in ('+', '-') and len(v) == 4:
        linear(v[2], sign, out)
        linear(v[3], sign if v[1] == '+' else -sign, out)
    else:
        if v is not None and v[0] == 'p' and len(v[1]) == 1 and isinstance(v[1][0], tuple) and v[1][0][0] == 'd':
            return linear(v[1][0][1], sign, out)
        out[v] = out.get(v, 0) + sign
    return out


def same(a, b):
    d = linear(a)
    linear(b, -1, d)
    return not any(d.values())


@rule('P33')
def context_is_built_on_its_own_stack(cx):
    """Making a context puts the frame at the top of the stack it allocated, leaves the fiber the rest of that stack and the whole of it to
    release, returns the object of the promise, and starts the context unless its promise is always lazy."""
    for name, lazy in (('make_int', False), ('make_void', False), ('make_lazy', True)):
        fn = drv(cx, name)
        for p in cx.paths(fn):
            ev = p.events
            al = [e for e in ev if e.kind == 'call' and short(e.name) == 'allocate']
            new = [i for i, e in enumerate(ev) if e.kind == 'new']
            pre = [e for e in ev if e.kind == 'ctor' and e.name.endswith('context::preallocated')]
            fib = [i for i, e in enumerate(ev) if e.kind == 'ctor' and e.name.endswith('context::fiber') and len(e.argv or ()) > 1]
            obj = calls(p, 'get_return_object')
            cx.ob(len(al) == 1 and len(new) == 1 and len(pre) == 1 and len(fib) == 1 and len(obj) == 1, fn,
                  'a context needs one stack, one frame, one fiber and one object to return', p)
            if not (len(al) == 1 and len(new) == 1 and len(pre) == 1 and len(fib) == 1 and len(obj) == 1):
                continue
            frame = ev[new[0]].obj[1]
            at = ('p', frame)
            top, size, sctx = (pre[0].argv + (None,) * 3)[:3]
            st = al[0].val
            sp, whole = ('o', 'fld', st, 'sp'), ('o', 'fld', st, 'size')
            cx.ob(same(at, top), fn, 'the fiber must begin below the frame', p, line=pre[0].line)
            d = linear(sp)
            linear(top, -1, d)
            up = {k: c for k, c in d.items() if c}
            cx.ob(all(c > 0 for c in up.values()) and up.get(1, 0) > 0, fn, 'the frame must lie within the stack', p, line=pre[0].line)
            used = linear(whole)
            linear(size, -1, used)
            cx.ob({k: c for k, c in used.items() if c} == up, fn, 'the fiber must be given exactly what the frame leaves of the stack', p, line=pre[0].line)
            cx.ob(sctx == st, fn, 'the fiber must release the stack that was allocated', p, line=pre[0].line)
            cx.ob(any(a is not None and (a == ('o', 'after', st) or mentions_obj(p, ev[fib[0]], al[0].obj)) for a in ev[fib[0]].argv), fn,
                  'the fiber must release the stack with the allocator it came from', p, line=ev[fib[0]].line)
            o = ev[obj[0]]
            cx.ob(o.obj is not None and o.obj[1][:-1] == frame and obj[0] > new[0], fn, 'the object returned must be that of the promise of the frame', p, line=o.line)
            cx.ob(any(e.kind == 'store' and e.obj == ('L', (('v',) + e.obj[1][0][1:] if False else e.obj[1][0],) + e.obj[1][1:]) and e.val == o.val for e in ev[obj[0]:]), fn,
                  'the object of the promise must be returned', p, line=o.line)
            rs = calls(p, RESUME)
            mine = [i for i in rs if frame_of(p, i) == frame]
            cx.ob(len(mine) == len(rs) == (0 if lazy else 1), fn, 'a context must be started at once unless it is lazy, and once', p)
            for i in mine:
                cx.ob(i > fib[0] and i > obj[0], fn, 'a context must be complete before it is started', p, line=ev[i].line)
                kept = [k for k in range(fib[0], i) if ev[k].kind == 'store' and ev[k].obj == ev[i].obj]
                cx.ob(bool(kept), fn, 'the context must be started on its own fiber', p, line=ev[i].line)


def mentions_obj(p, e, obj):
    return obj is not None and any(a == obj for a in e.args or ())


@rule('P33')
def stack_from_the_promise_is_returned_to_it(cx):
    """A stack taken from the allocator of a promise is given back to it whole: the same address and the same size."""
    n = 0
    for f in cx.fns(EX + 'detail::stack_allocator::allocate', need=0):
        d = [g for g in cx.fns(EX + 'detail::stack_allocator::deallocate', need=0) if g.get('cls') == f.get('cls')]
        for g in d:
            for p in cx.paths(f, this=root('this')):
                got = [e for e in p.events if e.kind in ('call', 'alloc') and 'operator new' in e.name]
                cx.ob(len(got) == 1, f, 'a stack must be taken from the promise exactly once', p)
                if len(got) != 1:
                    continue
                v = p.value
                at = v[1] if v is not None and v[0] == 'L' else None
                sp = load(p, at + ('sp',)) if at else ('o', 'fld', v, 'sp')
                sz = load(p, at + ('size',)) if at else ('o', 'fld', v, 'size')
                cx.ob(same(sz, got[0].argv[0]), f, 'the stack must have the size that was taken', p, line=got[0].line)
                cx.ob(same(sp, ('o', '+', got[0].val, sz)), f, 'the stack must start at its upper end', p, line=got[0].line)
                for q in cx.paths(g, this=root('this'), args=[('L', root('sctx'))]):
                    back = [e for e in q.events if e.kind in ('call', 'free') and 'operator delete' in e.name]
                    cx.ob(len(back) == 1, g, 'a stack must be given back to the promise exactly once', q)
                    if len(back) != 1:
                        continue
                    n += 1
                    cx.ob(same(back[0].argv[0], ('o', '-', I(root('sctx') + ('sp',)), I(root('sctx') + ('size',)))), g, 'the address given back must be the one taken', q)
                    cx.ob(len(back[0].argv) < 2 or same(back[0].argv[1], I(root('sctx') + ('size',))), g, 'the size given back must be the one taken', q)
    if not n:
        raise Anchor('no stack allocator of a promise was found')


@rule('P33')
def asio_coroutine_awaits_like_a_coroutine(cx):
    """Awaiting in a stackful coroutine of asio suspends it exactly once for what is not ready and never for what is, starts the operation
    once it is suspended with a handle that resumes it, goes on according to the answer and yields the result."""
    for name, kind in (('yield_void', 'void'), ('yield_bool', 'bool'), ('yield_hnd', 'handle')):
        fn = drv(cx, name)
        left = []

        def hook(eng, s, k, n):
            if k == 'call' and short(n) == 'suspend_with':
                left.append(s.copy())
            return False
        for p in cx.paths(fn, args=[('L', root(x['n'])) for x in fn['params']], on_foreign=hook):
            rd, got, sw = calls(p, 'await_ready'), calls(p, 'await_resume'), calls(p, 'suspend_with')
            cx.ob(len(rd) == 1, fn, 'the awaitable must be asked exactly once whether it is ready', p)
            if len(rd) != 1:
                continue
            ready = fact(p, p.events[rd[0]].val)
            cx.ob(ready is not None and len(sw) == (0 if ready else 1), fn, 'the coroutine must be suspended exactly once for what is not ready, and never for what is', p)
            cx.ob(len(got) == 1 and got[0] > max(rd + sw), fn, 'the result must be taken exactly once, after the coroutine was resumed', p)
            cx.ob(not calls(p, 'await_suspend'), fn, 'the operation must not be started while the coroutine still runs', p)
            if len(got) == 1:
                cx.ob(p.value == p.events[got[0]].val, fn, 'what was awaited must yield its result', p)
            for i in sw:
                o = p.events[i].obj
                cx.ob(o is not None and mentions(o, I(root('y') + ('spawned_thread_',))) or 'spawned_thread_' in str(o) and "'y'" in str(o), fn,
                      'the coroutine suspended must be the one that awaits', p, line=p.events[i].line)
        cx.ob(bool(left), fn, 'an awaitable that is not ready must suspend the coroutine')
        for s in left:
            e = s.trace[1]
            clo = e.args[0]
            thread = e.obj
            ps = cx.closure(clo, s)
            if ps is None:
                raise Anchor('what runs once the coroutine is suspended was not found')
            for p in ps:
                sus = calls(p, 'await_suspend')
                cx.ob(len(sus) == 1, fn, 'the awaited operation must be started exactly once', p)
                if len(sus) != 1:
                    continue
                a = p.events[sus[0]]
                h = a.argv[0] if a.argv else None
                cx.ob(h is not None and has_sym_path(h, 'fr', s), fn, 'the operation must be given a handle to the coroutine', p, line=a.line)
                own = [e2 for e2 in p.events[sus[0] + 1:] if e2.kind == 'call' and short(e2.name) == 'resume' and e2.obj == thread]
                other = resumed(p, sus[0])
                if kind == 'void':
                    ok = not own and not other
                elif kind == 'bool':
                    t = fact(p, a.val)
                    ok = t is not None and not other and len(own) == (0 if t else 1)
                else:
                    ok = not own and len(other) == 1 and (other[0] == a.val or mentions(other[0], a.val))
                cx.ob(ok, fn, 'the coroutine must go on with what the operation answered', p, line=a.line)


def has_sym_path(h, name, s):
    """whether a handle stands for a frame made on the way"""
    return h[0] == 'p' or 'coroutine_handle' in str(h) or h[0] in 'io'


@rule('P33')
def handle_reaches_the_frame(cx):
    """Resuming or destroying a handle to a stackful coroutine reaches the frame it stands for: directly and through the coroutine frame."""
    for cls in ('std::coroutine_handle',):
        hs = [f for f in cx.db.fns.values() if f['n'] in (cls + '::resume', cls + '::destroy') and 'yield_context' in f['q'] and 'body' in f and 'yield_context_frame' not in f['n']]
        for f in hs:
            for p in cx.paths(f, this=root('this')):
                want = '::' + short(f['n'])
                fr = [e for e in p.events if e.kind in ('enter', 'call') and e.name.endswith('yield_context_frame' + want)]
                cx.ob(len(fr) == 1, f, 'the handle must %s the frame it stands for' % short(f['n']), p)
    n = 0
    for f in cx.db.fns.values():
        if 'body' not in f or 'yield_context_frame' not in f['n'] or short(f['n']) not in ('resume', 'destroy'):
            continue
        n += 1
        for p in cx.paths(f, this=root('this')):
            life = [e for e in p.events if e.obj is not None and e.obj[0] == 'L' and (e.kind == 'call' and short(e.name) == 'resume' and e.obj[1] == root('this') + ('lifetime',))]
            ended = [e for e in p.events if e.kind == 'dtor' and 'spawn_handler_base' in e.name and (e.val is not None and mentions(e.val, I(root('this') + ('lifetime',))) or e.obj == ('L', root('this') + ('lifetime',)))]
            if short(f['n']) == 'resume':
                cx.ob(len(life) == 1 and not ended, f, 'resuming must resume the coroutine exactly once', p)
            else:
                cx.ob(len(ended) == 1 and not life, f, 'destroying must end the coroutine and not resume it', p)
    if n < 2:
        raise Anchor('the frame of the asio coroutine was not found')
