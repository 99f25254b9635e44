"""Combinators: gather, join, race and the forks they are made of (P11, P12, P13)."""
import re
from lib import *
import db as _db
from r_slot import suspends, is_own_handle, value_of_path, emit_type, CT, SLOT, SLOT_CLEAR, EMIT
from r_chan import evt, feasible
from r_coro import outcome_of, tuple_outcome, is_noop

AW = root('aw')
KIND = {'P11': 'gather', 'P12': 'join', 'P13': 'race', 'P36': 'race'}
FORMS = ('variadic_impl', 'ranged_impl')
SHARED = ('index', 'error', 'cancel', 'working', 'use_count', 'result')      # what other members change while one waits
MAXI = ('c', (1 << 64) - 1)
OPAQUE = ('await_ready', 'await_resume', 'await_suspend')


class Info:
    pass


def info(cx, cls):
    """the fields of the awaitable of a combinator: N members (None for a range), its cancellation signals, the pointers to them"""
    key = ('fork', cls)
    if key in cx._cache:
        return cx._cache[key]
    r = cx.db.recs.get(cls)
    if r is None:
        raise Anchor('no record ' + cls)
    o = Info()
    o.rec, o.n, o.sig, o.ptr = r, None, None, None
    fields, todo = [], [r]
    while todo:
        q = todo.pop()
        fields += q.get('fields') or []
        todo += [cx.db.recs[b] for b in q.get('bases') or [] if b in cx.db.recs]
    for f in fields:
        t = f.get('tc') or f['t']
        if 'cancellation_signal' in t and ('array' in t or 'vector' in t):
            if re.search(r'cancellation_signal ?\*', t):
                o.ptr = f['n']
            else:
                o.sig = f['n']
            m = re.search(r', (\d+)[uUlL]*>$', t)
            if m and 'array' in t:
                o.n = int(m.group(1))
    if o.sig is None:
        raise Anchor('no cancellation signals in ' + cls)
    o.refs = {f['n'] for f in fields if f.get('ref') or f['t'].rstrip().endswith('&')}
    o.names = {f['n']: (f.get('tc') or f['t']) for f in fields}
    o.cls = cls
    o.kind = re.match(r'boost::cobalt::detail::(gather|join|race)_', cls).group(1)
    cx._cache[key] = o
    return o


def member_count(p, o, B=AW):
    """members of this path: known, or the ones the loops of the path found"""
    if o.n is not None:
        return o.n
    if hasattr(p, 'n'):
        return p.n
    n = 0
    for k, t in p.state.facts.items():
        if k[0] != 'o' or len(k) != 4:
            continue
        if k[1] == 'atend' and t is True and k[2][0] == 'p' and k[2][1] in (B + (o.ptr,), B + (o.sig,)) and isinstance(cv(k[3]), int):
            n = max(n, cv(k[3]))
        elif k[1] in ('<', '!=') and t is False and isinstance(cv(k[2]), int) and has_sym(k[3], 'size'):
            n = max(n, cv(k[2]))
    return n


def counts(cx, o):
    """numbers of members a combinator is analysed with"""
    if o.n is not None:
        return [o.n]
    return [0, 1, 2, 3] if cx.tier == 'thorough' else [0, 1, 2]


def sizes(o, n, B=AW):
    """all containers of a range of n members have n elements"""
    if o.n is not None:
        return None
    def f(path):
        c = comps(path)
        return n if len(c) >= 1 and c[0] == B[0] and all(x == 'range' or isinstance(x, str) for x in c[1:]) else None
    return f


def with_n(ps, n):
    for p in ps:
        p.n = n
    return ps


def signal_of(p, o, k, B=AW):
    """(location or pointer of the signal of member k, may be null?) in the final state of path p"""
    if o.ptr is None:
        return B + (o.sig, ('at', k)), False
    return load(p, B + (o.ptr, ('at', k))), True


def on_signal(e, v, ptr):
    if e.obj is None or e.obj[0] != 'L':
        return False
    if not ptr:
        return e.obj[1] == v
    return e.obj[1] == (v[1] if v[0] == 'p' else (('d', v),))


def cancel_everyone(cx, fn, p, h):
    """the cancellation handler of a combinator: the signal of each live member gets the requested type once, nothing else does"""
    cls, B = fn['cls'], AW
    if not any(('detail::' + k + s) in cls for k in ('gather', 'join', 'race') for s in ('_variadic', '_ranged')):
        e = [e for e in p.events if e.kind == 'enter' and short(e.name) == 'await_suspend' and e.obj and e.obj[0] == 'L' and
             any(k in (e.fn.get('cls') or '') for k in ('_variadic_impl', '_ranged_impl'))]
        if not e:
            raise Anchor('no combinator below %s' % fn['q'])
        cls, B = e[0].fn['cls'], e[0].obj[1]
    o = info(cx, cls)
    es = [e for e in h.events if e.name == EMIT]
    for e in es:
        cx.ob(emit_type(e) == CT, fn, 'members must be cancelled with the requested type', h)
    n = member_count(h, o, B)
    if o.n is None:
        cx.ob(bool([e for e in h.events if e.kind == 'loopend']) or bool(es), fn, 'cancelling must go over all members', h)
    hit = 0
    for k in range(n):
        loc, ptr = signal_of(p, o, k, B)
        mine = [e for e in es if on_signal(e, loc, ptr)]
        hit += len(mine)
        if ptr and (cv(loc) == 0 or truth_of(h.state, loc) is False):
            cx.ob(not mine, fn, 'a member that is not running must not be cancelled', h)
        else:
            cx.ob(len(mine) == 1, fn, 'every live member must be cancelled', h)
    cx.ob(hit == len(es), fn, 'cancelling must reach the members only', h)


# -- the fork itself -----------------------------------------------------------

PRM, ST, FA = root('forkpromise'), root('state'), root('fa')
FP = 'detail::fork::promise_type'


def state_seed(cx, ptr=True):
    r = cx.recs(FP)[0]
    f = cx.field(r, 'state', lambda t: 'shared_state' in t)
    return {PRM + (f,): P(ST), PRM + (f, 'px'): P(ST)}, f


@rule('P11', 'P12', 'P13', 'P02')
def last_member_resumes_the_awaiter(cx):
    """A finished member falls off its end while others still use the shared state; the last one gives up its use, frees its frame
    once and resumes the awaiting coroutine (taking it out of the shared state), or nothing when nobody waits yet."""
    seed, f = state_seed(cx)
    for fn in cx.fns(FP + '::final_awaitable::await_ready'):
        fs = field_seed(cx, fn, FA, FP, P(PRM))
        for p in cx.paths(fn, this=FA, seed=seed | fs):
            for n in (1, 2, 3):
                env = lambda v: n if v == I(ST + ('use_count',)) else None
                if not feasible(p, env):
                    continue
                r = evt(value_of_path(p), env)
                cx.ob(r is not None and bool(r) == (n != 1), fn, 'only the last member may take over in its final suspension', p)
    for fn in cx.fns(FP + '::final_awaitable::await_suspend'):
        own = ('o', 'from_promise', P(PRM))
        for p in cx.paths(fn, this=FA, args=[own], seed=seed | {ST + ('use_count',): ('c', 1)}):
            v = value_of_path(p)
            cx.ob(p.outcome == 'return', fn, 'the end of a member must not throw', p)
            cx.ob(cv(load(p, ST + ('use_count',))) == 0, fn, 'the last member must give up its use of the shared state exactly once', p)
            ds = [e for e in p.events if e.kind == 'destroy' or e.kind == 'dtor' and e.obj and e.obj == ('L', PRM)]
            cx.ob(len(ds) == 1, fn, 'the last member must free its frame exactly once', p)
            if ds:
                cx.ob(cv(load(p, PRM + (f,))) == 0, fn, 'freeing the frame must not release the shared state again', p)
            w = fact(p, I(ST + ('coro',)))
            if w is False:
                cx.ob(v is not None and is_noop(v), fn, 'nothing must be resumed when nobody waits yet', p)
            else:
                cx.ob(v == I(ST + ('coro',)) and w is True, fn, 'the last member must resume the awaiting coroutine', p)
                cx.ob(cv(load(p, ST + ('coro',))) == 0, fn, 'the resumed awaiter must not stay in the shared state', p)


def field_seed(cx, fn, this, target, value):
    rec = cx.db.recs.get(fn['cls'])
    out = {}
    for f in (rec or {}).get('fields', []):
        if target in f['t'] and f['t'].rstrip(' const').endswith(('*', '&')):
            out[this + (f['n'],)] = value
    return out


@rule('P11', 'P12', 'P13')
def members_keep_the_shared_state(cx):
    """Every member holds the shared state from its first to its last moment: taking a reference counts it, dropping one uncounts
    it, and the awaiting coroutine is freed only when the last one is dropped."""
    S = root('st')
    n0 = ('c', 5)
    for fn in cx.fns('detail::intrusive_ptr_add_ref', pred=lambda f: 'shared_state' in f['params'][0]['t']):
        for p in cx.paths(fn, args=[P(S)], seed={S + ('use_count',): n0}):
            cx.ob(cv(load(p, S + ('use_count',))) == 6, fn, 'a new member must be counted', p)
    for fn in cx.fns('detail::intrusive_ptr_release', pred=lambda f: 'shared_state' in f['params'][0]['t']):
        for n in (1, 2, 3):
            for p in cx.paths(fn, args=[P(S)], seed={S + ('use_count',): ('c', n)}):
                cx.ob(cv(load(p, S + ('use_count',))) == n - 1, fn, 'a member that ends must be uncounted', p)
                r = cv(load(p, S + ('coro',))) == 0
                cx.ob(r == (n == 1), fn, 'the awaiting coroutine must be freed exactly when the last member is dropped', p)
    for fn in cx.fns('detail::fork::shared_state::outstanding_work'):
        for n in (0, 1, 2):
            for p in cx.paths(fn, this=S, seed={S + ('use_count',): ('c', n)}):
                v = value_of_path(p)
                cx.ob(cv(v) is not None and bool(cv(v)) == (n != 0), fn, 'work is outstanding while members run', p)
    found = 0
    for fn in cx.fns(FP + '::promise_type', pred=lambda f: f['params'] and 'shared_state' in f['params'][0]['t']):
        for p in cx.paths(fn, this=PRM, args=[('L', S)] + [('L', root('a%d' % i)) for i in range(len(fn['params']) - 1)]):
            found += 1
            ct = [e for e in p.events if e.kind == 'ctor' and 'intrusive_ptr' in e.name and e.val == P(S) or e.kind == 'reset' and e.val == P(S)]
            cx.ob(len(ct) == 1, fn, 'a member must hold the shared state', p)
            for e in ct:
                cx.ob(len(e.args) < 2 or cv(e.args[1]) != 0, fn, 'holding the shared state must be counted', p)
    if not found:
        raise Anchor('no constructor of the promise of a fork')


@rule('P11', 'P12', 'P13', 'P07')
def fork_promise_listens(cx):
    """A member waits until the awaiting coroutine gave it an executor, awaits its operation under the cancellation slot it was
    given, and passes what the operation returns through unchanged."""
    seed, f = state_seed(cx)
    for fn in cx.fns(FP + '::wired_up_awaitable::await_ready'):
        fs = field_seed(cx, fn, FA, FP, P(PRM))
        for t in (True, False):
            for p in cx.paths(fn, this=FA, seed=seed | fs | {ST + ('exec', '?'): TRUE if t else FALSE}):
                cx.ob(truth_of(p.state, value_of_path(p)) is t, fn, 'a member waits exactly while no executor is known', p)
    for fn in cx.fns(FP + '::wired_up_awaitable::await_suspend'):
        for p in cx.paths(fn, this=FA):
            cx.ob(p.outcome == 'return' and suspends(p), fn, 'a member without an executor must wait', p)
    for fn in cx.fns(FP + '::await_transform', pred=lambda q: q['params'] and 'cancellation_slot' in q['params'][0]['t']):
        S = ('o', 'aslot')
        for p in cx.paths(fn, this=PRM, args=[S]):
            got = [n for n in ('cancel',) + tuple(x['n'] for x in cx.recs(FP)[0]['fields']) if load(p, PRM + (n,)) == S]
            cx.ob(bool(got), fn, 'the slot of a member must be kept', p)
            for g in cx.fns(FP + '::get_cancellation_slot'):
                for q in cx.paths(g, this=PRM, seed={PRM + (got[0],): S} if got else {}):
                    v = value_of_path(q)
                    cx.ob(v == S or got and yields(q, PRM + (got[0],)), g, 'a member awaits under the slot it was given', q)
    for fn in cx.fns(FP + '::wrapped_awaitable::await_ready'):
        for p in cx.paths(fn, this=FA):
            cx.ob(fact(p, value_of_path(p)) is False, fn, 'the readiness of a member is asked only once', p)
    A = root('inner')
    for m in ('await_suspend', 'await_resume'):
        for fn in cx.fns(FP + '::wrapped_awaitable::' + m):
            fs = {}
            for x in cx.db.recs[fn['cls']]['fields']:
                fs[FA + (x['n'],)] = P(A)
            for p in cx.paths(fn, this=FA, seed=fs, opaque_pred=lambda q, b: short(q['n']) == m):
                if p.outcome != 'return' or any(e.kind == 'raise' for e in p.events):
                    continue
                c = [e for e in p.events if e.kind in ('call', 'enter') and short(e.name) == m and e.obj and e.obj[0] == 'L' and e.obj[1] == A]
                cx.ob(len(c) == 1, fn, 'a member must do its await exactly once', p)
                if len(c) == 1 and c[0].val is not None and fn['ret'] != 'void':
                    v = value_of_path(p)
                    cx.ob(v is not None and (v == c[0].val or contains(v, lambda x: x == c[0].val) or p.value == c[0].val), fn,
                          'what the operation of a member returns must not be lost', p)


@rule('P13')
def transaction_of_a_member_is_known(cx):
    """The transaction function of a race member is the one its operation calls before it hands over a value."""
    for fn in cx.fns(FP + '::await_transform', pred=lambda q: q['params'] and 'set_transaction_function' in q['params'][0]['t']):
        S = root('tf')
        for p in cx.paths(fn, this=PRM, args=[('L', S)]):
            for n in ('begin_transaction_this', 'begin_transaction_func'):
                cx.ob(load(p, PRM + (n,)) == I(S + (n,)), fn, 'the transaction of a race member must be kept', p)
    for fn in cx.fns(FP + '::begin_transaction'):
        for p in cx.paths(fn, this=PRM):
            c = [e for e in p.events if e.kind == 'call' and e.name == '<indirect>']
            t = fact(p, I(PRM + ('begin_transaction_this',)))
            if t is False:
                cx.ob(not c, fn, 'without a transaction nothing begins', p)
            else:
                cx.ob(len(c) == 1 and c[0].extra == I(PRM + ('begin_transaction_func',)) and c[0].argv and c[0].argv[0] == I(PRM + ('begin_transaction_this',)),
                      fn, 'a transaction must begin exactly once', p)


# -- the body of a member --------------------------------------------------------

def foreign(o, B=AW):
    fields = [f for f in SHARED if f in o.names]

    def hook(eng, st, kind, name):
        if kind == 'call' and name != '<indirect>' and short(name) != 'await_impl':
            return False
        n = st.cnt.get('foreign', 0) + 1
        st.cnt['foreign'] = n
        for f in fields:
            eng.put(st, B + (f,), ('i', root('after%d' % n) + (f,)))
        return True
    return hook


def after(p, B=AW):
    """where the shared fields of the path come from: their values after the last suspension"""
    n = p.state.cnt.get('foreign', 0)
    return root('after%d' % n) if n else B


def member_throws(name, fn, fr):
    return short(name) in ('await_ready', 'await_resume') and not (fn or {}).get('ne') and not fr_is_member(fr)


def fr_is_member(fr):
    return False


def impls(cx, kind):
    """(function, shape, index) of every member body"""
    out = []
    for form in FORMS:
        for fn in cx.fns('detail::%s_%s::awaitable::await_impl' % (kind, form)):
            o = info(cx, fn['cls'])
            if o.n is not None:
                m = re.search(r'await_impl<(\d+)', fn['q'])
                if not m:
                    raise Anchor('no index in %s' % fn['q'])
                out.append((fn, o, int(m.group(1)), o.n))
            else:
                out += [(fn, o, k, n) for n in counts(cx, o) for k in range(n)]
    return out


def member_paths(cx, fn, o, k, n):
    key = ('member', fn['id'], k, n)
    if key not in cx._cache:
        args = [('L', AW)] + ([('c', k)] if len(fn['params']) > 1 else [])
        seed = {}
        for f in (o.ptr, 'working' if runs_interruptible(o) else None):
            if f:
                seed[AW + (f, ('at', k))] = NULL                 # as constructed: decided by `combinator_starts_clean`
        ps = cx.paths(fn, args=args, seed=seed, await_throws=True, on_foreign=foreign(o), sizes=sizes(o, n),
                      opaque_pred=lambda q, b: short(q['n']) in OPAQUE or short(q['n']) == 'interrupt_await' and q['cls'] != o.cls,
                      may_throw=member_throws)
        cx._cache[key] = with_n(ps, n)
    return cx._cache[key]


def quiet(e):
    return ((e.extra or {}).get('ready') or {}).get('cls') == 'std::suspend_never'


def comps(path):
    """components of a path, the pointers in it unfolded"""
    out = []
    for c in path:
        if isinstance(c, tuple) and c and c[0] == 'd':
            v = c[1]
            while isinstance(v, tuple) and v and v[0] == 'o' and len(v) > 2:
                v = v[2]
            if isinstance(v, tuple) and len(v) == 2 and v[0] in ('i', 'p', 'L') and isinstance(v[1], tuple):
                out += comps(v[1])
        else:
            out.append(c)
    return out


def at_of(path, field):
    """k when the path leads to element k of the given field"""
    cs = comps(path)
    for i, c in enumerate(cs):
        if c == field:
            for d in cs[i + 1:]:
                if isinstance(d, tuple) and d and d[0] in ('at', 'get'):
                    return cv(d[1]) if isinstance(d[1], tuple) else d[1]
            return None
    return None


def touched(p, field):
    """indices of the elements of a field the events of a path touch"""
    out = set()
    for e in p.events:
        for v in [e.obj] + list(e.argv or []):
            if v is not None and v[0] in ('L', 'p', 'i') and isinstance(v[1], tuple):
                k = at_of(v[1], field)
                if k is not None:
                    out.add(k)
    return out


def emplaces(p, field='result'):
    """[(event, element, alternative or None, args)]: what a path stores in the results"""
    out = []
    for e in p.events:
        if e.obj is None or e.obj[0] != 'L' or field not in comps(e.obj[1]):
            continue
        if e.kind in ('call', 'enter') and short(e.name) == 'emplace':
            fid = (e.fn or {}).get('id', '')
            m = re.search(r'emplaceILm(\d+)E', fid)
            alt = int(m.group(1)) if m else 2 if 'emplaceINSt15__exception_ptr' in fid else None
            out.append((e, at_of(e.obj[1], field), alt, list(e.argv or [])))
        elif e.kind == 'engage':
            m = index_consts((e.fn or {}).get('id', ''))
            a = [x for x in e.argv or [] if not (x is not None and has_sym(x, 'in_place_index'))]
            if cut(e.obj[1], field):
                out.append((e, at_of(e.obj[1], field), m[0] if m else None, a))
        elif e.kind == 'store' and e.extra in (None, 'assign') and e.val is not None:
            out.append((e, at_of(e.obj[1], field), None, [e.val]))
    return out


def cut(path, field):
    """is the path the field itself or an element of it"""
    cs = comps(path)
    i = len(cs) - 1 - cs[::-1].index(field)
    return all(isinstance(c, tuple) for c in cs[i + 1:])


def runs_interruptible(o):
    return 'working' in o.names and 'dummy' not in o.names['working']


def index_consts(fn_id):
    return [int(x) for x in re.findall(r'in_place_index_t?ILm(\d+)E', fn_id)]


class Run:
    pass


def anatomy(cx, fn, o, k, p):
    """how a member body went: ready / waited / threw, checked against the protocol all combinators share"""
    r = Run()
    r.value, r.failed_early = None, False
    r.threw = [e for e in p.events if e.kind == 'raise']
    cx.ob(p.outcome in ('return', 'fall'), fn, 'the failure of a member must not leave its body', p)
    rd = [e for e in p.events if e.kind == 'call' and short(e.name) == 'await_ready']
    r.rd = rd
    r.ready = None
    r.ready_ev = rd[0] if rd else None
    aws = [e for e in p.events if e.kind == 'co_await' and not quiet(e)]
    res = [e for e in p.events if e.kind == 'call' and short(e.name) == 'await_resume']
    r.aws, r.res = aws, res
    if not cx.ob(len(rd) == 1, fn, 'the readiness of a member must be asked exactly once', p):
        return r
    t = touched(p, 'aws')
    cx.ob(t == {k}, fn, 'a member must await its own operation', p)
    r.ready = truth_of(p.state, rd[0].val) if rd[0].val is not None else None
    r.failed_early = bool(r.threw) and not aws and not res and r.threw[0].name != 'co_await' and p.events.index(r.threw[0]) == p.events.index(rd[0]) + 1
    if r.failed_early:
        r.value = None
        return r
    if r.ready is True:
        cx.ob(not aws, fn, 'a member that is ready must not wait', p)
        cx.ob(len(res) == 1, fn, 'the result of a ready member must be taken exactly once', p)
        r.value = res[0].val if res else None
    else:
        cx.ob(r.ready is False, fn, 'a member waits exactly when it is not ready', p)
        cx.ob(not res, fn, 'the result of a waiting member is taken by its await', p)
        mine = [e for e in aws if e.obj is not None and e.obj == rd[0].obj]
        cx.ob(len(mine) == 1 and mine[0] is aws[-1], fn, 'a member that is not ready must be awaited exactly once', p)
        w = [e for e in aws if ((e.extra or {}).get('ready') or {}).get('cls', '').endswith('wired_up_awaitable')]
        cx.ob(len(w) >= 1 and aws[0] is w[0], fn, 'a member must not be awaited before an executor is known', p)
        sl = [e for e in p.events if e.kind == 'call' and e.name == 'boost::asio::cancellation_signal::slot']
        before = [e for e in sl if e.obj and e.obj[0] == 'L' and e.obj[1] == AW + (o.sig, ('at', k)) and w and p.events.index(e) < p.events.index(aws[0])]
        cx.ob(len(sl) == 1 and len(before) == 1, fn, 'a member must be awaited under its own cancellation slot', p)
        if before:
            i = p.events.index(before[0])
            cx.ob(any(e.kind == 'co_await' and quiet(e) for e in p.events[i:p.events.index(aws[0])]), fn, 'the slot of a member must be given to it', p)
        r.value = mine[0].val if mine else None
    return r


def carries(args, v):
    """do the arguments hand over value v"""
    return v is not None and any(a is not None and contains(a, lambda x: x == v) for a in args)


def is_void(fn, p, r):
    """does the operation of the member return nothing"""
    for e in r.aws[-1:] + r.res[-1:]:
        q = (e.extra or {}).get('resume') if e.kind == 'co_await' else e.fn
    return None


@rule('P11')
def gather_keeps_every_outcome(cx):
    """Each member of gather stores exactly one outcome, at its own position: the value of its operation when it succeeded, the
    exception when it failed; a failure neither escapes nor touches the other members."""
    for fn, o, k, n in impls(cx, 'gather'):
        for p in member_paths(cx, fn, o, k, n):
            r = anatomy(cx, fn, o, k, p)
            em = emplaces(p)
            if not cx.ob(len(em) == 1, fn, 'a member of gather must store exactly one outcome', p):
                continue
            e, at, alt, args = em[0]
            cx.ob(at == k, fn, 'the outcome of a member must be stored at its own position', p)
            if r.threw:
                cx.ob(alt in (2, None) and any(a is not None and a[0] == 'o' and a[1] in ('eptr', 'current_exception') for a in args), fn,
                      'a failed member must store its exception', p)
            else:
                cx.ob(alt == 1 or alt is None and args and not any(a[0] == 'o' and a[1] in ('eptr', 'current_exception') for a in args), fn,
                      'a member that succeeded must store its value', p)
                if args and not is_mono(args[0]):
                    cx.ob(carries(args, r.value), fn, 'a member must store the value its operation returned', p)
                else:
                    cx.ob(r.value is None or void_member(p, r), fn, 'a member must store the value its operation returned', p)
            cx.ob(not [e for e in p.events if e.name == EMIT], fn, 'a member of gather must not cancel others', p)


def is_mono(v):
    return has_sym(v, 'monostate')


def void_member(p, r):
    """the awaited operation returns void"""
    e = (r.aws or r.res or [None])[-1]
    if e is None:
        return False
    if e.kind == 'co_await':
        return e_type(e) == 'void'
    return (e.fn or {}).get('ret') == 'void' or e.val is None


def e_type(e):
    return getattr(e, 't', None) or 'void'


# -- starting the members ---------------------------------------------------------

def starts(p):
    """[(event, index, value)] of the members a path starts"""
    out = []
    for e in p.events:
        if e.kind != 'call':
            continue
        if e.name == '<indirect>':
            k = None
            for v in (e.extra, e.obj):
                if v is not None and v[0] in ('i', 'L') and 'impls' in comps(v[1]):
                    k = at_of(v[1], 'impls')
            out.append((e, k, e.val))
        elif short(e.name) == 'await_impl':
            a = e.argv[1] if len(e.argv) > 1 else None
            k = cv(a) if a is not None else None
            if k is None and a is not None:
                k = at_of(a[1], 'reorder') if a[0] == 'i' else 0 if has_sym(a, 'reorder') and has_sym(a, 'front') else None
            if len(e.argv) < 2:
                m = re.search(r'await_impl<(\d+)', (e.fn or {}).get('q', '') or '')
                k = int(m.group(1)) if m else None
            out.append((e, k, e.val))
    return out


def fork_done(p, r):
    """is the fork r done on path p (True/False/None)"""
    h = ('o', 'fld', r, 'handle_')
    t = truth_of(p.state, h)
    if t is False:
        return True
    for k, v in p.state.facts.items():
        if k[0] == 'o' and 'done' in k[1] and k[2] == h:
            return v
    return None


def await_fns(cx, kind, m):
    out = []
    for form in FORMS:
        out += cx.fns('detail::%s_%s::awaitable::%s' % (kind, form, m))
    return out


NOINLINE = ('await_impl', 'assign_cancellation', 'get_executor')


def start_paths(cx, fn, o, seed, n):
    return with_n(cx.paths(fn, this=AW, seed=seed, on_foreign=foreign(o), sizes=sizes(o, n), opaque_pred=lambda q, b: short(q['n']) in NOINLINE), n)


@rule('P11', 'P12')
def members_start_in_order(cx):
    """gather and join start each member exactly once, in order: await_ready until one is not done (only when all are done it
    reports completion), await_suspend the rest, after the executor is known; every started member keeps running."""
    kind = KIND[cx.pid]
    for fn in await_fns(cx, kind, 'await_ready'):
        o = info(cx, fn['cls'])
        for n, k0 in [(n, k) for n in counts(cx, o) for k in range(n + 1)]:
            for p in start_paths(cx, fn, o, {AW + ('last_index',): ('c', k0)}, n):
                st = starts(p)
                ks = [k for _, k, _ in st]
                cx.ob(ks == list(range(k0, k0 + len(ks))), fn, 'members must be started once each, in order', p)
                cx.ob(cv(load(p, AW + ('last_index',))) == k0 + len(ks), fn, 'a started member must not be started again', p)
                ds = [fork_done(p, r) for _, _, r in st]
                ready = truth_of(p.state, value_of_path(p))
                cx.ob(ready is not None, fn, 'readiness must be decided', p)
                cx.ob(all(d is True for d in ds[:-1]), fn, 'readiness must be reported as soon as a member waits', p)
                if ready:
                    cx.ob(not ds or ds[-1] is True, fn, 'waiting members must not be reported as done', p)
                    cx.ob(k0 + len(ks) == n, fn, 'all members must have been started when the whole is reported done', p)
                else:
                    cx.ob(bool(ds) and ds[-1] is False, fn, 'the whole waits only for a member that is not done', p)
                    if ds:
                        cx.ob(load(p, AW + ('last_forked', 'handle_')) == ('o', 'fld', st[-1][2], 'handle_'), fn, 'the waiting member must be kept', p)
    for fn in await_fns(cx, kind, 'await_suspend'):
        o = info(cx, fn['cls'])
        for n, k0 in [(n, k) for n in counts(cx, o) for k in range(1, n + 1)]:
            for p in start_paths(cx, fn, o, {AW + ('last_index',): ('c', k0)}, n):
                if p.outcome != 'return':
                    continue
                st = starts(p)
                ks = [k for _, k, _ in st]
                cx.ob(ks == list(range(k0, k0 + len(ks))), fn, 'members must be started once each, in order', p)
                cx.ob(k0 + len(ks) == n, fn, 'all members must be started', p)
                wake(cx, fn, o, p, st)
                if kind == 'join':
                    error_cancels(cx, fn, o, p, after(p))


def wake(cx, fn, o, p, st):
    """the part of await_suspend all combinators share"""
    res = [e for e in p.events if e.kind == 'resume']
    cx.ob(len(res) == 1 and res[0].val is not None and (has_sym(res[0].val, 'last_forked') or res[0].val == I(AW + ('last_forked', 'handle_'))), fn,
          'the member that waits for the executor must be resumed exactly once', p)
    ex = [e for e in p.events if e.kind == 'engage' and e.obj and e.obj[1] == AW + ('exec',) or e.kind == 'store' and e.obj and e.obj[1][:2] == AW + ('exec',)]
    cx.ob(bool(ex) and (not res or p.events.index(ex[0]) < p.events.index(res[0])), fn, 'the executor must be known before members run on', p)
    for e, k, r in st:
        h = ('o', 'fld', r, 'handle_')
        rel = [x for x in p.events if x.kind == 'call' and short(x.name) == 'release' and x.val == h]
        cx.ob(len(rel) == 1, fn, 'a started member must not be destroyed', p)
        if res:
            cx.ob(p.events.index(e) > p.events.index(res[0]), fn, 'members must be started in order', p)
    uc = load(p, AW + ('use_count',))
    t = truth_of(p.state, uc)
    if t is None:
        t = truth_of(p.state, ('o', '!=', uc, ('c', 0)))
        if t is None:
            u = truth_of(p.state, ('o', '==', uc, ('c', 0)))
            t = None if u is None else not u
    s = suspends(p)
    co = load(p, AW + ('coro',))
    cx.ob(t is not None and s == t, fn, 'the awaiting coroutine is suspended exactly while members run', p)
    if s:
        cx.ob(co != I(AW + ('coro',)) and cv(co) is None, fn, 'the suspended coroutine must be known to the members', p)
    else:
        cx.ob(co == I(AW + ('coro',)) or cv(co) == 0, fn, 'a coroutine that runs on must not be resumed again by a member', p)


def error_cancels(cx, fn, o, p, A):
    """join: what runs on is cancelled exactly when a member failed"""
    err = truth_of(p.state, I(A + ('error',)))
    if err is None:
        cx.ob(not suspends(p), fn, 'members must not run on before it is known whether another one failed', p)
        return
    cancels(cx, fn, o, p, A, err, ())


def cancels(cx, fn, o, p, A, must, exempt, types=('all',)):
    """the signals of all running members (but those exempt) are emitted once when `must`, none otherwise"""
    es = [e for e in p.events if e.name == EMIT]
    if not must:
        cx.ob(not es, fn, 'nothing may be cancelled without a reason', p)
        return
    n = member_count(p, o)
    for j in range(n):
        v = I(A + (o.ptr, ('at', j)))
        mine = [e for e in es if on_signal(e, v, True)]
        if j in exempt:
            continue
        t = truth_of(p.state, v)
        if t is False:
            cx.ob(not mine, fn, 'a member that does not run must not be cancelled', p)
        else:
            cx.ob(t is True and len(mine) == 1, fn, 'the other members must be cancelled, once each', p)
            if types and mine:
                cx.ob(all(is_type(emit_type(e), types) for e in mine), fn, 'members must be cancelled for good', p)
            cx.ob(cv(load(p, AW + (o.ptr, ('at', j)))) == 0, fn, 'a cancelled member must not be cancelled again', p)


def is_type(v, types):
    if v is None:
        return False
    c = cv(v)
    if c is not None and not isinstance(c, str):
        return c in (-1, 0xFFFFFFFF) and 'all' in types
    return any(show(v).endswith(t) for t in types)


@rule('P12')
def join_member_keeps_its_value_or_fails_all(cx):
    """Each member of join stores its value at its own position when it succeeds. When it fails, the first error is kept, and the
    members that still run are cancelled; its exception does not escape."""
    for fn, o, k, n in impls(cx, 'join'):
        keeps = 'result' in o.names and not any(x in o.names['result'] for x in ('dummy',)) and 'monostate' != o.names['result'].split('::')[-1]
        for p in member_paths(cx, fn, o, k, n):
            r = anatomy(cx, fn, o, k, p)
            em = emplaces(p)
            A = after(p)
            err0, err1 = I(A + ('error',)), load(p, AW + ('error',))
            if r.threw:
                t = truth_of(p.state, err0)
                cx.ob(t is not None, fn, 'a failed member must look whether another failed before', p)
                if t:
                    cx.ob(err1 == err0, fn, 'the first error must be kept', p)
                else:
                    cx.ob(err1[0] == 'o' and err1[1] in ('eptr', 'current_exception'), fn, 'the first error must be stored', p)
                cancels(cx, fn, o, p, A, True, (k,))
            else:
                cx.ob(err1 == err0, fn, 'a member that succeeded must not report an error', p)
                cancels(cx, fn, o, p, A, False, ())
                cx.ob(all(at == k for _, at, _, _ in em), fn, 'the value of a member must be stored at its own position', p)
                if keeps:
                    cx.ob(len(em) == 1, fn, 'a member of join must store its value exactly once', p)
                    for e, at, alt, args in em:
                        if args and not is_mono(args[0]):
                            cx.ob(carries(args, r.value), fn, 'a member must store the value its operation returned', p)
                        else:
                            cx.ob(void_member(p, r), fn, 'a member must store the value its operation returned', p)
            live_signal(cx, fn, o, k, p, r)


def live_signal(cx, fn, o, k, p, r):
    """while a member waits, the shared pointer to its signal leads to the very signal it listens to"""
    if r.ready is not False or not r.aws:
        return
    i = p.events.index(r.aws[0])
    st = [e for e in p.events[:i] if e.kind == 'store' and e.obj and e.obj[0] == 'L' and e.obj[1] == AW + (o.ptr, ('at', k))]
    cx.ob(bool(st) and st[-1].val == P(AW + (o.sig, ('at', k))), fn, 'a waiting member must be known with its own cancellation signal', p)


def race_type(o):
    m = re.search(r'cancellation_type::(\w+)', o.cls)
    return (m.group(1),) if m else ('all',)


def res_error(p, v):
    """does the awaited result v hold an error on path p"""
    if v is None:
        return None
    t = truth_of(p.state, ('o', 'fld', v, '?'))
    return None if t is None else not t


@rule('P13')
def race_keeps_the_first_outcome(cx):
    """The first member of a race that ends reserves the result with its own index; exactly its value or error is stored, no other
    member stores anything. It then cancels and interrupts every other member (a ready one before it takes its value), and no
    member stays registered after its end."""
    for fn, o, k, n in impls(cx, 'race'):
        types = race_type(o)
        void_all = 'index' in o.names and ('monostate' in o.names['result'].split('<')[0])
        for p in member_paths(cx, fn, o, k, n):
            r = anatomy(cx, fn, o, k, p)
            if not r.rd:
                continue
            A = after(p)
            i0, e0 = I(A + ('index',)), I(A + ('error',))
            em, e1 = emplaces(p), load(p, AW + ('error',))
            i1 = load(p, AW + ('index',))
            err = True if r.threw else res_error(p, r.value)
            cx.ob(cv(load(p, AW + (o.ptr, ('at', k)))) == 0, fn, 'a finished member must not be cancelled any more', p)
            if runs_interruptible(o):
                cx.ob(cv(load(p, AW + ('working', ('at', k)))) == 0, fn, 'a finished member must not be interrupted any more', p)
                if r.aws:
                    i = p.events.index(r.aws[0])
                    reg = [e for e in p.events[:i] if e.kind == 'store' and e.obj and e.obj[0] == 'L' and e.obj[1] == AW + ('working', ('at', k))]
                    if cx.ob(bool(reg) and reg[-1].val[0] == 'p', fn, 'a waiting member must be known to be interrupted', p):
                        w = reg[-1].val[1]
                        own = [at_of(v[1], 'aws') for q, v in p.state.store.items() if q[:len(w)] == w and v[0] in ('p', 'L') and 'aws' in comps(v[1])]
                        cx.ob(at_of(w, 'aws') == k or own in ([k], []), fn, 'interrupting a member must reach its own operation', p)
            live_signal(cx, fn, o, k, p, r)
            seen = False
            for v in (cv(MAXI), k, k + 1):
                env = lambda x: v if x == i0 else None
                if not feasible(p, env):
                    continue
                seen = True
                end = evt(i1, env)
                mine = v in (cv(MAXI), k)
                cx.ob(end == (k if mine else v), fn, 'the first member to end wins, and only that one', p)
                if mine:
                    if err is None and (r.value is None or e1 == e0):
                        err = False
                    if err:
                        cx.ob(e1 != e0 and cv(e1) != 0, fn, 'the error of the winner must be kept', p)
                        cx.ob(not em, fn, 'a winner that failed has no result', p)
                    else:
                        cx.ob(e1 == e0, fn, 'a winner that succeeded reports no error', p)
                        if 'optional' in o.names['result']:
                            cx.ob(len(em) == 1 or void_result(o) and not em, fn, 'the value of the winner must be stored exactly once', p)
                            for e, at, alt, args in em:
                                cx.ob(alt == k or o.n is None, fn, 'the value of the winner must be stored under its own index', p)
                                cx.ob(not args and True or carries(args, r.value), fn, 'the value of the winner must be what its operation returned', p)
                                cx.ob(bool(args) or void_of(o, k), fn, 'the value of the winner must be what its operation returned', p)
                    cancels(cx, fn, o, p, A, True, (k,), types)
                    interrupts(cx, fn, o, p, A, k)
                    if r.ready and r.res:
                        i = p.events.index(r.res[0])
                        late = [e for e in p.events[i:] if e.name == EMIT]
                        cx.ob(not late, fn, 'a ready winner must cancel the others before it takes its value', p)
                else:
                    cx.ob(not em and e1 == e0, fn, 'a member that lost must not store anything', p)
            cx.ob(seen, fn, 'a member must reserve the result', p)


def void_result(o):
    return 'variant<' in o.names['result'] and not re.sub(r'(boost::variant2::)?monostate|[ ,<>]|std::optional|boost::variant2::variant', '', o.names['result'])


def void_of(o, k):
    """does member k of a race return void"""
    m = re.search(r'variant<(.*)>>', o.names['result'])
    if not m:
        return False
    parts, depth, cur = [], 0, ''
    for c in m.group(1):
        if c == ',' and depth == 0:
            parts.append(cur)
            cur = ''
            continue
        depth += {'<': 1, '>': -1}.get(c, 0)
        cur += c
    parts.append(cur)
    return k < len(parts) and 'monostate' in parts[k]


def interrupts(cx, fn, o, p, A, k):
    if not runs_interruptible(o):
        return
    n = member_count(p, o)
    for j in range(n):
        v = I(A + ('working', ('at', j)))
        if j == k or truth_of(p.state, v) is False:
            continue
        c = [e for e in p.events if e.kind in ('call', 'enter') and short(e.name) == 'interrupt_await' and e.obj and e.obj[0] == 'L' and e.obj[1] == (('d', v),)]
        cx.ob(truth_of(p.state, v) is True and bool(c), fn, 'the losers that can be interrupted must be', p)


@rule('P13')
def transaction_reserves_the_race(cx):
    """The transaction a member begins before it takes a value reserves the race for it and cancels all others, without cancelling
    itself; when the race is already decided it is refused and changes nothing."""
    for fn, o, k, n in impls(cx, 'race'):
        ps = [p for p in member_paths(cx, fn, o, k, n)]
        done = set()
        for p in ps:
            ev_ = [e for e in p.events if e.kind == 'store' and e.name == 'begin_transaction_this']
            rd = [e for e in p.events if e.kind == 'call' and short(e.name) == 'await_ready']
            if not rd:
                continue
            cx.ob(bool(ev_) and p.events.index(ev_[0]) < p.events.index(rd[0]), fn, 'a member must have a transaction before its operation starts', p)
            if not ev_ or done:
                continue
            lam = ev_[0].val
            if lam is None or lam[0] != 'p':
                continue
            done.add(1)
            f = [e for e in p.events if e.kind == 'store' and e.name == 'begin_transaction_func']
            st = p.state.copy()
            TX = root('tx')
            for x in SHARED:
                if x in o.names:
                    ENG.put(st, AW + (x,), I(TX + (x,)))
            st.facts.clear()
            st.trace = None
            fv = f[0].val if f else None
            opts = dict(sizes=sizes(o, n), opaque_pred=lambda q, b: short(q['n']) == 'interrupt_await' and q['cls'] != o.cls)
            qs = run_fn(cx, fv, st, [lam], opts) if fv is not None and fv[0] == 'fn' else cx.closure(lam, st, **opts)
            if not cx.ob(bool(qs), fn, 'the transaction of a member must be known', p):
                continue
            i0 = I(TX + ('index',))
            for q in qs:
                q.fn, q.n = fn, n
                for v in (cv(MAXI), k, k + 1):
                    env = lambda x: v if x == i0 else None
                    if not feasible(q, env):
                        continue
                    if v != cv(MAXI):
                        cx.ob(q.outcome == 'throw' and not [e for e in q.events if e.name == EMIT] and load(q, AW + ('index',)) == i0, fn,
                              'a transaction in a decided race must be refused', q)
                        continue
                    cx.ob(q.outcome == 'return', fn, 'the first transaction must be granted', q)
                    cx.ob(evt(load(q, AW + ('index',)), env) == k, fn, 'a transaction must reserve the race for its member', q)
                    own = I(TX + (o.ptr, ('at', k)))
                    cx.ob(not [e for e in q.events if e.name == EMIT and on_signal(e, own, True)], fn, 'a transaction must not cancel its own member', q)
                    cx.ob(cv(load(q, AW + (o.ptr, ('at', k)))) == 0, fn, 'a transaction must not cancel its own member', q)
                    cancels(cx, fn, o, q, TX, True, (k,), race_type(o))
                    interrupts(cx, fn, o, q, TX, k)


def run_fn(cx, fv, st, args, opts):
    fn = cx.db.fns.get(fv[1].replace('::__invoke@', '::operator()@'))
    if fn is None:
        return None
    return cx.paths(fn, args=args, state=st, **opts)


@rule('P13', 'P36')
def race_starts_until_decided(cx):
    """A race starts its members one after the other, each at most once, and stops as soon as one of them has won; it suspends
    exactly while members run."""
    for fn in await_fns(cx, 'race', 'await_ready'):
        o = info(cx, fn['cls'])
        for p in [p for n in counts(cx, o) if n for p in start_paths(cx, fn, o, {}, n)]:
            st = starts(p)
            cx.ob([k for _, k, _ in st] == [0], fn, 'a race starts with one member', p)
            if len(st) != 1:
                continue
            d = fork_done(p, st[0][2])
            rdy = truth_of(p.state, value_of_path(p))
            if d is None:
                v = value_of_path(p)
                d = rdy
                cx.ob(v is not None and has_sym(v, 'done') and mentions(v, st[0][2]), fn, 'a race is ready when its first member is done', p)
            cx.ob(d == rdy, fn, 'a race is ready when its first member is done', p)
            cx.ob(load(p, AW + ('last_forked', 'handle_')) == ('o', 'fld', st[0][2], 'handle_'), fn, 'the waiting member must be kept', p)
    for fn in await_fns(cx, 'race', 'await_suspend'):
        o = info(cx, fn['cls'])
        for p in [p for n in counts(cx, o) if n for p in start_paths(cx, fn, o, {}, n)]:
            if p.outcome != 'return':
                continue
            st = starts(p)
            ks = [k for _, k, _ in st]
            cx.ob(ks == list(range(1, 1 + len(ks))), fn, 'members must be started once each, in order', p)
            decided = []
            for n in range(1, p.state.cnt.get('foreign', 0) + 1):
                i = I(root('after%d' % n) + ('index',))
                t = truth_of(p.state, ('o', '==', MAXI, i))
                if t is None:
                    t = truth_of(p.state, ('o', '==', i, MAXI))
                decided.append(None if t is None else not t)
            # after<n> is the state after the n-th run of members: the resumed first one, then the started ones
            for j in range(len(ks)):
                cx.ob(j < len(decided) and decided[j] is False, fn, 'no member may be started once the race is decided', p)
            for j, (e, k, rv) in enumerate(st[:-1]):
                cx.ob(fork_done(p, rv) is False, fn, 'no member may be started once the race is decided', p)
            early = truth_of(p.state, I(root('after1') + ('use_count',)))
            if not (early is False and not ks):
                last = decided[-1] if decided else None
                stopped = last is True or st and fork_done(p, st[-1][2]) is True
                cx.ob(stopped or ks == list(range(1, p.n)), fn, 'all members must be started while the race is undecided', p)
            wake(cx, fn, o, p, st)


# -- construction and results -------------------------------------------------------

RNG = root('rng')
MEMBER_OPS = ('await_ready', 'await_resume', 'await_suspend', 'await_impl')


def seqs(path):
    c = comps(path)
    return bool(c) and c[0] == RNG[0] and len(c) == 1


@rule('P11', 'P12', 'P13', 'P36')
def combinator_starts_clean(cx):
    """A combinator starts with no outcome, no error, no winner, nobody known as running, and exactly one body per member, in
    order (a race: in the given order for left_race, else in a random one that covers all members); it does not ask or await any member
    before it is itself awaited."""
    kind = KIND[cx.pid]
    for form in FORMS:
        for fn in cx.fns('detail::%s_%s::awaitable::awaitable' % (kind, form), pred=lambda q: q.get('ctor') not in ('copy', 'move')):
            o = info(cx, fn['cls'])
            for n in counts(cx, o):
                ps = cx.paths(fn, this=AW, args=[('L', RNG)] + [('L', root('g%d' % j)) for j in range(len(fn['params']) - 1)],
                              sizes=lambda path: n if seqs(path) else None, opaque_pred=lambda q, b: short(q['n']) in MEMBER_OPS)
                for p in ps:
                    if p.outcome == 'throw':
                        continue
                    clean(cx, fn, o, n, p)


def clean(cx, fn, o, n, p):
    at = lambda f, k: load(p, AW + (f, ('at', k)))
    called = [e for e in p.events if e.kind in ('call', 'enter') and short(e.name) in MEMBER_OPS]
    cx.ob(not called, fn, 'a member must not be asked or awaited before the whole is awaited', p)
    cx.ob(cv(load(p, AW + ('use_count',))) == 0, fn, 'nobody uses a new combinator', p)
    cx.ob(cv(load(p, AW + ('coro',))) == 0, fn, 'nobody waits for a new combinator', p)
    cx.ob(cv(load(p, AW + ('exec', '?'))) == 0, fn, 'no executor is known before the whole is awaited', p)
    cx.ob(cv(load(p, AW + ('last_forked', 'handle_'))) == 0, fn, 'no member runs in a new combinator', p)
    if 'last_index' in o.names:
        cx.ob(cv(load(p, AW + ('last_index',))) == 0, fn, 'no member was started in a new combinator', p)
    for f in ('error',):
        if f in o.names:
            cx.ob(cv(load(p, AW + (f,))) == 0, fn, 'a new combinator has no error', p)
    if 'index' in o.names:
        cx.ob(load(p, AW + ('index',)) == MAXI, fn, 'a new race has no winner', p)
    if o.names.get('result', '').startswith('std::optional'):
        cx.ob(cv(load(p, AW + ('result', '?'))) == 0, fn, 'a new race has no result', p)
    if o.ptr:
        for k in range(n):
            cx.ob(cv(at(o.ptr, k)) == 0, fn, 'no member is known as running in a new combinator', p)
    if runs_interruptible(o):
        for k in range(n):
            cx.ob(cv(at('working', k)) == 0, fn, 'no member is known as interruptible in a new combinator', p)
    sh = [e for e in p.events if e.kind == 'call' and short(e.name) == 'shuffle']
    left = 'left_race_tag' in (en.template_args(o.cls.rsplit('::awaitable', 1)[0]) + [''] * 2)[1]
    order = 'impls' if o.n is not None else 'reorder'
    if o.n is None:
        for f, t in o.names.items():
            if t.startswith('std::vector<') and f not in o.refs:
                cx.ob(cv(load(p, AW + (f, '#'))) == n, fn, 'there must be as much room as members (%s)' % f, p)
        if o.kind != 'race':
            a = load(p, AW + ('aws',))
            for k in range(n):
                v = at('aws', k)
                cx.ob(a == P(RNG) or leads_to(p, AW + ('aws', ('at', k)), RNG + (('at', k),)), fn, 'member k must be the k-th of the range', p)
    elif o.kind != 'race':
        for k in range(n):
            w = I(AW)
            cx.ob(from_arg(p, AW + ('aws', ('get', k)), k), fn, 'member k must be the k-th argument', p)
    if order in o.names:
        got = []
        for k in range(n):
            v = at(order, k)
            if v[0] == 'o' and v[1] == 'oneof':
                cx.ob(len(v) == 3 + n, fn, 'all members of a race must be shuffled', p)
                v = v[3 + k] if len(v) == 3 + n else v
            got.append(index_of(v, order))
        cx.ob(got == list(range(n)), fn, 'there must be exactly one body per member, in order', p)
    if o.kind == 'race':
        cx.ob(not sh if left else len(sh) == 1 and len(sh[0].extra or ()) == n, fn, 'a race starts its members in random order, a left_race in the given one', p)
        if sh and len(sh[0].argv) == 3:
            cx.ob(has_sym(sh[0].argv[2], 'g0') or has_sym(show(sh[0].args[2]), 'g0'), fn, 'the order of a race must come from the given generator', p)


def index_of(v, order):
    if order == 'reorder':
        return cv(v)
    if v[0] == 'fn':
        m = re.search(r'await_impl<(\d+)', ENGDB(v)) or re.search(r'await_implILm(\d+)E', v[1])
        return int(m.group(1)) if m else None
    return None


def ENGDB(v):
    f = _db.get().fns.get(v[1])
    return (f or {}).get('q', '')


def leads_to(p, path, want):
    """does the object at path refer to (or come from) the location want"""
    for k, v in p.state.store.items():
        if k[:len(path)] == path:
            if contains(v, lambda x: isinstance(x, tuple) and x[:len(want)] == want):
                return True
    v = load(p, path)
    return contains(v, lambda x: isinstance(x, tuple) and x[:len(want)] == want)


def from_arg(p, path, k):
    """is the k-th element made from the k-th argument of the combinator"""
    hit = set()
    vals = [v for q, v in p.state.store.items() if q[:len(path)] == path] + [load(p, path)]
    def look(v):
        if isinstance(v, tuple):
            if len(v) >= 2 and v[0] == RNG[0] and isinstance(v[1], tuple) and v[1][0] == 'get':
                hit.add(v[1][1])
            for x in v:
                look(x)
    for v in vals:
        look(v)
    return hit == {k}


def result_at(o, n, B=AW):
    f = 'get' if o.n is not None else 'at'
    return [B + ('result', (f, k)) for k in range(n)]


def keeps_nothing(t):
    """is a result of this type empty (void members)"""
    return t.split('::')[-1] in ('monostate', 'dummy') or 'dummy' in t.rsplit('>', 1)[-1]


@rule('P11')
def gather_reports_every_outcome(cx):
    """Awaiting gather never throws for a member: it returns one result per member, in order; each holds the value or the exception the
    member stored."""
    for fn in await_fns(cx, 'gather', 'await_resume'):
        o = info(cx, fn['cls'])
        for n in counts(cx, o):
            els = result_at(o, n)
            for mask in range(1 << n):
                seed = {e + ('index',): ('c', 2 if mask >> k & 1 else 1) for k, e in enumerate(els)}
                for p in cx.paths(fn, this=AW, seed=seed, sizes=sizes(o, n)):
                    if not cx.ob(p.outcome == 'return' and p.value is not None and p.value[0] == 'L', fn, 'gather must report its members, not throw', p):
                        continue
                    v = p.value[1]
                    if o.n is None:
                        cx.ob(cv(load(p, v + ('#',))) == n, fn, 'gather must return one result per member', p)
                    for k, e in enumerate(els):
                        x = v + (e[-1],)
                        ok = cv(load(p, x + ('?',)))
                        if mask >> k & 1:
                            cx.ob(ok == 0 and load(p, x + ('!',)) == I(e + (('get', 2),)), fn, 'the exception of a member must be reported in its place', p)
                        else:
                            cx.ob(ok == 1 and (holds(p, x + ('*',), e + (('get', 1),)) or void_element(o, k)), fn,
                                  'the value of a member must be reported in its place', p)


def void_element(o, k):
    t = en.template_args(o.names['result'])
    e = (t[k] if o.n is not None else t[0]) if t else ''
    return (en.template_args(e) + ['', ''])[1].endswith('monostate')


def reported(p, fn):
    """(kind, error, path or value of the result) of one of the three forms of await_resume"""
    if p.outcome == 'throw':
        v = p.value
        return 'error', v[2] if v and v[0] == 'o' and v[1] == 'of_eptr' else v, None
    a = fn['params'][0]['t'] if fn['params'] else ''
    v = p.value
    if 'as_tuple' in a and v is not None and v[0] == 'L':
        e = load(p, v[1] + (('get', 0),))
        t = truth_of(p.state, e)
        return {True: 'error', False: 'value', None: 'either'}[t], e, ('L', v[1] + (('get', 1),))
    if 'as_result' in a and v is not None and v[0] == 'L':
        t = truth_of(p.state, load(p, v[1] + ('?',)))
        return ('value', None, ('L', v[1] + ('*',))) if t else ('error', load(p, v[1] + ('!',)), None)
    return 'value', None, v


@rule('P12', 'P13')
def combinator_reports_its_outcome(cx):
    """Awaiting join or race, in each of its forms (throwing, as_result, as_tuple), reports the stored error exactly when there is one, and
    otherwise what the members stored: all values in order (join), the index and value of the winner (race)."""
    kind = KIND[cx.pid]
    err = I(AW + ('error',))
    for fn in await_fns(cx, kind, 'await_resume'):
        o = info(cx, fn['cls'])
        for n in counts(cx, o):
            seed = {}
            if kind == 'join' and not keeps_nothing(o.names['result']):
                seed = {e + ('?',): TRUE for e in result_at(o, n)}
            if kind == 'race' and o.names['result'].startswith('std::optional'):
                seed = {AW + ('result', '?'): TRUE}
            for bad in (True, False):
                # a failed member stores nothing
                sd = {k: FALSE if bad else v for k, v in seed.items()}
                for p in cx.paths(fn, this=AW, seed=sd, facts={err: bad}, sizes=sizes(o, n)):
                    k, e, v = reported(p, fn)
                    touch = [x for x in p.events if x.kind == 'bad_deref' or x.kind == 'deref' and bad and x.obj and x.obj[0] == 'L' and 'result' in comps(x.obj[1])]
                    if bad:
                        cx.ob(k == 'error' and e == err, fn, 'the error of a member must be reported', p)
                        if v is not None and v[0] == 'L' and kind == 'race':
                            cx.ob(not contains_path(p, v[1], AW + ('result',)), fn, 'a failed race has no result to report', p)
                    else:
                        cx.ob(k == 'value' or k == 'either' and e == err, fn, 'an error must be reported only when a member failed', p)
                        if kind == 'join' and not keeps_nothing(o.names['result']):
                            if not cx.ob(v is not None and v[0] == 'L', fn, 'the values of the members must be reported', p):
                                continue
                            if o.n is None:
                                cx.ob(cv(load(p, v[1] + ('#',))) == n, fn, 'join must return one value per member', p)
                            for x in result_at(o, n):
                                cx.ob(same(p, v[1] + (x[-1],), x + ('*',)), fn, 'the value of a member must be reported in its place', p)
                        if kind == 'race':
                            race_value(cx, fn, o, p, v)


def contains_path(p, path, want):
    for k, v in p.state.store.items():
        if k[:len(path)] == path and contains(v, lambda x: isinstance(x, tuple) and len(x) >= len(want) and x[:len(want)] == want):
            return True
    return False


def same(p, path, want):
    """the object at path holds what `want` held, as a whole or member by member"""
    if load(p, path) == I(want):
        return True
    kids = [(k[len(path):], v) for k, v in p.state.store.items() if len(k) > len(path) and k[:len(path)] == path]
    return bool(kids) and all(v == I(want + r) for r, v in kids)


def race_value(cx, fn, o, p, v):
    ix, what = I(AW + ('index',)), AW + ('result', '*')
    val = load(p, v[1]) if v is not None and v[0] == 'L' else v
    if not o.names['result'].startswith('std::optional') or o.n is not None and void_result(o):
        cx.ob(val == ix, fn, 'a race without values reports who won', p)
    elif o.n is not None:
        cx.ob(v is not None and (val == I(what) or v[0] == 'L' and same(p, v[1], what)), fn, 'a race reports the value of the winner', p)
    else:
        ok = v is not None and v[0] == 'L'
        cx.ob(ok and load(p, v[1] + ('first',)) == ix, fn, 'a race reports who won', p)
        cx.ob(ok and same(p, v[1] + ('second',), what), fn, 'a race reports the value of the winner', p)


def can_interrupt(cx, o, k):
    """1: member k of a combinator can be interrupted, 0: it cannot, None: a type of the user"""
    args = en.template_args(o.cls.rsplit('::awaitable', 1)[0])
    args = args[k] if o.n is not None else args[-1]
    t = args.strip()
    if not re.search(r'cobalt::(promise|generator)<', t):
        return None
    return 1 if t.endswith('&') else 0


# -- interrupting ------------------------------------------------------------------

@rule('P11', 'P12', 'P13', 'P02')
def interruption_reaches_the_members(cx):
    """Interrupting a combinator interrupts the awaits of its members: every member of gather that can be interrupted, the running
    ones of join and race; members handed over as temporaries cannot be interrupted on their own."""
    for kind in ('gather', 'join', 'race') if cx.pid == 'P02' else (KIND[cx.pid],):
        for form in FORMS:
            for fn in cx.fns('detail::%s_%s::awaitable::interrupt_await' % (kind, form)):
                o = info(cx, fn['cls'])
                if kind == 'race' and not runs_interruptible(o):
                    continue
                for n in counts(cx, o):
                    live = 'working' if kind == 'race' else o.ptr
                    ps = with_n(cx.paths(fn, this=AW, sizes=sizes(o, n),
                                         opaque_pred=lambda q, b: short(q['n']) == 'interrupt_await' and q['cls'] != o.cls), n)
                    for p in ps:
                        cs = [e for e in p.events if e.kind == 'call' and short(e.name) == 'interrupt_await']
                        got = []
                        for e in cs:
                            got.append(at_of(e.obj[1], live if kind == 'race' else 'aws') if e.obj and e.obj[0] in ('L', 'i') else None)
                        for k in range(n):
                            want = 1 if kind == 'race' else can_interrupt(cx, o, k)
                            if want and live:
                                t = fact(p, load(p, AW + (live, ('at', k))))
                                cx.ob(t is not None or k not in got, fn, 'a member that may not be running must not be interrupted', p)
                                want = 1 if t is True else 0
                            if want is not None:
                                cx.ob(got.count(k) == want, fn, 'every running member must be interrupted once' if want else
                                      'a member that is not running, or only lent, must not be interrupted', p)
                        cx.ob(len(cs) == len([k for k in got if k is not None and k < n]), fn, 'interrupting must reach the members only', p)


@rule('P13')
def running_members_of_a_race_can_be_interrupted(cx):
    """What a race registers for a running member interrupts the await of that member, if the member is a promise or generator
    that outlives the race, and does nothing otherwise."""
    groups = {}
    for fn in cx.db.fns.values():
        if short(fn['n']) == 'interrupt_await' and 'body' in fn and re.search(r'race_variadic_impl.*await_impl.*::\w+::interrupt_await', fn['id']):
            groups.setdefault(re.match(r'.*?race_variadic_impl<.*>(?=::awaitable::await_impl)', fn['q']).group(0), []).append(fn)
    for g, fns in sorted(groups.items()):
        want = 0
        for t in en.template_args(g)[2:]:
            m = re.match(r'boost::cobalt::(promise|generator|channel)<', t)
            if not m:
                want = None
                break
            want += m.group(1) == 'channel' or t.endswith('&')
        got = 0
        for fn in fns:
            IN, A = root('in'), root('member')
            fs = {}
            r = cx.db.recs.get(fn['cls'])
            for f in (r or {}).get('fields', []):
                fs[IN + (f['n'],)] = P(A)
            hits = []
            for p in cx.paths(fn, this=IN, seed=fs, opaque_pred=lambda q, b: short(q['n']) == 'interrupt_await' and q['id'] != fn['id']):
                cs = [e for e in p.events if e.kind == 'call' and short(e.name) == 'interrupt_await']
                cx.ob(all(e.obj is not None and e.obj == ('L', A) for e in cs), fn, 'interrupting a running member must reach its await', p)
                hits.append(len(cs))
            got += min(hits)
        if want is not None:
            cx.ob(got == want, fns[0], 'exactly the members of a race that outlive it can be interrupted')
    if not groups:
        raise Anchor('no interruptor of a race')


PRNG = 'detail::prng'


@rule('P36')
def race_draws_from_the_given_generator(cx):
    """A race draws its order from the generator it was given, which it shares with the caller instead of copying when it was given
    one that stays, or else from the generator of its thread; a left_race draws nothing."""
    for name in ('race', 'left_race'):
        for fn in cx.fns(name):
            args = ['p%d' % j for j in range(len(fn['params']))]
            for p in cx.paths(fn, args=[('L', root(a)) for a in args]):
                if p.outcome == 'throw':
                    continue
                v = p.value
                if v is None or v[0] != 'L':
                    raise Anchor('%s does not return a combinator' % fn['q'])
                cls = fn.get('rtc') or fn.get('ret') or ''
                urbg = (en.template_args(cls) + [''] * 2)[1]
                if 'race_' not in cls or not urbg:
                    raise Anchor('%s does not return a combinator' % fn['q'])
                held = [x for k, x in p.state.store.items() if k[:len(v[1])] == v[1] and len(k) == len(v[1]) + 1]
                left = 'left_race_tag' in urbg
                cx.ob(left == (name == 'left_race'), fn, 'a race starts its members in random order, a left_race in the given one', p)
                if left:
                    continue
                shared = urbg.rstrip().endswith('&')
                if takes_generator(fn):
                    stays = fn['params'][0].get('ref') == 'lr'
                    cx.ob(any(x == P(root('p0')) or not stays and mentions(x, I(root('p0'))) for x in held), fn, 'the order must be drawn from the given generator', p)
                    cx.ob(shared or not stays, fn, 'a generator that stays must be shared, or each race draws the same order', p)
                else:
                    cx.ob(any(x[0] == 'p' and 'prng' in str(x[1]) for x in held), fn, 'the order must be drawn from the generator of the thread', p)
                    cx.ob(shared, fn, 'the generator of the thread must be shared, or each race draws the same order', p)


def decls(n):
    if isinstance(n, dict):
        if n.get('s') == 'decl':
            yield from n.get('v') or ()
        for x in n.values():
            yield from decls(x)
    elif isinstance(n, list):
        for x in n:
            yield from decls(x)


@rule('P36')
def generator_belongs_to_its_thread(cx):
    """The generator used when none is given is one object that lasts, and that no other thread uses."""
    fn = cx.fn(PRNG)
    for p in cx.paths(fn):
        v = p.value
        at = v[1] if v is not None and v[0] in 'Lp' else None
        local = [d for d in decls(fn['body']) if at and at[0][0] == 'v' and d.get('id') == at[0][1]]
        cx.ob(not local, fn, 'the generator must outlive the call, or each race draws the same order', p)
    for d in decls(fn['body']):
        if d.get('static') and 'engine' in str(d.get('tc') or d.get('t')):
            cx.ob(d.get('tls') is True, fn, 'threads must not share the generator without synchronisation', None, line=d.get('l'))


def takes_generator(fn):
    t = str(fn['params'][0]['t'])
    return 'engine' in t or 'mt19937' in t or 'generator<' in t and 'std::' in t
