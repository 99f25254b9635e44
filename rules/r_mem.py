"""Memory of coroutine frames and of handlers (P21)."""
from lib import *
from r_slot import value_of_path

T_ = root('this')


def lin(v, f=1, out=None):
    """an integer or pointer value as a sum: {term: factor}, constants under 1"""
    out = {} if out is None else out
    c = cv(v)
    if c is not None:
        out[1] = out.get(1, 0) + f * c
    elif v[0] == 'o' and v[1] in ('+', '-') and len(v) == 4:
        lin(v[2], f, out)
        lin(v[3], f if v[1] == '+' else -f, out)
    elif v[0] == 'o' and v[1] == '*' and len(v) == 4 and (cv(v[2]) is not None or cv(v[3]) is not None):
        a, b = (v[2], v[3]) if cv(v[3]) is not None else (v[3], v[2])
        lin(a, f * cv(b), out)
    elif v[0] == 'o' and v[1] == '<<' and len(v) == 4 and cv(v[3]) is not None:
        lin(v[2], f << cv(v[3]), out)
    else:
        out[v] = out.get(v, 0) + f
    return {k: n for k, n in out.items() if n}


def add(a, b, f=1):
    out = dict(a)
    for k, n in b.items():
        out[k] = out.get(k, 0) + f * n
    return {k: n for k, n in out.items() if n}


def size_of(p, v, steps, f=1):
    """a pointer value in bytes from its base: pointer steps are scaled by the size of what is stepped over"""
    for e in steps:
        if e.val == v:
            a, b = e.argv
            sign = -1 if v[1] == '-' else 1
            if v[1] == '+' and a != v[2] and b != v[2]:
                return lin(v)
            return add(size_of(p, a, steps), {k: n * e.extra for k, n in lin(b).items()}, sign)
    # (x + c1) + c2 of the same width were added up
    if v[0] == 'o' and v[1] in ('+', '-') and len(v) == 4 and cv(v[3]) is not None:
        w = {e.extra for e in steps if e.argv and (e.argv[0] == v[2] or e.val == v[2])}
        if len(w) == 1:
            n = w.pop()
            return add(size_of(p, v[2], steps), {1: cv(v[3]) * n}, -1 if v[1] == '-' else 1)
    return lin(v)


def fraction(p, size, unit):
    """upper bound of size - unit * (size / unit) on this path"""
    r = ('o', '%', size, ('c', unit))
    for k, t in p.state.facts.items():
        if k == r and t is False or k == ('o', '<', ('c', 0), r) and t is False or k == ('o', '==', ('c', 0), r) and t or k == ('o', '==', r, ('c', 0)) and t:
            return 0
    return unit - 1


def at_least(p, a, b, size):
    """a >= b for sums over size and size / U"""
    d = add(a, b, -1)
    lo = d.get(1, 0)
    k = d.get(size, 0)
    q = [(t, n) for t, n in d.items() if t not in (1, size)]
    if not q:
        return k >= 0 and lo >= 0
    if len(q) != 1 or q[0][0][0] != 'o' or q[0][0][1] != '/' or q[0][0][2] != size or cv(q[0][0][3]) is None:
        return None
    u, n = cv(q[0][0][3]), q[0][1]
    # size = u * q + r with 0 <= r <= fraction
    m = n + k * u
    if m < 0:
        return False
    return lo + (k * fraction(p, size, u) if k < 0 else 0) >= 0


def frames_of(cx):
    """classes of the library that manage the memory of their coroutines: [(class, [operator new], [operator delete])]"""
    by = {}
    for f in cx.db.fns.values():
        if f['n'].startswith('boost::cobalt::') and short(f['n']) in ('operator new', 'operator delete') and 'body' in f:
            by.setdefault(f.get('cls'), ([], []))[short(f['n']) == 'operator delete'].append(f)
    return sorted(by.items(), key=lambda x: str(x[0]))


def is_alloc(e, what):
    return e.kind == 'call' and short(e.name) == what and not e.name.startswith('boost::cobalt::')


def source_of(e):
    """what an allocation or release is asked of"""
    if 'allocator_traits' in e.name:
        return e.argv[0]
    return e.obj


def plain(e):
    a = list(e.argv or [])
    return a[1:] if 'allocator_traits' in e.name else a


def width(p, e, steps):
    if 'allocator_traits' not in e.name:
        return 1
    w = {s.extra for s in steps if s.argv and mentions(s.val, e.val)}
    return w.pop() if len(w) == 1 else None


def globals_in(x, cls, out):
    """variables with static or thread storage in a value, apart from the class's own"""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'g' and isinstance(x[1], str):
            if not x[1].startswith('%s::' % cls):
                out.add(x)
        else:
            for y in x:
                globals_in(y, cls, out)
    return out


@rule('P21')
def frame_memory_goes_back_where_it_came_from(cx):
    """operator delete of a coroutine releases exactly the block operator new obtained: to the resource or allocator it came from, the same
    address and the same size. The frame fits into the block, apart from what is noted next to it."""
    S = I(root('size'))
    n = 0
    for cls, (news, dels) in frames_of(cx):
        if not news:
            continue
        for nw in news:
            args = [S] + [('L', root('a%d' % i)) for i in range(1, len(nw['params']))]
            for p in cx.paths(nw, args=args):
                al = [e for e in p.events if is_alloc(e, 'allocate')]
                if p.outcome != 'return':
                    continue
                cx.ob(len(al) == 1, nw, 'the memory of a frame must be obtained exactly once', p)
                if len(al) != 1:
                    continue
                n += 1
                al = al[0]
                steps = [e for e in p.events if e.kind == 'step']
                w = width(p, al, steps)
                if w is None:
                    raise Anchor('size of an allocation of %s' % nw['q'])
                total = {k: x * w for k, x in lin(plain(al)[0]).items()}
                v = p.value if p.value[0] != 'L' else load(p, p.value[1])
                off = add(size_of(p, v, steps), {al.val: 1}, -1)
                cx.ob(set(off) <= {1}, nw, 'the frame must lie in the memory obtained for it', p)
                off = off.get(1, 0)
                cx.ob(off % 16 == 0, nw, 'the frame must be aligned', p)
                end = at_least(p, total, add({1: off}, {S: 1}), S)
                if end is None:
                    raise Anchor('layout of the frame in %s' % nw['q'])
                cx.ob(end, nw, 'the frame must fit into the memory obtained for it', p)
                for e in p.events:
                    if e.kind in ('store', 'new') and e.obj and e.obj[0] == 'L' and e.obj[1] and e.obj[1][0][0] == 'd' and mentions(e.obj[1][0][1], al.val):
                        at = add(size_of(p, e.obj[1][0][1], steps), {al.val: 1}, -1)
                        sz = e.extra if e.kind == 'new' and isinstance(e.extra, int) else 8
                        if set(at) <= {1} and at.get(1, 0) < off:
                            cx.ob(at.get(1, 0) + sz <= off and at.get(1, 0) >= 0, nw, 'what is noted next to a frame must not overlap it', p)
                        else:
                            b, c = at_least(p, at, add({1: off}, {S: 1}), S), at_least(p, total, add(at, {1: sz}), S)
                            if b is None or c is None:
                                raise Anchor('layout of the frame in %s' % nw['q'])
                            cx.ob(b, nw, 'what is noted next to a frame must not overlap it', p)
                            cx.ob(c, nw, 'what is noted next to a frame must fit into the memory obtained for it', p)
                # the defaults of the thread may be replaced while the coroutine runs
                later = {(g,): ('u', 'later', g[1]) for g in globals_in(al.obj, cls, set())}
                for de in dels:
                    dargs = [v] + [S] * (len(de['params']) - 1)
                    for q in cx.paths(de, args=dargs, state=p.state, seed=later):
                        rel = [e for e in q.events if is_alloc(e, 'deallocate')]
                        if not rel and monotonic(cx, al):
                            continue
                        cx.ob(len(rel) == 1, de, 'the memory of a frame must be released exactly once', q)
                        if len(rel) != 1:
                            continue
                        rel = rel[0]
                        cx.ob(source_of(rel) == source_of(al), de, 'the memory of a frame must be released to where it came from', q)
                        ptr, sz = plain(rel)[:2]
                        st2 = steps + [e for e in q.events if e.kind == 'step']
                        cx.ob(size_of(q, ptr, st2) == {al.val: 1}, de, 'the block that was obtained must be released', q)
                        cx.ob(lin(sz) == lin(plain(al)[0]), de, 'the memory of a frame must be released with the size it was obtained with', q)
                        cx.ob(plain(rel)[2:] == plain(al)[1:], de, 'the memory of a frame must be released with the alignment it was obtained with', q)
    if not n:
        raise Anchor('no operator new of a coroutine')


def monotonic(cx, e):
    """the allocation comes from a resource that releases everything at its end"""
    if e.obj is None or e.obj[0] != 'L' or not isinstance(e.obj[1][-1], str):
        return False
    return any(f['n'] == e.obj[1][-1] and 'monotonic' in f['t'] for r in cx.db.recs.values() for f in r.get('fields', []))


@rule('P21')
def frames_use_the_allocator_of_their_arguments(cx):
    """The memory of a coroutine comes from the allocator given after std::allocator_arg, otherwise from the resource of the thread."""
    for name in ('detail::get_memory_resource_from_args', 'detail::get_memory_resource_from_args_global'):
        for fn in cx.fns(name, need=0):
            ts = [q['t'] for q in fn['params']]
            i = next((k for k, t in enumerate(ts) if 'allocator_arg_t' in t), None)
            for p in cx.paths(fn, args=[('L', root('a%d' % k)) for k in range(len(ts))]):
                v = value_of_path(p)
                if i is None:
                    cx.ob(not any(mentions(v, I(root('a%d' % k))) for k in range(len(ts))) and has_sym(v, 'default'), fn, 'without an allocator the default resource must be used', p)
                else:
                    cx.ob(mentions(v, I(root('a%d' % (i + 1)))), fn, 'the resource of the given allocator must be used', p)


SB = ('buffer_',)


def known(p, op, d):
    """truth of `x op y` for some x - y = d, None when the path did not ask"""
    for k, t in p.state.facts.items():
        if k[0] == 'o' and len(k) == 4 and k[1] == op:
            e = add(lin(k[2]), lin(k[3]), -1)
            if e == d or op == '==' and add(e, d) == {}:
                return t
        if op == '==' and k[0] in ('o', 'i') and lin(k) == d and not (k[0] == 'o' and k[1] in ('<', '==')):
            return not t
    return None


def rounded(p, d, size):
    """d is size, rounded up to 16"""
    r = ('o', '%', size, ('c', 16))
    if d == {size: 1}:
        return fraction(p, size, 16) == 0
    if d == {size: 1, 1: 16, r: -1}:
        return fraction(p, size, 16) != 0
    return None


def upstream_calls(p, what):
    return [e for e in p.events if e.kind == 'call' and short(e.name) == what and e.obj is not None and has_sym(e.obj, 'upstream')]


@rule('P21')
def the_small_buffer_hands_out_each_byte_once(cx):
    """The small buffer of an operation hands out aligned pieces that lie inside of it and behind the ones in use, otherwise asks upstream; what
    is released goes back to where it came from, and a hole in the middle stops further use of the buffer."""
    cls = 'detail::sbo_resource::'
    B = {n: T_ + ('buffer_', n) for n in ('p', 'avail', 'size', 'fragmented')}
    V = {n: I(x) for n, x in B.items()}
    S, A = I(root('size')), I(root('align'))
    for fn in cx.fns(cls + 'do_allocate'):
        for p in cx.paths(fn, this=T_, args=[S, A]):
            up = upstream_calls(p, 'allocate')
            v = value_of_path(p)
            took = add(lin(V['avail']), lin(load(p, B['avail'])), -1)
            if up:
                cx.ob(len(up) == 1 and v == up[0].val and list(up[0].argv)[:2] == [S, A], fn, 'what does not fit must be obtained upstream, unchanged', p)
                cx.ob(not took, fn, 'the buffer must not change when memory comes from upstream', p)
                continue
            r = rounded(p, took, S)
            if r is None:
                raise Anchor('how much of the buffer is taken')
            cx.ob(r, fn, 'as much of the buffer must be taken as is handed out, rounded up to the alignment', p)
            cx.ob(known(p, '<', add(lin(V['avail']), took, -1)) is False or known(p, '<', add(took, lin(V['avail']), -1)) is True, fn, 'the buffer must have room for what is handed out', p)
            cx.ob(fact(p, V['fragmented']) is False, fn, 'a buffer with holes must not be used', p)
            cx.ob(lin(v) == {V['p']: 1, V['size']: 1, V['avail']: -1}, fn, 'memory must be handed out behind what is in use', p)
            cx.ob(known(p, '<', {1: 16, A: -1}) is False or known(p, '<', {A: 1, 1: -16}) is True or known(p, '==', {A: 1, 1: -16}) is True or known(p, '<', {A: 1, 1: -17}) is True, fn,
                  'memory with an alignment the buffer does not have must not be handed out of it', p)
            cx.ob(load(p, B['size']) == V['size'] and load(p, B['p']) == V['p'], fn, 'the buffer itself must not change', p)
    PT = I(root('p'))
    for fn in cx.fns(cls + 'do_deallocate'):
        for p in cx.paths(fn, this=T_, args=[PT, S, A]):
            up = upstream_calls(p, 'deallocate')
            below = known(p, '<', add({PT: 1}, {V['p']: 1}, -1))
            inside_end = known(p, '<', add({PT: 1}, {V['p']: 1, V['size']: 1}, -1))
            gave = add(lin(load(p, B['avail'])), lin(V['avail']), -1)
            if up:
                cx.ob(below is True or inside_end is False, fn, 'memory of the buffer must not be released upstream', p)
                cx.ob(len(up) == 1 and list(up[0].argv)[:3] == [PT, S, A], fn, 'what came from upstream must be released there, unchanged', p)
                cx.ob(not gave and load(p, B['fragmented']) == V['fragmented'], fn, 'the buffer must not change when memory goes back upstream', p)
                continue
            cx.ob(below is False and inside_end is True, fn, 'only memory of the buffer may be returned to it', p)
            r = rounded(p, gave, S)
            if r is None:
                raise Anchor('how much of the buffer is returned')
            cx.ob(r, fn, 'as much must be returned to the buffer as was taken', p)
            last = known(p, '==', add({V['p']: 1, V['size']: 1, V['avail']: -1}, add({PT: 1}, gave), -1))
            full = known(p, '==', add(add({V['avail']: 1}, gave), {V['size']: 1}, -1))
            fr = load(p, B['fragmented'])
            t = fact(p, fr)
            was = fact(p, V['fragmented'])
            if full is not True:
                if last is not True:
                    cx.ob(t is True, fn, 'a hole in the buffer must be noted', p)
                else:
                    cx.ob(t is True or fr == V['fragmented'] or was is False, fn, 'a hole in the buffer must not be forgotten', p)
            cx.ob(load(p, B['size']) == V['size'] and load(p, B['p']) == V['p'], fn, 'the buffer itself must not change', p)
    for fn in cx.fns(cls + 'do_is_equal'):
        for p in cx.paths(fn, this=T_, args=[('L', root('other'))]):
            v = value_of_path(p)
            cx.ob(v[0] == 'o' and v[1] == '==' and {v[2], v[3]} == {P(T_), P(root('other'))} or cv(v) == 0, fn, 'only the same buffer can take memory back', p)
    BP, N = I(root('buffer')), I(root('bsize'))
    for fn in cx.fns(cls + 'sbo_resource'):
        if len(fn['params']) < 2:
            continue
        for p in cx.paths(fn, this=T_, args=[BP, N] + [I(root('upstream'))] * (len(fn['params']) - 2)):
            q, n, a = (lin(load(p, B[k])) for k in ('p', 'size', 'avail'))
            r = ('o', '%', BP, ('c', 16))
            d = add(q, {BP: 1}, -1)
            if d == {}:
                cx.ob(fraction(p, BP, 16) == 0, fn, 'the buffer must be aligned', p)
            else:
                cx.ob(d == {1: 16, r: -1}, fn, 'the buffer must be aligned', p)
            cx.ob(n == a and (n == {} or n == add({N: 1}, d, -1)), fn, 'the buffer must not be larger than what is left of it', p)
            if n != {}:
                cx.ob(d == {} or known(p, '<', add(d, {N: 1}, -1)) is True or known(p, '<', add({N: 1}, d, -1)) is False, fn, 'the buffer must not be larger than what is left of it', p)
            cx.ob(fact(p, load(p, B['fragmented'])) is False, fn, 'a new buffer has no holes', p)
            cx.ob(load(p, T_ + ('upstream_',)) == I(root('upstream')), fn, 'the given upstream resource must be used', p)
