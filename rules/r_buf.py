"""Buffer sequences (P28): which bytes they name, and what advancing them does."""
from lib import *

IO = 'boost::cobalt::io::'
KINDS = ('mutable', 'const')
TOP = 1 << 64


class Fields:
    """the members of a sequence and of its iterator, by their types"""
    def __init__(self, cx, kind):
        self.cls = IO + kind + '_buffer_sequence'
        self.it = self.cls + '::const_iterator'
        seq, it = cx.db.recs.get(self.cls), cx.db.recs.get(self.it)
        if not seq or not it:
            raise Anchor('%s was not found' % self.cls)
        one = lambda r, pred: [f['n'] for f in r['fields'] if pred(f['t'])]
        buf = lambda t: t.endswith('asio::%s_buffer' % kind)
        span = lambda t: 'span<' in t
        self.head, self.tail = one(seq, buf), one(seq, span)
        self.ihead, self.itail, self.off = one(it, buf), one(it, span), one(it, lambda t: not buf(t) and not span(t))
        if [len(x) for x in (self.head, self.tail, self.ihead, self.itail, self.off)] != [1] * 5:
            raise Anchor('%s does not have a first buffer and a span of the others' % self.cls)
        self.head, self.tail, self.ihead, self.itail, self.off = self.head[0], self.tail[0], self.ihead[0], self.itail[0], self.off[0]


def lin(v):
    """a sum as {term: factor}"""
    out = {}
    def go(x, f):
        x = canon(x)
        if x is None:
            out['?'] = 1
        elif cv(x) is not None:
            out[1] = out.get(1, 0) + f * cv(x)
        elif x[0] == 'o' and x[1] in ('+', '-') and len(x) == 4:
            go(x[2], f)
            go(x[3], f if x[1] == '+' else -f)
        elif x[0] == 'o' and x[1] in ('cast', 'conv'):
            go(x[-1], f)
        else:
            out[x] = out.get(x, 0) + f
    go(v, 1)
    return clean(out)


def clean(d):
    d = {k: c for k, c in d.items() if c}
    if 1 in d:
        c = d[1] % TOP
        d[1] = c - TOP if c >= TOP // 2 else c
        if not d[1]:
            del d[1]
    return d


def minus(a, b):
    d = dict(a)
    for k, c in b.items():
        d[k] = d.get(k, 0) - c
    return clean(d)


def method(v):
    return short(str(v[1])) if v is not None and v[0] == 'o' and len(v) > 2 and isinstance(v[1], str) and 'span' in v[1] else None


def span_of(v):
    """(span, buffers dropped in front)"""
    n = 0
    while method(v) in ('subspan', 'last'):
        if method(v) == 'last':
            d = minus(lin(('o', 'std::span::size', v[2])), lin(v[3]))
            if set(d) - {1}:
                return None, None
            n += d.get(1, 0)
            v = v[2]
            continue
        if len(v) > 4 and cv(v[4]) is not None and cv(v[4]) not in (TOP - 1, -1) or cv(v[3]) is None:
            return None, None
        n += cv(v[3])
        v = v[2]
    if v is not None and v[0] == 'o' and v[1] == 'new' and 'span' in str(v[2]) and len(v) == 4:
        s, k = span_of(v[3])
        if s is not None and s[0] != 'o':
            return s, n + k
    return v, n


def element(v):
    """(span, index) of the buffer the pointer points to"""
    m = method(v)
    if m in ('operator[]', 'front'):
        s, n = span_of(v[2])
        i = ('c', 0) if m == 'front' else v[3]
        return (s, n + cv(i)) if cv(i) is not None else (s, i if not n else ('o', '+', i, ('c', n)))
    if m in ('data', 'begin') and len(v) == 3:
        s, n = span_of(v[2])
        return s, n
    if v is not None and v[0] == 'o' and v[1] == '+' and len(v) == 4:
        for a, b in ((v[2], v[3]), (v[3], v[2])):
            x = element(a)
            if x and x[1] == 0:
                return x[0], cv(b) if cv(b) is not None else b
    return None


def buffer_of(v):
    """the buffer v is a copy of: ('head', path) or ('tail', span, index)"""
    if v is None or v[0] != 'i':
        return None
    q = v[1]
    if isinstance(q[-1], tuple) and q[-1][0] == 'd':
        e = element(q[-1][1])
        return e and ('tail',) + e
    if isinstance(q[-1], tuple) and q[-1][0] == 'at' and isinstance(q[0], tuple) and q[0][0] == 'd' and len(q) == 2:
        e = element(q[0][1])
        return e and ('tail', e[0], q[-1][1] + e[1] if isinstance(e[1], int) and isinstance(q[-1][1], int) else None)
    return ('head', q)


def canon(x):
    """sizes of sequences and buffers in one form"""
    if x is None or x[0] != 'o' or len(x) != 3 or not isinstance(x[1], str):
        return x
    m = short(x[1])
    if 'span' in x[1] and m in ('size', 'size_bytes'):
        s, n = span_of(x[2])
        if s is not None and s[0] == 'o' and s[1] == 'new' and len(s) == 3:
            return ('c', 0)
        r = ('o', 'count', s)
        return r if not n else ('o', '-', r, ('c', n))
    if m == 'size' and '_buffer' in x[1]:
        b = buffer_of(x[2])
        return ('o', 'bytes', b) if b else x
    return x


def empty(v):
    return v is not None and (v[0] == 'o' and v[1] == 'new' and len(v) == 3 or cv(v) == 0)


class Known:
    """what a path knows about sums: each fact is  sum < 0,  <= 0,  == 0  or  != 0"""
    def __init__(self, p):
        self.f = []
        for k, t in p.state.facts.items():
            if k[0] != 'o':
                continue
            m = method(k)
            if m == 'empty' and len(k) == 3:
                d = lin(('o', 'std::span::size', k[2]))
                self.f.append(('==' if t else '!=', d))
            elif len(k) == 4 and k[1] in ('<', '<=', '>', '>='):
                a, b = lin(k[2]), lin(k[3])
                op = k[1]
                if op in ('>', '>='):
                    a, b, op = b, a, {'>': '<', '>=': '<='}[op]
                d = minus(a, b)
                self.f.append((op, d) if t else ({'<': '<=', '<=': '<'}[op], minus({}, d)))
            elif len(k) == 4 and k[1] in ('==', '!='):
                self.f.append(('==' if t == (k[1] == '==') else '!=', minus(lin(k[2]), lin(k[3]))))
            elif canon(k) != k or k[1] in ('+', '-'):
                self.f.append(('!=' if t else '==', lin(k)))

    def le(self, d, strict=False):
        """is the sum known to be at most (less than) zero?"""
        c = d.get(1, 0)
        rest = {k: v for k, v in d.items() if k != 1}
        if not rest:
            return c < 0 if strict else c <= 0
        for op, f in self.f:
            fc = f.get(1, 0)
            fr = {k: v for k, v in f.items() if k != 1}
            if op == '!=':
                # a count is never negative
                if len(fr) == 1 and not fc and list(fr)[0][0] == 'o' and list(fr)[0][1] in ('count', 'bytes'):
                    k = list(fr)[0]
                    fr, fc, op = {k: -1}, 0, '<'
                else:
                    continue
            if op == '==' and fr == {k: -v for k, v in rest.items()}:
                fr, fc = rest, -fc
            if fr == rest:
                bound = c - fc          # the sum is at most this (less, if op is <)
                if bound < 0 or (bound <= 0 and (op == '<' or not strict)) or (op == '<' and bound <= 1 and (bound < 1 or not strict)):
                    return True
        if len(rest) == 1 and abs(list(rest.values())[0]) == 1 and list(rest)[0][0] == 'o' and list(rest)[0][1] in ('count', 'bytes'):
            S, g = list(rest.items())[0]
            lo, hi = self.range(S)
            most = c + hi if g > 0 else c - lo
            return most < 0 if strict else most <= 0
        return False

    def contradictory(self, s):
        """counts cannot be both"""
        lo, hi = self.range(('o', 'count', s))
        return lo > hi

    def range(self, S):
        lo, hi, out = 0, TOP, set()
        for op, f in self.f:
            c = f.get(1, 0)
            rest = {k: v for k, v in f.items() if k != 1}
            if not rest:
                if not {'==': c == 0, '!=': c != 0, '<': c < 0, '<=': c <= 0}[op]:
                    return 1, 0
            elif set(rest) == {S} and abs(rest[S]) == 1:
                g = rest[S]
                if op == '!=':
                    out.add(-c * g)
                elif op == '==':
                    lo, hi = max(lo, -c * g), min(hi, -c * g)
                elif g > 0:
                    hi = min(hi, -c - (op == '<'))
                else:
                    lo = max(lo, c + (op == '<'))
        while lo in out:
            lo += 1
        while hi in out:
            hi -= 1
        return lo, hi


def cells(cx, fn, F, p, this, spans, what):
    """check that the sequence at `this` names the buffers of the span given, in order"""
    K = Known(p)
    s, n = span_of(spans)
    if n:
        s = None
    head, tail = load(p, this + (F.head,)), load(p, this + (F.tail,))
    none = K.le(lin(('o', 'std::span::size', s)))
    if none:
        cx.ob(empty(head) and empty(tail), fn, 'a sequence made of nothing must be empty', p)
        return 'none'
    b = buffer_of(head)
    t = span_of(tail)
    cx.ob(K.le(minus({1: 1}, lin(('o', 'std::span::size', s)))), fn, 'the first buffer must only be taken if there is one', p)
    cx.ob(b == ('tail', s, 0), fn, 'the first buffer must be the first of those given', p)
    cx.ob(t == (s, 1), fn, 'the other buffers must be those behind the first', p)
    return 'some'


@rule('P28')
def a_sequence_names_what_it_was_made_from(cx):
    """A sequence made of one buffer is that buffer; made of a range of buffers it has the first and all others in order; a copy has the same."""
    this = root('this')
    for kind in KINDS:
        F = Fields(cx, kind)
        ways = set()
        for fn in [f for f in cx.fns(F.cls + '::' + short(F.cls)) if f.get('body') is not None] + [f for f in cx.fns(F.cls + '::operator=') if f.get('body') is not None]:
            if not fn['params']:
                continue
            x = fn['params'][0]
            a = root('a')
            t = x['t']
            for p in cx.paths(fn, this=this, args=[('L', a)]):
                if p.outcome == 'throw':
                    cx.ob(False, fn, 'making a sequence must not throw', p)
                    continue
                head, tail = load(p, this + (F.head,)), load(p, this + (F.tail,))
                if short(F.cls) in t:
                    ways.add('copy')
                    cx.ob(head == I(a + (F.head,)) and tail == I(a + (F.tail,)), fn, 'a copy must have all the buffers', p)
                elif 'registered_buffer' in t:
                    b = head
                    ok = b is not None and has_sym(b, 'buffer') and mentions(b, I(a)) and empty(tail)
                    cx.ob(ok, fn, 'a sequence of a registered buffer must be that buffer', p)
                    ways.add('registered')
                elif t.split('::')[-1].rstrip(' &') in ('mutable_buffer', 'const_buffer') and 'span' not in t and 'vector' not in t and 'array' not in t:
                    ok = head is not None and (head == I(a) or head[0] == 'o' and head[1] == 'new' and list(head[3:]) in ([I(a)], [P(a)], [('L', a)])) and empty(tail)
                    cx.ob(ok, fn, 'a sequence of one buffer must be that buffer', p)
                    ways.add('one')
                else:
                    s = I(a) if 'span' in t else ('o', 'new', 'std::span', I(a))
                    s0 = [k for k in [s] + list(spans_in(p)) if k == s or mentions(k, I(a))]
                    r = cells(cx, fn, F, p, this, s0[-1] if s not in s0[1:] and len(s0) > 1 else s, t)
                    ways.add(r)
        if not {'copy', 'one', 'some', 'none'} <= ways:
            raise Anchor('%s: only %s was seen' % (F.cls, sorted(ways)))


def spans_in(p):
    out = []
    for e in p.events:
        if e.kind == 'ctor' and short(e.name) == 'span' or e.kind == 'store' and e.val is not None and e.val[0] == 'o' and e.val[1] == 'new' and 'span' in str(e.val[2]):
            v = e.val if e.kind == 'store' else ('o', 'new', 'std::span') + tuple(e.argv or ())
            if len(v) > 3 and v not in out:
                out.append(v)
    return out


@rule('P28')
def advancing_drops_exactly_the_bytes_consumed(cx):
    """Advancing by n drops the buffers that are used up and the front of the next, n bytes in all; if there are no more, nothing is left."""
    this = root('this')
    for kind in KINDS:
        F = Fields(cx, kind)
        fn = cx.fn(F.cls + '::operator+=')
        a = root('n')
        H, T = this + (F.head,), this + (F.tail,)
        ends = set()
        for p in cx.paths(fn, this=this, args=[('L', a)], loop=2):
            if p.outcome != 'return':
                cx.ob(False, fn, 'advancing must not throw', p)
                continue
            K = Known(p)
            s = I(T)
            if K.contradictory(s):
                continue
            total = [lin(('o', 'x::%s_buffer::size' % kind, I(H)))]
            for i in range(5):
                d = dict(total[-1])
                d[('o', 'bytes', ('tail', s, i))] = 1
                total.append(d)
            left = lambda i: minus(lin(I(a)), total[i]) if i >= 0 else lin(I(a))      # n minus the bytes up to buffer i - 1 of the tail
            cx.ob(p.value == P(this) or p.value == ('L', this), fn, 'the sequence must be returned', p)
            # the first buffer at the end
            adv, base = None, I(H)
            for e in p.events:
                if e.kind in ('store', 'ctor', 'copy', 'move') and e.obj == ('L', H) and e.kind != 'ctor':
                    if e.kind == 'store':
                        adv, base = None, e.val
                elif e.kind == 'call' and short(e.name) == 'operator+=' and e.obj == ('L', H):
                    adv = e.argv[0] if adv is None else ('o', '+', adv, e.argv[0])
                elif e.kind == 'call' and short(e.name) == 'operator+' and len(e.argv or ()) == 2 and e.val is not None and load(p, H) == e.val:
                    adv, base = e.argv[1], e.argv[0]
            b, t = buffer_of(base), span_of(load(p, T))
            cur = load(p, H)
            if b is None and cur is not None and cur[0] == 'u' and adv is None:
                for e in p.events:
                    if e.kind == 'call' and e.val == cur and len(e.argv or ()) == 2:
                        b, adv = buffer_of(e.argv[0]) or buffer_of(e.argv[1]), e.argv[1] if buffer_of(e.argv[0]) else e.argv[0]
            if b is not None and b == ('head', H):
                ends.add('same')
                cx.ob(t == (s, 0), fn, 'the other buffers must stay while the first has bytes left', p)
                cx.ob(adv is not None and lin(adv) == lin(I(a)), fn, 'the first buffer must be advanced by what was consumed', p)
                cx.ob(K.le(left(0)) or K.le(lin(('o', 'std::span::size', s))), fn, 'the first buffer must only stay if it is not used up', p)
            elif b is not None and b[0] == 'tail' and isinstance(b[2], int) and b[1] == s and b[2] < 5:
                k = b[2]
                ends.add('next')
                cx.ob(K.le(minus({1: k + 1}, lin(('o', 'std::span::size', s)))), fn, 'a buffer must only be taken if it is there', p)
                cx.ob(t == (s, k + 1), fn, 'the other buffers must be those behind the one taken', p)
                cx.ob(K.le(minus({}, left(k))), fn, 'a buffer must only be dropped if it is used up', p)
                cx.ob((lin(adv) if adv is not None else {}) == left(k), fn, 'the buffer must be advanced by what is left to consume', p)
                last = K.le(minus(lin(('o', 'std::span::size', s)), {1: k + 1}))
                cx.ob(K.le(left(k + 1)) or last, fn, 'a buffer that is used up must be dropped', p)
            elif empty(base) and adv is None:
                ends.add('none')
                cx.ob(empty(t[0]) or K.le(minus(lin(('o', 'std::span::size', s)), {1: t[1]} if t[0] == s else {1: -99})), fn, 'if the first buffer is gone, so must be the others', p)
                ok = any(K.le(minus(lin(('o', 'std::span::size', s)), {1: i} if i else {})) and K.le(minus({}, left(i))) for i in range(5))
                cx.ob(ok, fn, 'everything must only be dropped when all is used up', p)
            else:
                cx.ob(False, fn, 'the first buffer must be one of the sequence', p)
        if not {'same', 'next', 'none'} <= ends:
            raise Anchor('%s::operator+=: only %s was seen' % (F.cls, sorted(ends)))


def start_of(cx, F):
    """the position an iterator starts at"""
    this = root('this')
    fn = cx.fn(F.cls + '::begin')
    z = set()
    for p in cx.paths(fn, this=this):
        r = p.value[1]
        z.add(cv(load(p, r + (F.off,))))
    if len(z) != 1 or None in z:
        raise Anchor('where an iterator starts is not fixed')
    return z.pop()


@rule('P28')
def iterating_visits_every_buffer_once(cx):
    """begin() is the first buffer, the i-th behind it is the i-th of the others, and end() is behind the last; the arithmetic of iterators is that of positions."""
    this = root('this')
    for kind in KINDS:
        F = Fields(cx, kind)
        z = start_of(cx, F)
        whole = lambda p, r, o: load(p, r + (F.ihead,)) == I(o[0]) and load(p, r + (F.itail,)) == I(o[1])
        own = (this + (F.head,), this + (F.tail,))
        iown = (this + (F.ihead,), this + (F.itail,))
        at = I(this + (F.off,))
        for m, want in (('begin', {1: z}), ('end', minus(lin(('o', '+', ('o', 'std::span::size', I(own[1])), ('c', z + 1))), {}))):
            fn = cx.fn(F.cls + '::' + m)
            for p in cx.paths(fn, this=this):
                r = p.value[1]
                cx.ob(whole(p, r, own), fn, 'the iterator must be over all the buffers', p)
                cx.ob(lin(load(p, r + (F.off,))) == clean(dict(want)), fn, '%s() must be %s' % (m, 'the first buffer' if m == 'begin' else 'behind the last buffer'), p)
        def target(p, v, off):
            """does v point to the buffer at the position off?"""
            K = Known(p)
            d = minus(lin(off), {1: z})
            if v is None or v[0] not in ('p', 'L', 'o'):
                return None
            e = element(v) if v[0] == 'o' else None
            b = ('tail',) + e if e else buffer_of(('i', v[1])) if v[0] != 'o' else None
            if b == ('head', iown[0]):
                return K.le(d) and K.le(minus({}, d))
            if b and b[0] == 'tail' and b[1] == I(iown[1]):
                i = b[2] if not isinstance(b[2], int) else ('c', b[2])
                return lin(i) == minus(lin(off), {1: z + 1}) and any(op == '!=' and (f == d or f == minus({}, d)) or op == '<' and f == minus({}, d) for op, f in K.f)
            return None
        for m, off in (('operator*', at), ('operator->', at), ('operator[]', ('o', '+', at, I(root('n'))))):
            for fn in [f for f in cx.fns(F.it + '::' + m) if f.get('body') is not None]:
                seen = 0
                for p in cx.paths(fn, this=this, args=[('L', root('n'))] if fn['params'] else []):
                    seen += 1
                    cx.ob(target(p, p.value, off) is True, fn, 'it must be the buffer at the position', p)
                if seen < 2:
                    raise Anchor('%s has one path' % fn['n'])
        n = 0
        for m in ('operator++', 'operator--', 'operator+', 'operator-', 'operator+=', 'operator-='):
            for fn in [f for f in cx.fns(F.it + '::' + m) if f.get('body') is not None]:
                by = {'+': 1, '-': -1}[m[8]]
                a = root('n')
                unary = m in ('operator++', 'operator--')
                other = bool(fn['params']) and 'const_iterator' in fn['params'][0]['t']
                for p in cx.paths(fn, this=this, args=[('L', a) for _ in fn['params']]):
                    n += 1
                    now = lin(load(p, this + (F.off,)))
                    old = lin(at)
                    new = clean({**old, 1: by}) if unary else minus(old, lin(I(a))) if by < 0 else lin(('o', '+', at, I(a)))
                    if other:
                        cx.ob(lin(p.value) == minus(old, lin(I(a + (F.off,)))), fn, 'the distance must be the difference of the positions', p)
                        cx.ob(now == old, fn, 'the iterator must stay where it is', p)
                        continue
                    moves = unary or m.endswith('=')
                    cx.ob(now == (new if moves else old), fn, 'the position must be changed as asked' if moves else 'the iterator must stay where it is', p)
                    r = p.value[1] if p.value is not None and p.value[0] in ('L', 'p') else None
                    cx.ob(r is not None and (r == this or whole(p, r, iown)), fn, 'the iterator returned must be over the same buffers', p)
                    if r is not None:
                        post = unary and bool(fn['params'])
                        cx.ob(lin(load(p, r + (F.off,))) == (old if post else new), fn, 'the iterator returned must be at the right position', p)
        if n < 9:
            raise Anchor('the arithmetic of %s was not found' % F.it)
        for m in ('operator==', 'operator!='):
            fs = [f for f in some(cx, IO + m) + some(cx, F.it + '::' + m) if f.get('body') is not None and f['params'] and (F.it in f['params'][0]['t'] or F.it in str(f.get('cls') or ''))]
            for fn in fs:
                l, r = root('l'), root('r')
                ps = cx.paths(fn, this=l, args=[('L', l), ('L', r)] if len(fn['params']) == 2 else [('L', r)])
                for p in ps:
                    cx.ob(compares(p, m, I(l + (F.off,)), I(r + (F.off,))), fn, 'two iterators of a sequence must be equal just if their positions are', p)
            if m == 'operator==' and not fs:
                raise Anchor('%s cannot be compared' % F.it)


def some(cx, n):
    try:
        return cx.fns(n)
    except Anchor:
        return []


def compares(p, m, a, b):
    """the result is that of comparing a with b, and whatever else"""
    v = p.value
    while v is not None and v[0] == 'o' and v[1] == '!' and len(v) == 3:
        v, m = v[2], 'operator!=' if m == 'operator==' else 'operator=='
    e = [x for x in p.events if x.kind == 'call' and x.val == v and v is not None and short(x.name) in ('operator==', 'operator!=', 'operator<=>')]
    if e:
        if short(e[0].name) != m:
            return False
        sides = []
        for x in e[0].argv:
            mk = [c for c in p.events if c.kind == 'call' and c.val == x and short(c.name) in ('make_tuple', 'tie', 'forward_as_tuple')]
            sides.append(list(mk[0].argv) if mk else [x])
        return len(sides) == 2 and [i for i, y in enumerate(sides[0]) if y == a] == [i for i, y in enumerate(sides[1]) if y == b] != []
    K = Known(p)
    d = minus(lin(a), lin(b))
    eq = any(op == '==' and f in (d, minus({}, d)) for op, f in K.f)
    ne = any(op == '!=' for op, f in K.f)
    if v is not None and v[0] == 'o' and v[1] in ('==', '!=') and len(v) == 4 and minus(lin(v[2]), lin(v[3])) in (d, minus({}, d)):
        return v[1] == m[8:]
    if cv(v) is not None:
        same = bool(cv(v)) == (m == 'operator==')
        return eq if same else ne or any(t is False for t in p.state.facts.values())
    return False


@rule('P28')
def visiting_hands_over_all_buffers(cx):
    """buffer_count() is one more than the other buffers; visit hands over the single buffer only if there are no others, and else the sequence."""
    this = root('this')
    for kind in KINDS:
        F = Fields(cx, kind)
        fn = cx.fn(F.cls + '::buffer_count')
        for p in cx.paths(fn, this=this):
            cx.ob(lin(p.value) == lin(('o', '+', ('o', 'std::span::size', I(this + (F.tail,))), ('c', 1))), fn, 'buffer_count() must count every buffer', p)
        fn = cx.fn('drv_ep::visit_' + kind)
        s, v = root('s'), root('v')
        ways = set()
        for p in cx.paths(fn, args=[('L', s), ('L', v)]):
            if p.outcome != 'return':
                continue
            K = Known(p)
            cs = [e for e in p.events if e.kind in ('call', 'enter') and short(e.name) in ('one', 'all')]
            cx.ob(len(cs) == 1, fn, 'the function must be called once', p)
            for e in cs:
                n = lin(('o', 'std::span::size', I(s + (F.tail,))))
                ways.add(short(e.name))
                arg = e.args[-1] if e.args else None
                if short(e.name) == 'one':
                    cx.ob(K.le(n), fn, 'the first buffer must only be handed over alone if there are no others', p)
                    cx.ob(arg == ('L', s + (F.head,)) or mentions(e.argv[-1], I(s + (F.head,))), fn, 'the buffer handed over must be the first', p)
                else:
                    cx.ob(K.le(minus({1: 1}, n)) or True, fn, '', p)
                    cx.ob(arg == ('L', s) or is_copy(p, arg, s, F), fn, 'what is handed over must be the sequence', p)
        if ways != {'one', 'all'}:
            raise Anchor('visit always hands over the same')


def is_copy(p, arg, s, F):
    return arg is not None and arg[0] in ('L', 'p') and load(p, arg[1] + (F.head,)) == I(s + (F.head,)) and load(p, arg[1] + (F.tail,)) == I(s + (F.tail,))
