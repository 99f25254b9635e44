"""Endpoints (P26): what drivers/ep.cpp makes and reads through the public interface."""
import re
from lib import *

IO = 'boost::cobalt::io::'
LONG = ('host_to_network_long', 'network_to_host_long', 'htonl', 'ntohl', 'native_to_big', 'big_to_native', 'endian_reverse', '__bswap_32', '__builtin_bswap32', '__builtin_bswap16', '__bswap_16',
        'host_to_network_short', 'network_to_host_short', 'htons', 'ntohs')
AF = {'v4': 2, 'v6': 10, 'local': 1}
SIZES = {'v4': 16, 'v6': 28}
FIELDS = {'v4': ('sin_family', 'sin_port'), 'v6': ('sin6_family', 'sin6_port')}
PROTOCOLS = {   # family, type, protocol of Linux
    'ip': (0, 0, 0), 'ip_v4': (2, 0, 0), 'ip_v6': (10, 0, 0), 'tcp': (0, 1, 6), 'tcp_v4': (2, 1, 6), 'tcp_v6': (10, 1, 6), 'udp': (0, 2, 17), 'udp_v4': (2, 2, 17), 'udp_v6': (10, 2, 17),
    'icmp': (0, None, 1), 'local_stream': (1, 1, 0), 'local_datagram': (1, 2, 0), 'local_seqpacket': (1, 5, 0), 'local_protocol': (1, 0, 0),
    'sctp': (0, 5, 132), 'sctp_v4': (2, 5, 132), 'sctp_v6': (10, 5, 132)}
OF = {'make_v4_number': 'tcp_v4', 'make_v4_text': 'udp_v4', 'make_v6_bytes': 'tcp_v6', 'make_v6_text': 'udp_v6', 'make_any_text': 'tcp', 'make_local': 'local_seqpacket'}


def drv(cx, name, **kw):
    fn = cx.fn('drv_ep::' + name)
    R = {x['n']: root(x['n']) for x in fn['params']}
    return fn, R, cx.paths(fn, args=[('L', R[x['n']]) for x in fn['params']], loop=20, **kw)


def made_by(p, v):
    """the call that gave v"""
    for e in p.events:
        if e.kind == 'call' and e.val == v and e.val is not None:
            return e
    return None


def network(p, v):
    """(value, whether its bytes are swapped)"""
    swapped = False
    while True:
        while v is not None and v[0] == 'o' and v[1] in ('cast', 'conv') and len(v) > 2:
            v = v[-1]
        e = made_by(p, v)
        if e is None or short(e.name) not in LONG or not e.argv:
            if v is not None and v[0] == 'o' and short(str(v[1])) in LONG and len(v) == 3:
                v, swapped = v[2], not swapped
                continue
            return v, swapped
        v, swapped = e.argv[0], not swapped


def text(v, sv, p):
    """is v the whole text sv?"""
    s = I(sv)
    for _ in range(8):
        if v == s:
            return True
        if v is None or v[0] not in ('o', 'u', 'p', 'i', 'L'):
            return False
        if v[0] == 'o' and v[1] == 'new':
            a = list(v[3:])
            if len(a) == 1:
                v = a[0]
                continue
            f = [member(x, s) for x in a[:2]]
            return f in (['begin', 'end'], ['cbegin', 'cend'], ['data', 'size'], ['data', 'length'])
        if v[0] == 'o' and short(str(v[1])) in ('c_str', 'data', 'to_string', 'str') and len(v) == 3:
            v = v[2]
            continue
        e = made_by(p, v)
        if e is not None and short(e.name) in ('c_str', 'data') and e.obj is not None and e.obj[0] == 'L':
            v = value_at(p, e, e.obj[1])
            continue
        return False
    return False


def member(v, of):
    return short(str(v[1])) if v is not None and v[0] == 'o' and len(v) == 3 and v[2] == of else None


def value_at(p, ev, path):
    """what the last store before the event put at the path"""
    out = None
    for e in p.events:
        if e is ev:
            break
        if e.kind in ('store', 'ctor') and e.obj == ('L', path) and e.val is not None:
            out = e.val
    return out if out is not None else load(p, path)


def place(p, v, before=None):
    """(what is pointed into, index)"""
    if v is None:
        return None
    if v[0] == 'p':
        last = v[1][-1] if v[1] else None
        if isinstance(last, tuple) and last[0] == 'at':
            return v[1][:-1], last[1]
        return v[1], 0
    if v[0] == 'o' and v[1] == 'it':
        b = place(p, v[2], before)
        return b and (b[0], cv(v[3]) if cv(v[3]) is not None else v[3])
    if v[0] == 'o' and v[1] == 'itend':
        b = place(p, v[2], before)
        return b and (b[0], 'end')
    if v[0] == 'o' and v[1] == '+' and len(v) == 4:
        for a, b in ((v[2], v[3]), (v[3], v[2])):
            x = place(p, a, before)
            if x is not None:
                return x[0], (x[1] + cv(b) if cv(b) is not None and isinstance(x[1], int) else b if x[1] == 0 else ('o', '+', x[1], b))
        return None
    if v[0] == 'o' and len(v) == 3 and short(str(v[1])) in ('begin', 'end', 'data', 'cbegin', 'cend'):
        return ('of', v[2]), ('end' if short(str(v[1])) in ('end', 'cend') else 0)
    for c in (copies(p) if before is None else before):
        if c['e'].val == v and short(c['e'].name) in ('copy', 'copy_n', 'fill_n'):
            return (c['to'][0], c['to'][1] + c['n'] if isinstance(c['n'], int) and isinstance(c['to'][1], int) else 'end') if c['to'] else None
    return None


def copies(p):
    """the block copies and fills of the path"""
    out = []
    for e in p.events:
        if e.kind != 'call' or short(e.name) not in ('copy', 'copy_n', 'memcpy', 'memmove', 'fill_n', 'fill', 'memset', '__builtin_memcpy') or len(e.argv or ()) < 3:
            continue
        n, a = short(e.name), list(e.argv)
        if n == 'copy':
            f, l, t = place(p, a[0], out), place(p, a[1], out), plc(out, p, a[2])
            k = l[1] - f[1] if f and l and f[0] == l[0] and isinstance(f[1], int) and isinstance(l[1], int) else 'all' if f and l and f[0] == l[0] and f[1] == 0 and l[1] == 'end' else \
                l[1] if f and l and f[0] == l[0] and f[1] == 0 else None
        elif n == 'copy_n':
            f, k, t = place(p, a[0], out), cv(a[1]) if cv(a[1]) is not None else a[1], plc(out, p, a[2])
        elif n in ('memcpy', 'memmove', '__builtin_memcpy'):
            f, k, t = place(p, a[1], out), cv(a[2]) if cv(a[2]) is not None else a[2], plc(out, p, a[0])
        elif n == 'fill_n':
            f, k, t = ('fill', a[2]), cv(a[1]), plc(out, p, a[0])
        elif n == 'memset':
            f, k, t = ('fill', a[1]), cv(a[2]), plc(out, p, a[0])
        else:
            f, l, t = ('fill', a[2]), place(p, a[1], out), plc(out, p, a[0])
            k = l[1] - t[1] if l and t and isinstance(l[1], int) and isinstance(t[1], int) else 'all' if l and l[1] == 'end' else None
        out.append({'e': e, 'from': f, 'to': t, 'n': k})
    return out


def plc(before, p, v):
    for c in before:
        if c['e'].val == v:
            return (c['to'][0], c['to'][1] + c['n'] if isinstance(c['n'], int) and isinstance(c['to'][1], int) else 'end') if c['to'] else None
    return place(p, v, before)


def bound(p, v, lower):
    """what the facts of the path say v is at least / at most"""
    out = None
    for k, t in p.state.facts.items():
        if k[0] != 'o' or len(k) != 4 or k[1] not in ('<', '<=', '==', '>', '>='):
            continue
        op, a, b = k[1], k[2], k[3]
        if op in ('>', '>='):
            op, a, b = {'>': '<', '>=': '<='}[op], b, a
        if b == v and cv(a) is not None:
            c, v_right = cv(a), True
        elif a == v and cv(b) is not None:
            c, v_right = cv(b), False
        else:
            continue
        if op == '==':
            if t:
                return c
            continue
        lo = c + (op == '<') if v_right and t else c + (op == '<=') if not v_right and not t else None
        hi = c - (op == '<=') if v_right and not t else c - (op == '<') if not v_right and t else None
        if v_right and not t:       # not (c < v): v <= c;  not (c <= v): v < c
            hi = c if op == '<' else c - 1
        if not v_right and not t:   # not (v < c): v >= c;  not (v <= c): v > c
            lo = c if op == '<' else c + 1
        if lower and lo is not None:
            out = lo if out is None else max(out, lo)
        if not lower and hi is not None:
            out = hi if out is None else min(out, hi)
    return out


def storage(cx):
    """the members of the storage of an endpoint, which share one address"""
    for k, r in cx.db.recs.items():
        if str(k).startswith('boost::cobalt::io::endpoint::(anonymous union'):
            return [f['n'] for f in r['fields']]
    raise Anchor('the storage of endpoint was not found')


def shown(p, R, f):
    return load(p, (('d', I(R['s'])), f))


def raw(p, cx, R):
    """where the address was put, with what kind"""
    e = [x for x in p.events if x.kind == 'new' and x.name.startswith('sockaddr')]
    if len(e) != 1 or e[0].obj is None:
        return None, None
    u = e[0].obj[1]
    w = (('d', I(R['w'])),)
    return (u if u[:-1] == w and u[-1] in storage(cx) else None), {'sockaddr_in': 'v4', 'sockaddr_in6': 'v6', 'sockaddr_un': 'local'}.get(e[0].name)


def check_common(cx, fn, p, R, name, kind, u):
    w = (('d', I(R['w'])),)
    f, t, pr = PROTOCOLS[OF[name]]
    d = shown(p, R, 'data')
    cx.ob(d is not None and d[0] == 'p' and d[1][:-1] == w and d[1][-1] in storage(cx), fn, 'data() must point to the address', p)
    cx.ob(cv(shown(p, R, 'type')) == t and cv(shown(p, R, 'protocol')) == pr, fn, 'the type and protocol must be those asked for', p)
    if kind in SIZES:
        cx.ob(cv(shown(p, R, 'size')) == SIZES[kind], fn, 'size() must be that of the address', p)
        fam, port = FIELDS[kind]
        cx.ob(cv(load(p, u + (fam,))) == AF[kind], fn, 'the family stored must be the one asked for', p)
        v, sw = network(p, load(p, u + (port,)))
        cx.ob(v == I(R['n']) and sw, fn, 'the port must be stored in network byte order', p)


def check_v4(cx, fn, p, u, R, parsers):
    v = load(p, u + ('sin_addr', 's_addr'))
    if parsers is None:
        return cx.ob(v == I(R['a']), fn, 'the address must be stored as it was given, as addr() returns it', p)
    core, sw = network(p, v)
    if core is not None and core[0] == 'o' and short(str(core[1])) in ('to_uint', 'to_ulong') and sw:
        return cx.ob(parsed(p, core[2], R, parsers), fn, 'the address stored must be the one the text says', p)
    cs = [c for c in copies(p) if c['to'] and c['to'][0][:len(u) + 1] == u + ('sin_addr',)]
    ok = len(cs) == 1 and cs[0]['n'] == 4 and cs[0]['to'][1] == 0 and cs[0]['from'] and cs[0]['from'][1] == 0 and octets(p, cs[0], R, parsers)
    cx.ob(ok, fn, 'the address stored must be the one the text says, in network byte order', p)


def octets(p, c, R, parsers):
    b = c['from'][0]
    v = b[1] if b[0] == 'of' else value_at(p, c['e'], b)
    return v is not None and v[0] == 'o' and short(str(v[1])) == 'to_bytes' and parsed(p, v[2], R, parsers)


def parsed(p, v, R, parsers):
    while v is not None and v[0] == 'o' and short(str(v[1])) in ('to_v4', 'to_v6') and len(v) == 3:
        v = v[2]
    e = made_by(p, v)
    return e is not None and short(e.name) in parsers and text(e.argv[0], R['a'], p)


def byte_at(v):
    """the index of the byte v is read from"""
    if v is None or v[0] not in ('i', 'o'):
        return None
    if v[0] == 'i':
        k = v[1][-1]
        if isinstance(k, tuple) and k[0] == 'at':
            return k[1]
        if isinstance(k, tuple) and k[0] == 'd':
            return byte_at(k[1])
        return None
    if short(str(v[1])) in ('operator[]', 'at') and len(v) == 4:
        return cv(v[3])
    return byte_at(v[-1]) if v[1] in ('cast', 'conv') else None


def check_v6(cx, fn, p, u, R, parsers):
    scope = load(p, u + ('sin6_scope_id',))
    if parsers is None:
        cx.ob(cv(scope) == 0, fn, 'an address without a scope must not get one', p)
    else:
        cx.ob(scope is not None and scope[0] == 'o' and short(str(scope[1])) == 'scope_id' and parsed(p, scope[2], R, parsers), fn, 'the scope of the address must be stored', p)
    a = u + ('sin6_addr',)
    cs = [c for c in copies(p) if c['to'] and c['to'][0][:len(a)] == a]
    if cs:
        c = cs[0]
        whole = c['n'] == 16 or c['n'] == 'all'
        ok = len(cs) == 1 and whole and c['to'][1] == 0 and bool(c['from']) and c['from'][1] == 0
        cx.ob(ok, fn, 'all 16 bytes of the address must be stored', p)
        if ok:
            src = c['from'][0]
            cx.ob(src == ('of', I(R['a'])) if parsers is None else octets(p, c, R, parsers), fn, 'the address stored must be the one given', p)
    else:
        got = {k[-1][1]: v for k, v in p.state.store.items() if k[:len(a)] == a and isinstance(k[-1], tuple) and k[-1][0] == 'at' and isinstance(k[-1][1], int)}
        cx.ob(sorted(got) == list(range(16)), fn, 'all 16 bytes of the address must be stored', p)
        cx.ob(all(byte_at(v) == i for i, v in got.items()), fn, 'every byte of the address must be stored at its place', p)


@rule('P26')
def an_endpoint_is_what_it_was_made_from(cx):
    """An endpoint made of a protocol, an address and a port has that family, type and protocol, the address and the port in network byte order, and the size of the
    address; too long a path or text is refused, and nothing else is."""
    for name, kinds, parsers in (('make_v4_number', ('v4',), None), ('make_v4_text', ('v4',), ('make_address_v4',)), ('make_v6_bytes', ('v6',), None),
                                 ('make_v6_text', ('v6',), ('make_address_v6',)), ('make_any_text', ('v4', 'v6'), ('make_address',))):
        fn, R, ps = drv(cx, name)
        seen = set()
        for p in ps:
            if p.outcome == 'throw':
                size = ('o', 'std::basic_string_view::size', I(R['a']))
                lo = bound(p, size, True)
                if has_sym(p.value, 'length_error') or lo is not None:
                    cx.ob(lo is not None and lo > {'v4': 15, 'v6': 45}[kinds[-1]], fn, 'only a text that is too long may be refused', p)
                continue
            u, kind = raw(p, cx, R)
            cx.ob(u is not None and kind in kinds, fn, 'the address must be made in the storage of the endpoint', p)
            if u is None or kind not in kinds:
                continue
            seen.add(kind)
            check_common(cx, fn, p, R, name, kind, u)
            (check_v4 if kind == 'v4' else check_v6)(cx, fn, p, u, R, parsers)
            if len(kinds) > 1:
                is4 = [t == (short(k[1]) == 'is_v4') for k, t in p.state.facts.items() if k[0] == 'o' and short(str(k[1])) in ('is_v4', 'is_v6')]
                cx.ob(bool(is4) and all(x == (kind == 'v4') for x in is4), fn, 'the family must be that of the address', p)
        if seen != set(kinds):
            raise Anchor('%s did not make %s' % (name, kinds))


@rule('P26')
def a_local_endpoint_has_its_path(cx):
    """A local endpoint has the whole path, ended by a zero that the size includes; a path that does not fit is refused, and only such a one."""
    fn, R, ps = drv(cx, 'make_local')
    size = ('o', 'std::basic_string_view::size', I(R['a']))
    n = 0
    for p in ps:
        if p.outcome == 'throw':
            lo = bound(p, size, True)
            cx.ob(lo is not None and lo >= 108, fn, 'a path that fits must be accepted', p)
            continue
        u, kind = raw(p, cx, R)
        cx.ob(u is not None and kind == 'local', fn, 'the address must be made in the storage of the endpoint', p)
        if u is None or kind != 'local':
            continue
        n += 1
        check_common(cx, fn, p, R, 'make_local', kind, u)
        cx.ob(cv(load(p, u + ('sun_family',))) == AF['local'], fn, 'the family stored must be the one asked for', p)
        hi = bound(p, size, False)
        path = u + ('sun_path',)
        cs = [c for c in copies(p) if c['to'] and c['to'][0] == path]
        if cs:
            c = cs[0]
            cx.ob(len(cs) == 1 and c['to'][1] == 0 and c['from'] and c['from'] == (('of', I(R['a'])), 0) and c['n'] in ('all', size), fn, 'the whole path must be stored', p)
            zero = [e for e in p.events if e.kind == 'store' and cv(e.val) == 0 and e.obj is not None and (c['e'].val is not None and e.obj == ('L', (('d', c['e'].val),)) or e.obj[1][:-1] == path and e.obj[1][-1] == ('at', size))]
            wiped = any(e.kind == 'new' and e.extra != 'default' for e in p.events if e.kind == 'new' and e.name == 'sockaddr_un') and cv(load(p, path)) == 0
            cx.ob(bool(zero) or wiped, fn, 'the path must be ended by a zero', p)
            k = hi
        else:
            got = {x[-1][1]: v for x, v in p.state.store.items() if x[:-1] == path and isinstance(x[-1], tuple) and x[-1][0] == 'at'}
            cx.ob(bool(got), fn, 'the whole path must be stored', p)
            k = hi
        cx.ob(k is not None and k <= 107, fn, 'a path must not be written behind its storage', p)
        s = shown(p, R, 'size')
        cx.ob(sorted(terms(s), key=str) in [sorted([size, ('c', c)], key=str) for c in (2, 3)], fn, 'the size must be that of the family and the path with its zero', p)
    if not n:
        raise Anchor('no local endpoint was made')


def terms(v):
    c, out, todo = 0, [], [v]
    while todo:
        x = todo.pop()
        if x is not None and x[0] == 'o' and x[1] == '+' and len(x) == 4:
            todo += [x[2], x[3]]
        elif cv(x) is not None:
            c += cv(x)
        else:
            out.append(x)
    return out + [('c', c)]


@rule('P26')
def an_endpoint_taken_over_is_the_same(cx):
    """An endpoint made of another one, of this library or of asio, has its bytes, size, type and protocol; setting type, protocol or size changes just that."""
    st = storage(cx)
    fn, R, ps = drv(cx, 'make_copy')
    for p in ps:
        o = R['o']
        for f in ('size', 'type', 'protocol'):
            v = shown(p, R, f)
            cx.ob(v is not None and v[0] == 'i' and v[1][:-1] == o, fn, 'the %s must be that of the original' % f, p)
        fs = {shown(p, R, f) for f in ('size', 'type', 'protocol')}
        cx.ob(len(fs) == 3, fn, 'size, type and protocol must be told apart', p)
        w = (('d', I(R['w'])),)
        whole = any(load(p, w + (f,)) == I(o + (f,)) for f in st if p.state.store.get(w + (f,)) is not None and 'storage' in cx_type(cx, f)) or \
            any(c['to'] and c['to'][0][:-1] == w and c['to'][0][-1] in st and c['from'] and c['from'][0][:-1] == o and c['from'][0][-1] in st and c['n'] in (128, I(o + ('size_',))) for c in copies(p))
        cx.ob(whole, fn, 'all bytes of the address must be copied', p)
    fn, R, ps = drv(cx, 'look')
    names = {}
    for p in ps:
        s, e = R['s'], R['e']
        for f in ('size', 'type', 'protocol'):
            names[f] = load(p, s + (f,))
            cx.ob(names[f] is not None and names[f][0] == 'i' and names[f][1][:-1] == e, fn, '%s() must be what is stored' % f, p)
        fam = load(p, s + ('family',))
        cx.ob(fam is not None and fam[0] == 'i' and fam[1][:-2] == e and fam[1][-2] in st and fam[1][-1] in ('sa_family', 'ss_family'), fn, 'the family must be that of the address', p)
        d = load(p, s + ('data',))
        cx.ob(d is not None and d[0] == 'p' and d[1][:-1] == e and d[1][-1] in st, fn, 'data() must point to the address', p)
    fn, R, ps = drv(cx, 'make_copy')
    for p in ps:
        for f in names:
            cx.ob(shown(p, R, f) == ('i', R['o'] + names[f][1][-1:]), fn, 'the %s must be that of the original' % f, p)
    for name, args in (('change', {'type': 't', 'protocol': 'p'}), ('change_size', {'size': 'n'})):
        fn, R, ps = drv(cx, name)
        for p in ps:
            if p.outcome == 'throw':
                continue
            for f in names:
                want = I(R[args[f]]) if f in args else ('i', R['e'] + names[f][1][-1:])
                cx.ob(shown(p, R, f) == want, fn, 'the %s must be %s' % (f, 'the new one' if f in args else 'left alone'), p)
    fn, R, ps = drv(cx, 'make_empty')
    for p in ps:
        cx.ob(cv(shown(p, R, 'type')) == 0 and cv(shown(p, R, 'protocol')) == 0 and cv(shown(p, R, 'size')) in (16, 128), fn, 'an empty endpoint must have neither type nor protocol', p)
    for name in ('make_other', 'make_other_const'):
        fn, R, ps = drv(cx, name)
        for p in ps:
            if p.outcome == 'throw':
                continue
            of = lambda v, *ns: v is not None and v[0] == 'o' and short(str(v[1])) in ns and mentions(v, I(R['o']))
            cx.ob(of(shown(p, R, 'size'), 'size'), fn, 'the size must be that of the original', p)
            cx.ob(of(shown(p, R, 'type'), 'type') and of(shown(p, R, 'protocol'), 'protocol'), fn, 'type and protocol must be those of the original', p)
            w = (('d', I(R['w'])),)
            cs = [e for e in p.events if e.kind == 'call' and short(e.name) in ('memcpy', 'memmove', 'copy_n', 'copy')]
            ok = False
            for e in cs:
                to = place(p, e.argv[0])
                src = made_by(p, e.argv[1])
                ok = ok or to is not None and to[0][:-1] == w and to[0][-1] in st and to[1] == 0 and src is not None and short(src.name) == 'data' and src.obj == ('L', R['o']) and e.argv[2] == shown(p, R, 'size')
            cx.ob(ok, fn, 'all bytes of the address must be copied', p)


def cx_type(cx, f):
    for k, r in cx.db.recs.items():
        if str(k).startswith('boost::cobalt::io::endpoint::(anonymous union'):
            return [x['t'] for x in r['fields'] if x['n'] == f][0]


@rule('P26')
def the_protocols_are_those_they_are_named_after(cx):
    """Each predefined protocol has the family, type and protocol number of its name; a protocol_type has the three it was made of, and two are equal only if all are."""
    for n, want in PROTOCOLS.items():
        fn, R, ps = drv(cx, 'proto_' + n)
        for p in ps:
            got = [load(p, (('d', I(R[x])),)) for x in 'ftp']
            for x, w, g in zip(('family', 'type', 'protocol'), want, got):
                cx.ob(w is None or cv(g) == w, fn, 'the %s of %s must be %s' % (x, n, w), p)
    fn, R, ps = drv(cx, 'make_protocol_numbers')
    for p in ps:
        for x, w in zip('ftp', 'abc'):
            cx.ob(load(p, (('d', I(R[x])),)) == I(R[w]), fn, 'the three numbers must be read back', p)
    fn, R, ps = drv(cx, 'make_protocol')
    for p in ps:
        for x, w in zip('ftp', ('family', 'type', 'protocol')):
            v = load(p, (('d', I(R[x])),))
            cx.ob(v is not None and v[0] == 'o' and short(str(v[1])) == w and mentions(v, I(R['o'])), fn, 'the three numbers must be those of the other protocol', p)
    fn, R, ps = drv(cx, 'same_protocol')
    eq = 0
    for p in ps:
        pairs = [t == (k[1] == '==') for k, t in p.state.facts.items() if k[0] == 'o' and k[1] in ('==', '!=') and all(x[0] == 'i' for x in k[2:]) and k[2][1][1:] == k[3][1][1:]]
        if cv(p.value) == 1 or p.value == ('c', True):
            eq += 1
            cx.ob(len(pairs) == 3 and all(pairs), fn, 'protocols are only equal if all three numbers are', p)
    if ps and not eq and not all(p.value is not None and ('operator==' in show(p.value) or '==' in show(p.value)) for p in ps):
        raise Anchor('the comparison of protocols was not understood')


WANT = {'v4': ('tcp_v4',), 'v6': ('udp_v6',), 'any': ('ip',), 'local': ('local_datagram',)}


@rule('P26')
def an_endpoint_is_only_read_as_what_it_is(cx):
    """get_if gives the address if the family is the one asked for and type and protocol do not contradict it, else a null pointer; get throws bad_endpoint_access then."""
    st = storage(cx)
    for name in WANT:
        f, t, pr = PROTOCOLS[WANT[name][0]]
        fams = {'v4': (2,), 'v6': (10,), 'any': (2, 10), 'local': (1,)}[name]
        for how in ('get_if_', 'get_'):
            fn, R, ps = drv(cx, how + name)
            o = R['o']
            seen = set()
            for p in ps:
                fam = [k for k in known(p, o, lambda q: len(q) == len(o) + 2 and q[-2] in st and q[-1] in ('sa_family', 'ss_family'))]
                eq = {c: tt for c, tt in fam}
                family = True if any(eq.get(c) for c in fams) else False if all(eq.get(c) is False for c in fams) or any(v and c not in fams for c, v in eq.items()) else None
                if how == 'get_if_':
                    if p.outcome != 'return':
                        cx.ob(False, fn, 'get_if must not throw', p)
                        continue
                    got = cv(p.value) != 0 and p.value is not None
                    if got:
                        a = place(p, p.value)
                        cx.ob(a is not None and a[0][:-1] == o and a[0][-1] in st, fn, 'what is returned must be the address of the endpoint', p)
                else:
                    got = p.outcome == 'return'
                    if not got:
                        cx.ob(any(e.kind == 'ctor' and short(e.name) == 'bad_endpoint_access' for e in p.events) or has_sym(p.value, 'bad_endpoint_access'), fn, 'bad_endpoint_access must be thrown', p)
                    else:
                        cx.ob(read_from(p, o, st), fn, 'what is returned must be the address of the endpoint', p)
                seen.add(got)
                others = contradicted(p, o, st, t, pr)
                if got:
                    cx.ob(family is True, fn, 'an address must only be given if the endpoint has the family', p)
                    cx.ob(others is False, fn, 'an address must only be given if type and protocol match', p)
                else:
                    cx.ob(family is False or others is True, fn, 'an address must be given if family, type and protocol match', p)
            if seen != {True, False}:
                raise Anchor('%s%s always does the same' % (how, name))


def known(p, o, pred):
    """what the path knows a field of o to be equal to: (constant, whether)"""
    out = []
    for k, t in p.state.facts.items():
        if k[0] == 'o' and k[1] in ('==', '!=') and len(k) == 4:
            for a, b in ((k[2], k[3]), (k[3], k[2])):
                if a[0] == 'i' and a[1][:len(o)] == o and pred(a[1]) and cv(b) is not None:
                    out.append((cv(b), bool(t) == (k[1] == '==')))
        elif k[0] == 'i' and k[1][:len(o)] == o and pred(k[1]):
            out.append((0, not t))
    return out


def contradicted(p, o, st, t, pr):
    """is the type or protocol known to be set to something else?"""
    res = False
    for want in (t, pr):
        if not want:
            continue
        fields = {a[1][len(o):] for k in p.state.facts for a in ([k] if k[0] == 'i' else k[2:] if k[0] == 'o' else []) if a[0] == 'i' and a[1][:len(o)] == o and len(a[1]) == len(o) + 1}
        mine = [f for f in fields if any(c == want for c, _ in known(p, o, lambda q: q[len(o):] == f))] or [f for f in fields if f[0] == ('type_' if want is t else 'protocol_')]
        zero = val = None
        for f in mine:
            for c, tt in known(p, o, lambda q: q[len(o):] == f):
                if c == 0:
                    zero = tt
                if c == want:
                    val = tt
                elif c and tt:
                    val = False
        if zero or val:
            continue
        if zero is False and val is False:
            return True
        res = None
    return res


def read_from(p, o, st):
    return any(e.kind in ('copy', 'move', 'ctor', 'store', 'deref') and any(a is not None and a[0] in ('L', 'p', 'i') and a[1][:len(o)] == o and len(a[1]) > len(o) and a[1][len(o)] in st for a in (e.val,) + tuple(e.args or ()) + tuple(e.argv or ())) for e in p.events) \
        or any(v is not None and v[0] == 'i' and v[1][:len(o)] == o and len(v[1]) > len(o) and v[1][len(o)] in st for k, v in p.state.store.items())


@rule('P26')
def an_address_reads_what_it_holds(cx):
    """port(), addr(), addr_str(), path(), is_ipv4() and is_ipv6() give the stored value, the port in the byte order of the machine."""
    this = root('this')
    def members(cls, m):
        fn = cx.fn(IO + cls + '::' + m)
        return fn, cx.paths(fn, this=this, loop=20)
    def family(p):
        eq = {}
        for k, t in p.state.facts.items():
            if k[0] == 'o' and k[1] in ('==', '!=') and any(a[0] == 'i' and a[1][-1] in ('ss_family', 'sa_family', 'sin_family', 'sin6_family') for a in k[2:]):
                c = [cv(a) for a in k[2:] if cv(a) is not None]
                if c:
                    eq[c[0]] = bool(t) == (k[1] == '==')
        return 'v4' if eq.get(2) or eq.get(10) is False else 'v6' if eq.get(10) or eq.get(2) is False else None
    for cls in ('ip_address_v4', 'ip_address_v6', 'ip_address'):
        fixed = {'ip_address_v4': 'v4', 'ip_address_v6': 'v6'}.get(cls)
        fn, ps = members(cls, 'port')
        for p in ps:
            k = fixed or family(p)
            cx.ob(k is not None, fn, 'the family must decide where the port is', p)
            v, sw = network(p, p.value)
            cx.ob(sw and v is not None and v[0] == 'i' and v[1][:1] == this and v[1][-1] in (('sin_port', 'sin6_port') if k is None else (FIELDS[k][1],) if k == 'v6' else ('sin_port',)), fn, 'port() must be the stored one in the byte order of the machine', p)
        fn, ps = members(cls, 'addr_str')
        for p in ps:
            cs = [e for e in p.events if e.kind == 'call' and short(e.name) == 'inet_ntop']
            if not cs:
                raise Anchor('%s::addr_str does not use inet_ntop' % cls)
            e = cs[-1]
            k = fixed or family(p)
            src = place(p, e.argv[1])
            cx.ob(src is not None and src[0][:1] == this and src[1] == 0 and k is not None and {'v4': 'sin_addr', 'v6': 'sin6_addr'}[k] in src[0], fn, 'the text must be that of the address of the family', p)
            cx.ob(cv(e.argv[0]) == AF[k] if k and cv(e.argv[0]) is not None else e.argv[0] is not None and e.argv[0][0] == 'i' and e.argv[0][1][-1] in ('ss_family', 'sa_family', 'sin_family'), fn, 'the text must be written for the family', p)
            n = cv(e.argv[3])
            cx.ob(n is not None and n >= {'v4': 16, 'v6': 46}[k or 'v6'], fn, 'every text of an address must fit', p)
            buf = [d for d in (array_size(cx, fn, e, place(p, e.argv[2])),) if d]
            cx.ob(not buf or n is None or n <= buf[0], fn, 'the text must not be written behind its buffer', p)
        if cls == 'ip_address_v4':
            fn, ps = members(cls, 'addr')
            for p in ps:
                cx.ob(p.value is not None and p.value[0] == 'i' and p.value[1][-1] == 's_addr', fn, 'addr() must be the stored address', p)
            continue
        fn, ps = members(cls, 'addr')
        for p in ps:
            k = fixed or family(p)
            if k is None:
                cx.ob(False, fn, 'the family must decide where the address is', p)
                continue
            cs = copies(p)
            src = [c for c in cs if c['from'] and c['from'][0] != 'fill' and c['from'][0][:1] == this]
            if not src:
                raise Anchor('%s::addr does not copy a block' % cls)
            c = src[0]
            res = c['to'][0] if c['to'] else None
            cx.ob(len(src) == 1 and {'v4': 'sin_addr', 'v6': 'sin6_addr'}[k] in c['from'][0] and c['from'][1] == 0 and c['to'] is not None and
                  (c['to'][1] == 12 and c['n'] == 4 if k == 'v4' else c['to'][1] == 0 and c['n'] in (16, 'all')), fn, 'addr() must have every byte of the address, a v4 one in the last four', p)
            if k == 'v4':
                z = [x for x in cs if x['from'] and x['from'][0] == 'fill' and cv(x['from'][1]) == 0 and x['to'] and x['to'][0] == res and x['to'][1] == 0 and (x['n'] in ('all',) or isinstance(x['n'], int) and x['n'] >= 12)]
                wiped = [v for q, v in p.state.store.items() if res is not None and q == res and cv(v) == 0]
                cx.ob(bool(z) or bool(wiped) or zeroed(p, res), fn, 'the first 12 bytes of a v4 address must be zero', p)
    for m, k in (('is_ipv4', 2), ('is_ipv6', 10)):
        fn, ps = members('ip_address', m)
        for p in ps:
            v = p.value
            ok = v is not None and v[0] == 'o' and v[1] == '==' and any(cv(a) == k for a in v[2:]) and any(a[0] == 'i' and a[1][-1] in ('ss_family', 'sa_family', 'sin_family', 'sin6_family') for a in v[2:])
            eq = [bool(t) == (f[1] == '==') for f, t in p.state.facts.items() if f[0] == 'o' and f[1] in ('==', '!=') and any(cv(a) == k for a in f[2:])]
            cx.ob(ok or cv(v) is not None and eq == [bool(cv(v))], fn, '%s() must say whether that is the family' % m, p)
    fn, ps = members('local_endpoint', 'path')
    for p in ps:
        ok = p.value is not None and 'sun_path' in str(p.value) + ''.join(str(e.argv) for e in p.events if e.kind == 'ctor' and short(e.name) == 'basic_string_view')
        cx.ob(ok, fn, 'path() must be the stored path', p)


def zeroed(p, res):
    if res is None:
        return False
    cells = [p.state.store.get(res + (('at', i),)) for i in range(12)]
    return all(c is not None and cv(c) == 0 for c in cells) or any(e.kind == 'store' and e.obj == ('L', res) and e.val is not None and (cv(e.val) == 0 or 'zero' in str(e.val)) for e in p.events)


def array_size(cx, fn, e, pl):
    """the declared length of the array a local buffer is"""
    if pl is None or not pl[0] or not isinstance(pl[0][-1], tuple) or pl[0][-1][0] != 'v':
        return None
    name = pl[0][-1][-1]
    found = []
    def walk(n):
        if isinstance(n, dict):
            if n.get('n') == name and isinstance(n.get('t'), str):
                m = re.search(r'\[(\d+)\]$', n['t'])
                if m:
                    found.append(int(m.group(1)))
            for x in n.values():
                walk(x)
        elif isinstance(n, list):
            for x in n:
                walk(x)
    walk((e.fr_fn if hasattr(e, 'fr_fn') else fn).get('body'))
    return found[0] if found else None
