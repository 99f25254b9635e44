"""I/O operations (P25): what drivers/ops.cpp starts through the public interface ends in the operation of asio it is named after."""
from lib import *


def carries(st, a, src):
    """the argument holds (a part of) what src held at first, unchanged"""
    def is_(v):
        if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple)):
            return False
        return v[0] == 'i' and v[1][:len(src)] == src or v[0] == 'p' and bool(v[1]) and v[1][0][0] == 'd' and is_(v[1][0][1])  # of a reference: what it refers to
    if a is None:
        return False
    if a[0] != 'L':
        return is_(a)
    if a[1][:len(src)] == src or is_(st.store.get(a[1])):
        return True
    if any(is_(v) for k, v in st.store.items() if k[:len(a[1])] == a[1]):
        return True
    for n in range(1, len(a[1])):
        v = st.store.get(a[1][:n])
        if v is not None and v[0] == 'i' and isinstance(v[1], tuple) and (v[1] + a[1][n:])[:len(src)] == src:
            return True
    return False


class Foreign:
    """remembers the state right before each call that leaves the library"""
    def __init__(self, keep=()):
        self.at, self.keep = {}, keep

    def __call__(self, eng, s, kind, name):
        e = s.trace[1]
        if e is None or e.kind != 'call':
            return False
        self.at[id(e)] = (e, s.copy())
        if short(name) in ('memcpy', 'memmove', 'copy') and e.argv and len(e.argv) == 3 and e.argv[0] and e.argv[0][0] == 'p' and e.argv[1] and e.argv[1][0] == 'p':
            eng.put(s, e.argv[0][1], eng.load(s, e.argv[1][1]))
            return True
        return short(name) in self.keep

    def before(self, e):
        return self.at[id(e)][1] if id(e) in self.at else None


def under_path(a, root_):
    return a is not None and a[0] == 'L' and mentions(a, root_[0]) or a is not None and mentions(a, I(root_))


ONE = {  # driver: (callee, arguments in order); the object is the one the operation was asked of
    'stream_socket_read': ('async_read_some', 'b', 'h'), 'stream_socket_write': ('async_write_some', 'b', 'h'),
    'readable_pipe_read': ('async_read_some', 'b', 'h'), 'writable_pipe_write': ('async_write_some', 'b', 'h'),
    'stream_file_read': ('async_read_some', 'b', 'h'), 'stream_file_write': ('async_write_some', 'b', 'h'),
    'serial_port_read': ('async_read_some', 'b', 'h'), 'serial_port_write': ('async_write_some', 'b', 'h'),
    'datagram_socket_receive': ('async_receive', 'b', 'h'), 'datagram_socket_send': ('async_send', 'b', 'h'),
    'seq_packet_receive': ('async_receive', 'b', 'f', 'h'), 'seq_packet_receive_flags': ('async_receive', 'b', 'f', 'of', 'h'), 'seq_packet_send': ('async_send', 'b', 'f', 'h'),
    'socket_wait': ('async_wait', 'w', 'h'), 'signal_set_wait': ('async_wait', 'h'), 'steady_timer_wait': ('async_wait', 'h'), 'system_timer_wait': ('async_wait', 'h'),
}


def starts(cx, name, fo, **kw):
    """(function, roots of the parameters, paths of the driver, with the destruction of handlers left out)"""
    fn = cx.fn('drv_ops::' + name)
    R = {x['n']: root(x['n']) for x in fn['params']}
    return fn, R, cx.paths(fn, args=[('L', R[x['n']]) for x in fn['params']], on_foreign=fo, loop=2,
                           opaque_pred=lambda q, b: '::~completion_handler' in q['n'] or '::~handler' in q['n'] or q['n'] in (NS + 'completion_handler::operator()', NS + 'handler::operator()') or q['n'].endswith(('adopt_endpoint_', '::bytes_readable')), **kw)


def uses(fo, p, h):
    """the calls out of the library that get the handler"""
    out = []
    for e in p.events:
        if e.kind != 'call' or not e.args:
            continue
        st = fo.before(e)
        if st is not None and any(carries(st, a, h) for a in e.args):
            out.append(e)
    return out


def in_order(st, e, R, want):
    """the arguments carry what is wanted, in this order"""
    i = 0
    for w in want:
        while i < len(e.args) and not (carries(st, e.args[i], R[w]) if isinstance(w, str) else e.argv[i] == w):
            i += 1
        if i == len(e.args):
            return False
        i += 1
    return True


def whole_buffer(st, e, p, b):
    """both parts of a buffer sequence are passed on when there is more than one buffer, its first buffer otherwise"""
    arg = next((a for a in e.args if carries(st, a, b)), None)
    if arg is None:
        return False
    parts = {v[1][len(b):] for k, v in list(st.store.items()) + [((), ('i', arg[1]) if arg[0] == 'L' else arg)]
             if (k == () or k[:len(arg[1])] == arg[1]) and isinstance(v, tuple) and len(v) == 2 and v[0] == 'i' and isinstance(v[1], tuple) and v[1][:len(b)] == b}
    if arg[0] == 'L' and not parts:
        v = st.store.get(arg[1])
        parts = {v[1][len(b):]} if v and v[0] == 'i' else set()
    many = [t for k, t in p.state.facts.items() if 'span::size' in show(k) and '<' in show(k)]
    if parts & {()}:
        return True
    return any(x and 'head' in str(x[0]) for x in parts) and (not many or many[0] is not True or any(x and 'tail' in str(x[0]) for x in parts))


@rule('P25')
def an_io_operation_starts_what_it_is_named_after(cx):
    """Starting an operation of a socket, pipe, file, serial port, signal set or timer initiates exactly one asio operation, the one it is named after, on the very
    object, with the buffers, flags and conditions given, and hands the completion handler on exactly once."""
    one_operation(cx, ONE)


@rule('P38')
def waiting_on_a_timer_waits_for_that_timer(cx):
    """Waiting on a timer starts exactly one wait, on that very timer, which completes the handler."""
    one_operation(cx, {k: v for k, v in ONE.items() if 'timer' in k})


@rule('P38')
def a_sleep_is_not_rounded_down(cx):
    """A sleep whose time is given in another resolution waits for that time rounded up, never for an earlier one."""
    for name in ('steady_sleep_fine', 'system_sleep_fine', 'sleep_fine_for'):
        fo = Foreign()
        fn, R, ps = starts(cx, name, fo)
        src = R['d' if name == 'sleep_fine_for' else 't']
        n = 0
        for p in ps:
            if p.outcome == 'throw':
                continue
            n += 1
            conv = [e for e in p.events if e.kind == 'call' and e.name.startswith('std::chrono::') and short(e.name) in ('ceil', 'floor', 'round', 'duration_cast', 'time_point_cast')
                    and any(mentions(a, src[0]) for a in e.argv or () if a is not None)]
            cx.ob(len(conv) == 1, fn, 'the time given must be converted to that of the timer once', p)
            if len(conv) != 1:
                continue
            w = conv[0].val
            made = [e for e in p.events if e.kind in ('engage', 'ctor') and len(e.argv or ()) >= 2 and e.obj is not None and e.obj[0] == 'L' and 'timer' in str(e.obj[1][-1:])]
            up = short(conv[0].name) == 'ceil' or not_later(p, lambda v: mentions(v, src[0]), lambda v: v == w) \
                or any(e.kind == 'call' and e.line >= conv[0].line and short(e.name) in ('operator+=', 'operator++', 'operator+') and not any(c.kind == 'call' and short(c.name) == 'now' for c in p.events[:p.events.index(e)]) for e in p.events)
            cx.ob(up, fn, 'the time given must not be rounded to an earlier one', p, line=conv[0].line)
        cx.ob(n > 0, fn, 'a sleep must wait for its time')


def one_operation(cx, which):
    for name, (callee, *want) in which.items():
        fo = Foreign()
        fn, R, ps = starts(cx, name, fo)
        for p in ps:
            if p.outcome == 'throw':
                continue
            us = uses(fo, p, R['h'])
            cx.ob(len(us) == 1, fn, 'the completion handler must be handed on exactly once', p)
            if len(us) != 1:
                continue
            e, st = us[0], fo.before(us[0])
            cx.ob(short(e.name) == callee, fn, 'the operation started must be %s, not %s' % (callee, short(e.name)), p)
            cx.ob(under_path(e.obj, R['s']), fn, 'the operation must be started on the object it was asked of', p)
            cx.ob(in_order(st, e, R, want), fn, 'the operation must be started with what was given', p)
            n_in = 0
            for w, a in ((w, next((a for a in e.args if carries(st, a, R[w])), None)) for w in want):
                if w == 'b':
                    cx.ob(whole_buffer(st, e, p, R['b']), fn, 'all the buffers must be passed on', p)
            others = [c for c in p.events if c.kind == 'call' and short(c.name).startswith('async_') and c is not e]
            cx.ob(not others, fn, 'only one operation may be started', p)
            if name == 'seq_packet_receive':
                cx.ob(len(e.args) == 3, fn, 'no place for the flags must be passed when none was given', p)


def handler_calls(p, h, fo):
    """invocations of the handler itself"""
    return [e for e in p.events if e.kind == 'call' and e.name in (NS + 'completion_handler::operator()', NS + 'handler::operator()')
            and fo.before(e) is not None and carries(fo.before(e), e.obj, h)]


def started(cx, fn, fo, p, R, callee, want, obj=None):
    """the one call that takes the handler along, checked against what it should be"""
    us = uses(fo, p, R['h'])
    cx.ob(len(us) == 1, fn, 'the completion handler must be handed on exactly once', p)
    if len(us) != 1:
        return None
    e, st = us[0], fo.before(us[0])
    cx.ob(short(e.name) == callee, fn, 'the operation started must be %s, not %s' % (callee, short(e.name)), p)
    if obj is not None:
        cx.ob(under_path(e.obj, obj), fn, 'the operation must be started on the object it was asked of', p)
    cx.ob(in_order(st, e, R, want), fn, 'the operation must be started with what was given', p)
    return e


def holds_value(st, a, v):
    """the argument is v"""
    return a is not None and (a == v or a[0] == 'L' and st.store.get(a[1]) == v)


def random_access(cx, names):
    ways = set()
    for name, callee in names:
        fo = Foreign()
        fn, R, ps = starts(cx, name, fo, assume_virtual=[NS + 'io::random_access_file::read_some_at', NS + 'io::random_access_file::write_some_at'])
        for p in ps:
            if p.outcome == 'throw':
                continue
            pos = calls(p, 'lseek', 'lseek64')
            direct = [e for e in p.events if e.kind == 'call' and short(e.name) == callee + '_at']
            if direct:
                started(cx, fn, fo, p, R, callee + '_at', ('o', 'b', 'h'), R['s'])
                ways.add(True)
                continue
            cx.ob(len(pos) == 1, fn, 'the offset must be set exactly once', p)
            if len(pos) != 1:
                continue
            e = pos[0]
            fds = [c.val for c in p.events if c.kind == 'call' and short(c.name) == 'native_handle' and under_path(c.obj, R['s'])]
            cx.ob(e.argv[0] in fds, fn, 'the offset must be set for the very file', p)
            cx.ob(e.argv[1] == I(R['o']) and e.argv[2] == ('c', 0), fn, 'the offset must be the given one, counted from the start of the file', p)
            bad = failed(p, e.val)
            cx.ob(bad is not None, fn, 'whether the offset could be set must be looked at', p)
            hs = handler_calls(p, R['h'], fo)
            us = uses(fo, p, R['h'])
            if bad:
                cx.ob(len(hs) == 1 and not us, fn, 'a failure must be given to the handler, and nothing be transferred', p)
                cx.ob(all(any('errno' in show(v) for v in c.argv[:1]) for c in hs), fn, 'the error must be the one of the system', p)
                cx.ob(all(c.argv[1] == ('c', 0) for c in hs), fn, 'no bytes were transferred', p)
            elif bad is False:
                cx.ob(not hs, fn, 'the handler is called by the operation only', p)
                u = started(cx, fn, fo, p, R, callee, ('b', 'h'), R['s'])
                if u is not None:
                    cx.ob(p.events.index(u) > p.events.index(e), fn, 'the offset must be set before the transfer', p)
                    cx.ob(whole_buffer(fo.before(u), u, p, R['b']), fn, 'all the buffers must be passed on', p)
            ways.add(bad)
    return ways


@rule('P25')
def a_random_access_starts_at_its_offset(cx):
    """Reading or writing at an offset first moves the file to that offset, counted from the start; if that fails the handler gets the error and nothing is
    transferred, otherwise the transfer is started on that file with the buffers."""
    ways = random_access(cx, (('random_access_file_read_at', 'async_read_some'), ('random_access_file_write_at', 'async_write_some')))
    if not ways:
        raise Anchor('no random access was seen')


def failed(p, v):
    """does the path know whether a system call that returned v has failed (-1)?"""
    for k, t in p.state.facts.items():
        if not mentions(k, v):
            continue
        s = show(k)
        if k[0] == 'o' and len(k) == 4:
            op, a, b = k[1], k[2], k[3]
            neg = lambda x: x in (('c', -1), ('o', '-', ('c', 1))) or show(x) in ('-1', '-(1)')
            if op == '<' and a == v and b == ('c', 0):
                return bool(t)
            if op == '<' and b == v and neg(a):
                return not t
            if op == '<' and b == v and a == ('c', 0):
                if t:
                    return False
                continue
            if op in ('==',) and (a == v and neg(b) or b == v and neg(a)):
                return bool(t)
            if op in ('!=',) and (a == v and neg(b) or b == v and neg(a)):
                return not t
            if op == '>=' and a == v and b == ('c', 0):
                return not t
            if op == '>' and a == v and neg(b):
                return not t
            if op in ('==', '!=') and (a == v and b == ('c', 0) or b == v and a == ('c', 0)):
                z = (op == '==') == bool(t)
                return not z
        if k == v:
            return bool(t)          # non-zero: these calls return 0 on success
    return None


@rule('P25')
def connecting_goes_to_the_given_peer(cx):
    """Connecting completes the endpoint with what kind of socket this is, and starts the connection of this socket to that very endpoint; connecting to a range does so
    with every endpoint, in order."""
    fo = Foreign(('adopt_endpoint_',))
    fn, R, ps = starts(cx, 'socket_connect', fo)
    for p in ps:
        if p.outcome == 'throw':
            continue
        e = started(cx, fn, fo, p, R, 'async_connect', ('e', 'h'), R['s'])
        ad = calls(p, 'adopt_endpoint_')
        cx.ob(len(ad) == 1 and under_path(ad[0].obj, R['s']), fn, 'the endpoint must be completed once by the socket', p)
        if e is not None and len(ad) == 1:
            a = next((x for x in e.args if carries(fo.before(e), x, R['e'])), None)
            cx.ob(a is not None and p.events.index(ad[0]) < p.events.index(e) and ad[0].args[0] == a, fn, 'the endpoint that was completed must be the one connected to', p)
    fo = Foreign(('adopt_endpoint_',))
    fn, R, ps = starts(cx, 'socket_connect_range', fo)
    many = set()
    for p in ps:
        if p.outcome == 'throw':
            continue
        us = [e for e in uses(fo, p, R['h'])]
        cx.ob(len(us) == 1, fn, 'the completion handler must be handed on exactly once', p)
        if len(us) != 1:
            continue
        e, st = us[0], fo.before(us[0])
        cx.ob(e.name == 'boost::asio::async_connect' and mentions(e.args[0], R['s'][0]) and in_order(st, e, R, ('e', 'h')), fn, 'the socket must be connected to the given endpoints', p)
        ad = calls(p, 'adopt_endpoint_')
        el = [('at', a.args[0]) for a in ad]
        cx.ob(len(set(el)) == len(el), fn, 'every endpoint must be completed once', p)
        its = [k for k, t in p.state.facts.items() if k[0] == 'o' and k[1] == 'atend' and t is False]
        if any(k.kind == 'loopend' for k in p.events) or not its:
            n = len(its)
            cx.ob(len(ad) == n, fn, 'every endpoint must be completed (%d of %d)' % (len(ad), n), p)
        many.add(len(ad))
        cx.ob(all(p.events.index(a) < p.events.index(e) for a in ad), fn, 'the endpoints must be completed before they are used', p)
    if many <= {0}:
        raise Anchor('no endpoint of a range is completed')


@rule('P25', 'P38')
def a_sleep_waits_for_its_time(cx):
    """A sleep waits on a timer made for the executor of its handler and the very time point (for a duration: now plus the duration)."""
    for name in ('steady_sleep_until', 'system_sleep_until', 'sleep_for', 'system_sleep_for'):
        fo = Foreign()
        fn, R, ps = starts(cx, name, fo)
        for p in ps:
            if p.outcome == 'throw':
                continue
            e = started(cx, fn, fo, p, R, 'async_wait', ('h',))
            if e is None:
                continue
            mk = [x for x in p.events if x.kind in ('engage', 'ctor') and x.obj is not None and x.obj[0] == 'L' and e.obj[1][:len(x.obj[1])] == x.obj[1] and x.argv]
            cx.ob(len(mk) == 1, fn, 'the timer must be made once', p)
            if len(mk) != 1:
                continue
            m = mk[0]
            cx.ob(mentions(m.argv[0], ('obj', 'h')), fn, 'the timer must use the executor of the handler', p)
            set_ = [x for x in p.events[:p.events.index(e)] if x.kind == 'call' and short(x.name).startswith('expires_') and x.obj == e.obj]
            given = set_[-1].argv[0] if set_ and set_[-1].argv else m.argv[1] if len(m.argv) > 1 else None
            how = short(set_[-1].name) if set_ else 'time' if not name.endswith('_for') or given != I(R['d']) else 'duration'
            if name.endswith('sleep_for'):
                plus = [c for c in p.events if c.kind == 'call' and c.name == 'std::chrono::operator+']
                now = [c.val for c in p.events if c.kind == 'call' and c.name.endswith('system_clock::now' if 'system' in name else 'steady_clock::now')]
                ok = how in ('expires_after', 'expires_from_now', 'duration') and given == I(R['d']) or how in ('expires_at', 'time') and len(plus) == 1 and I(R['d']) in plus[0].argv \
                    and any(x in now for x in plus[0].argv) and given is not None and mentions(given, plus[0].val)
                cx.ob(ok, fn, 'the sleep must last for the given duration from now on', p)
            else:
                cx.ob(given == I(R['t']) and how in ('expires_at', 'time'), fn, 'the sleep must end at the given time', p)


@rule('P25')
def resolving_asks_for_the_given_names(cx):
    """Resolving starts one resolution for the given host, service and flags, on the resolver (a lookup: on one of its own, made with the given executor), and passes all of
    its results on."""
    for name in ('resolver_resolve', 'lookup'):
        fo = Foreign()
        fn, R, ps = starts(cx, name, fo)
        for p in ps:
            if p.outcome == 'throw':
                continue
            rs = calls(p, 'async_resolve')
            cx.ob(len(rs) == 1, fn, 'one resolution must be started', p)
            if len(rs) != 1:
                continue
            e, st = rs[0], fo.before(rs[0])
            if name == 'lookup':
                mk = [x for x in p.events if x.kind == 'ctor' and x.obj == e.obj]
                cx.ob(len(mk) == 1 and I(R['ex']) in mk[0].argv, fn, 'the lookup must use the given executor', p)
            else:
                cx.ob(under_path(e.obj, R['s']), fn, 'the resolver asked must do it', p)
            cx.ob(in_order(st, e, R, ('host', 'service', 'f')), fn, 'host, service and flags must be the given ones', p)
            us = uses(fo, p, R['h'])
            cx.ob(len(us) == 1 and (us[0] is e or us[0].obj is not None and (us[0].obj == ('L', (('d', e.val),)) or load_at(fo.before(us[0]), us[0].obj) == e.val)), fn, 'the handler must be handed to that resolution once', p)
    for fn in cx.fns('io::transformer::operator()', need=0):
        a, b = root('ec'), root('rr')
        fo = Foreign()
        for p in cx.paths(fn, args=[('L', a), ('L', b)], on_foreign=fo):
            if p.outcome == 'throw':
                continue
            vs = calls(p, 'values')
            cx.ob(len(vs) == 1 and carries(fo.before(vs[0]), vs[0].args[0], a), fn, 'the error must be passed on', p)
            fill = [e for e in p.events if e.kind == 'call' and short(e.name) in ('assign', 'insert', 'vector') or e.kind == 'ctor' and 'vector' in e.name and len(e.argv) >= 2]
            cx.ob(any(sum('begin' in show(v) or 'end' in show(v) for v in e.argv) == 2 and 'begin' in show(e.argv[-2]) and 'end' in show(e.argv[-1]) for e in fill if len(e.argv) >= 2), fn, 'all results must be passed on', p)


def load_at(st, a):
    return st.store.get(a[1]) if a is not None and a[0] == 'L' else a


@rule('P25')
def a_secure_stream_is_used_as_such(cx):
    """A secure stream transfers through the encryption once it was handshaken, and directly before; handshake and shutdown are started once on the very stream, with what was given."""
    up = None
    for name, callee in (('ssl_read', 'async_read_some'), ('ssl_write', 'async_write_some')):
        fo = Foreign(('next_layer',))
        fn, R, ps = starts(cx, name, fo)
        for p in ps:
            if p.outcome == 'throw':
                continue
            e = started(cx, fn, fo, p, R, callee, ('b', 'h'))
            if e is None:
                continue
            cx.ob(whole_buffer(fo.before(e), e, p, R['b']), fn, 'all the buffers must be passed on', p)
            f = [(k, t) for k, t in p.state.facts.items() if k[0] == 'i' and k[1][:1] == R['s']]
            cx.ob(len(f) == 1, fn, 'whether the stream is secure must be looked at', p)
            if len(f) == 1:
                up = f[0][0][1]
                cx.ob(f[0][1] == e.name.startswith('boost::asio::ssl::stream'), fn, 'a secure stream must encrypt, one that is not must not', p)
    for name, callee, want in (('ssl_handshake', 'async_handshake', ('t', 'h')), ('ssl_handshake_buffer', 'async_handshake', ('t', 'b', 'h')), ('ssl_shutdown', 'async_shutdown', ('h',))):
        fo = Foreign()
        fn, R, ps = starts(cx, name, fo)
        for p in ps:
            if p.outcome == 'throw':
                continue
            es = calls(p, callee)
            cx.ob(len(es) == 1 and under_path(es[0].obj, R['s']), fn, '%s must be called once, on the stream' % callee, p)
            cx.ob(len(uses(fo, p, R['h'])) == 1, fn, 'the completion handler must be handed on exactly once', p)
            if len(es) == 1:
                cx.ob(in_order(fo.before(es[0]), es[0], R, [w for w in want if w != 'h']), fn, 'the operation must be started with what was given', p)
            if callee == 'async_handshake' and up is not None and len(es) == 1:
                r = [('L', root('ec')), ('L', root('n'))][:2 if name.endswith('buffer') else 1]
                qs = [q for _, x in cx.closures(p, args=r) for q in x]
                ok = [q for q in qs if load(q, up) == TRUE]
                for q in qs:
                    if any(load(x, up) == TRUE for x in qs) and q.outcome == 'return' and not q.state.facts.get(I(up)):
                        f = [t for k, t in q.state.facts.items() if mentions(k, ('obj', 'ec'))]
                        cx.ob(len(f) == 1 and f[0] == (load(q, up) != TRUE), fn, 'a stream must be marked as secure exactly if the handshake succeeded', q)
                        cx.ob(any(carries(q.state, x, root('ec')) for e in q.events if e.kind == 'call' and short(e.name) in ('operator()', 'values') for x in list(e.args) + list(e.argv)), fn, 'the outcome of the handshake must be passed on', q)
                cx.ob(ok, fn, 'a stream that was handshaken must be marked as secure', p)
def cx_closures(cx, p):
    """closures made on the path, with the final state"""
    out = []
    for e in p.events:
        for v in list(e.argv or ()) + [e.val]:
            for c in find_lams(v):
                out.append((c, p.state))
    return out


def find_lams(v):
    if isinstance(v, tuple):
        if v and v[0] == 'lam':
            return [v]
        r = []
        for x in v:
            r += find_lams(x)
        return r
    return []


def before_or_at(p, c):
    """(left, right, op, truth) of each comparison of time points on the path"""
    out = []
    for e in p.events:
        if e.kind != 'call' or not e.name.startswith('std::chrono::operator') or len(e.argv or ()) != 2:
            continue
        op = e.name[len('std::chrono::operator'):]
        v = e.val
        if op == '<=>':
            n = [x for x in p.events if x.kind == 'call' and x.name.startswith('std::operator') and x.argv and x.argv[0] == v]
            for x in n:
                out.append((e.argv[0], e.argv[1], x.name[len('std::operator'):], x.val))
        else:
            out.append((e.argv[0], e.argv[1], op, v))
    return out


def not_later(p, first, second, want=None):
    """the path knows first <= second (or the value `want` means it)"""
    for a, b, op, v in before_or_at(p, None):
        if v is None:
            continue
        t = True if want is not None and v == want else fact(p, v)
        neg = want is not None and want == ('o', '!', v)
        if neg:
            t = False
        if t is None:
            continue
        if first(a) and second(b):
            if op in ('<', '<=') and t or op in ('>', '>=') and not t:
                return True
        elif first(b) and second(a):
            if op in ('>', '>=') and t or op in ('<', '<=') and not t:
                return True
    return False


@rule('P38')
def an_expired_timer_is_ready_and_no_other(cx):
    """A timer or sleep completes without waiting exactly once its own clock is past its expiry, and then without an error."""
    timers_are_ready_in_time(cx)


def timers_are_ready_in_time(cx):
    some = set()
    for name, exp in (('ready_steady_timer', 'expiry'), ('ready_system_timer', 'expiry'), ('ready_steady_sleep', 't'), ('ready_system_sleep', 't')):
        fo = Foreign()
        fn, R, ps = starts(cx, name, fo)
        clock = 'steady_clock' if 'steady' in name else 'system_clock'
        for p in ps:
            hs = handler_calls(p, R['r'], fo)
            if not hs:
                continue
            some.add(name)
            cx.ob(len(hs) == 1, fn, 'completion must be reported once', p)
            now = [c.val for c in p.events if c.kind == 'call' and c.name == 'std::chrono::_V2::%s::now' % clock or c.kind == 'call' and c.name.endswith(clock + '::now')]
            ex = (lambda v: 'expiry' in show(v)) if exp == 'expiry' else (lambda v: v == I(R['t']))
            cx.ob(not_later(p, ex, lambda v: v in now), fn, 'a timer must not complete before its time', p)
            cx.ob(all(show(c.argv[0]) in ('new(boost::system::error_code)', '0') for c in hs), fn, 'a timer that expired completes without an error', p)
        cx.ob(name in some, fn, 'an expired timer must be reported as ready')


@rule('P25')
def readiness_is_reported_truthfully(cx):
    """A timer, sleep or socket completes without waiting only when its time has come or bytes are there; reads, writes and files always go through their operation."""
    timers_are_ready_in_time(cx)
    fo = Foreign()
    fn, R, ps = starts(cx, 'ready_socket_wait', fo)
    some = set()
    for p in ps:
        hs = handler_calls(p, R['r'], fo)
        if hs:
            some.add('wait')
            br = calls(p, 'bytes_readable')
            cx.ob(len(br) == 1 and under_path(br[0].obj, R['s']), fn, 'a socket is readable if it has bytes to read', p)
            cx.ob(fact(p, I(R['w'])) is False or any(mentions(k, I(R['w'])) and '==' in show(k) and t for k, t in p.state.facts.items()), fn, 'only waiting to read completes when there is something to read', p)
            k = [(k, t) for k, t in p.state.facts.items() if br and mentions(k, br[0].val)]
            cx.ob(len(k) >= 2 and all(t is True for _, t in k), fn, 'there must be bytes to read', p)
    for name in ('ready_stream_socket_read', 'ready_stream_file_write', 'ready_random_access_file_read_at', 'ready_random_access_file_write_at'):
        fo = Foreign()
        fn, R, ps = starts(cx, name, fo)
        for p in ps:
            cx.ob(not handler_calls(p, R['r'], fo), fn, 'nothing was transferred yet', p)


@rule('P25')
def secure_streams_refuse_what_is_out_of_order(cx):
    """A second handshake and a shutdown without handshake fail at once, with the error for that; in order they are started."""
    for name, when, err in (('ready_ssl_handshake', True, 'already_started'), ('ready_ssl_handshake_buffer', True, 'already_started'), ('ready_ssl_shutdown', False, 'no_protocol_option')):
        fo = Foreign()
        fn, R, ps = starts(cx, name, fo)
        for p in ps:
            f = [(k, t) for k, t in p.state.facts.items() if k[0] == 'i' and k[1][:1] == R['s']]
            hs = handler_calls(p, R['r'], fo)
            cx.ob(len(f) == 1 and (len(hs) == 1) == (f[0][1] == when), fn, 'exactly an operation that is out of order must fail', p)
            cx.ob(all(err in show(c.argv[0]) for c in hs), fn, 'the error must be %s' % err, p)


@rule('P25')
def an_operation_uses_the_given_implementation(cx):
    """read_op, write_op, read_at_op, write_at_op and wait_op call the implementation they were given once, with the object, offset and buffers they were given; the one for
    immediate completion only if there is one."""
    for name, want in (('read', ('t', 'b', 'h')), ('write', ('t', 'b', 'h')), ('read_at', ('t', 'o', 'b', 'h')), ('write_at', ('t', 'o', 'b', 'h')), ('wait', ('t', 'h'))):
        for ready in (False, True):
            fo = Foreign()
            fn, R, ps = starts(cx, ('ready_' if ready else '') + 'custom_' + name, fo)
            for p in ps:
                ind = [e for e in p.events if e.kind == 'call' and e.name == '<indirect>']
                none = fact(p, I(R['y'])) is False
                if ready and none:
                    cx.ob(not ind, fn, 'without an implementation nothing is called', p)
                    continue
                cx.ob(len(ind) == 1, fn, 'the implementation must be called once', p)
                if len(ind) != 1:
                    continue
                e, st = ind[0], fo.before(ind[0])
                tgt = e.val if e.obj is None else e.obj
                cx.ob(I(R['y' if ready else 'i']) in (e.obj, e.extra, e.val) or tgt == I(R['y' if ready else 'i']), fn, 'the implementation called must be the one given', p)
                if st is not None:
                    cx.ob(in_order(st, e, R, want), fn, 'it must be called with what was given', p)
                if ready:
                    cx.ob(fact(p, I(R['y'])) is True, fn, 'it must be there', p)
