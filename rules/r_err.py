"""Synchronous I/O functions (P24): no error of a call is dropped, and each performs the call it is named for."""
from lib import *
from r_ops import failed, carries, under_path, not_later

IO = 'boost::cobalt::io::'
CFALL = ('open', 'close', 'lseek', 'fstat', 'ftruncate', 'fsync', 'fdatasync', 'read', 'write', 'pread', 'pwrite', 'ioctl', 'fcntl', 'stat', 'dup', 'pipe', 'socket', 'socketpair', 'bind', 'syncfs')
THROWING = ('open', 'close', 'cancel', 'assign', 'set_option', 'get_option', 'io_control', 'shutdown', 'bind', 'connect', 'connect_pair', 'connect_pipe', 'local_endpoint', 'remote_endpoint',
            'add', 'remove', 'clear', 'send_break', 'release', 'set_verify_mode', 'set_verify_depth', 'set_verify_callback', 'size', 'resize', 'sync_all', 'sync_data', 'seek', 'available', 'at_mark', 'non_blocking', 'wait')


class Calls:
    """gives every call out of the library an outcome of its own: an error code, or a return value"""
    def __init__(self):
        self.rec, self.st = {}, {}

    def __call__(self, eng, s, kind, name):
        e = s.trace[1]
        if e is None or e.kind not in ('call', 'ctor'):
            return False
        self.st[id(e)] = (e, s.copy())
        if e.kind != 'call' or short(name) in ('operator bool', 'failed'):
            return False
        pk = (e.fn or {}).get('pk') or []
        ecs = [x.obj for x in s.events() if x.kind == 'ctor' and x.name == 'boost::system::error_code']
        got = None
        for i, a in enumerate(e.args):
            k = pk[i] if i < len(pk) else 'v'
            if k == 'lr' and a[0] == 'L' and a in ecs:
                got = ('u', 'ec', short(name), i, id(e))
                eng.put(s, a[1], got)
            elif a is not None and (k in ('lr', 'p') and a[0] == 'L' and a not in ecs or k == 'p' and a[0] == 'p' and a[1] and a[1][0][0] in ('v', 't')):
                at = a[1][:-1] if k == 'p' and len(a[1]) > 1 and a[1][-1] == ('at', 0) else a[1]    # the whole array
                eng.put(s, at, ('u', 'out', short(name), i, id(e)))
        posix = '::' not in name.lstrip(':') and name.lstrip(':') in CFALL
        if got is not None or posix or name.startswith('boost::asio::') and short(name) in THROWING and not (short(name) == 'release' and 'basic_descriptor' in name) \
                and not any(x in name for x in ('socket_option', 'io_control::')):
            self.rec[id(e)] = (e, got, posix)
        return True

    def before(self, e, p):
        return self.st[id(e)][1] if id(e) in self.st else p.state

    def steps(self, p):
        return [self.rec[id(e)] for e in p.events if id(e) in self.rec]

    def status(self, p, e, ec):
        """has the call failed, as far as the path looked?"""
        if ec is not None:
            for k, t in p.state.facts.items():
                if k[0] == 'o' and k[1].endswith(('error_code::operator bool', 'error_code::failed')) and mentions(k, ec):
                    return bool(t)
                if k[0] == 'o' and k[1].endswith('error_code::value') and mentions(k, ec):
                    return bool(t)
                if k[0] == 'o' and k[1] in ('==', '!=') and mentions(k, ec):
                    o = k[3] if mentions(k[2], ec) else k[2]
                    if cv(o) == 0 or 'error_code' in show(o):
                        return bool(t) == (k[1] == '!=')
        if e.val is not None:
            return failed(p, e.val)
        return None


def results(cx):
    def public(f):
        return not f.get('lambda') and '(lambda' not in f['n'] and (f.get('access', 'pub') == 'pub' if f.get('cls') else f['file'].endswith('.hpp') or short(f['n']) in ('pipe', 'connect_pair'))
    return sorted((f for f in cx.db.fns.values() if f['n'].startswith(IO) and f['ret'].startswith('boost::system::result') and f.get('body') is not None and public(f)), key=lambda f: f['id'])


def go(cx, fn, **kw):
    co = Calls()
    kw.setdefault('may_throw', None)
    kw = {k: v for k, v in kw.items() if v is not None}
    return co, cx.paths(fn, this=root('this'), args=[('L', root(x['n'] or 'a%d' % i)) for i, x in enumerate(fn['params'])], on_foreign=co, **kw)


def result_of(p):
    v = p.value
    return v[1] if v is not None and v[0] == 'L' else None


def under(v):
    return v is not None


@rule('P24')
def errors_are_reported(cx):
    """Every call that can fail is asked for its error and looked at; the first one that failed is what the function returns, and a value is returned only if none failed."""
    fs = results(cx)
    if len(fs) < 30:
        raise Anchor('only %d I/O functions return a result' % len(fs))
    for fn in fs:
        co, ps = go(cx, fn)
        for p in ps:
            if p.outcome != 'return':
                continue
            r = result_of(p)
            cx.ob(r is not None, fn, 'a result must be returned', p)
            if r is None:
                continue
            bad = None
            for e, ec, posix in co.steps(p):
                cx.ob(ec is not None or posix, fn, 'the error of %s must be reported, not thrown' % short(e.name), p, line=e.line)
                if ec is None and not posix:
                    continue
                t = co.status(p, e, ec)
                if cv(load(p, r + ('?',))) == 0 and load(p, r + ('!',)) == ec and ec is not None and t is None:
                    t = None
                cx.ob(t is not None, fn, 'whether %s failed must be looked at' % short(e.name), p, line=e.line)
                if t:
                    bad = (e, ec)
                    break
            ok = cv(load(p, r + ('?',)))
            cx.ob(ok is not None, fn, 'the result must be a value or an error', p)
            if bad:
                cx.ob(ok == 0, fn, 'the failure of %s must not look like success' % short(bad[0].name), p)
                x = load(p, r + ('!',))
                if ok == 0 and bad[1] is not None:
                    cx.ob(x == bad[1] or mentions(x, bad[1]), fn, 'the error returned must be the one of %s' % short(bad[0].name), p)
                elif ok == 0:
                    cx.ob(has_sym(x, '__errno_location') and (has_sym(x, 'system_category') or has_sym(x, 'generic_category')), fn, 'the error returned must be the one of %s' % short(bad[0].name), p)
            else:
                cx.ob(ok == 1, fn, 'success must not look like a failure', p)


OPTS = {'debug': 'debug', 'do_not_route': 'do_not_route', 'enable_connection_aborted': 'enable_connection_aborted', 'keep_alive': 'keep_alive', 'receive_buffer_size': 'receive_buffer_size',
        'send_buffer_size': 'send_buffer_size', 'receive_low_watermark': 'receive_low_watermark', 'send_low_watermark': 'send_low_watermark', 'reuse_address': 'reuse_address', 'no_delay': 'no_delay',
        'linger': 'linger', 'baud_rate': 'baud_rate', 'character_size': 'character_size', 'flow_control': 'flow_control', 'parity': 'parity'}
SPECIAL = {'bytes_readable': ('io_control',), 'resize': ('ftruncate', 'resize'), 'size': ('fstat', 'size'), 'sync_all': ('fsync', 'sync_all'), 'sync_data': ('fdatasync', 'fsync', 'sync_data'), 'seek': ('lseek', 'seek'),
           'pipe': ('connect_pipe',), 'connect_pair': ('socketpair', 'connect_pair'), 'make_pair': ('socketpair', 'connect_pair')}


def option_types(cx):
    fn = cx.fn('drv_ops::option_types')
    names = ['debug', 'do_not_route', 'enable_connection_aborted', 'keep_alive', 'receive_buffer_size', 'send_buffer_size', 'receive_low_watermark', 'send_low_watermark', 'reuse_address', 'linger', 'no_delay',
             'baud_rate', 'character_size', 'flow_control', 'parity', 'bytes_readable']
    ts = [x.get('tc') or x['t'] for x in fn['params']]
    if len(ts) != len(names):  # see drivers/ops.cpp
        raise Anchor('the option types are not known')
    return {n: t.rstrip(' *') for n, t in zip(names, ts)}


def value_mentions(p, r, v):
    return any(k[:len(r) + 1] == r + ('*',) and mentions(x, v) for k, x in p.state.store.items()) or mentions(load(p, r + ('*',)), v)


@rule('P24')
def a_call_does_what_it_is_named_for(cx):
    """Each synchronous I/O function calls what it is named for, on its own implementation, with its arguments, and returns what that gave."""
    ot = option_types(cx)
    for fn in results(cx):
        name = short(fn['n'])
        verb, opt = name, None
        if name.startswith(('set_', 'get_')) and name[4:] in OPTS:
            verb, opt = name[:3] + '_option', ot[OPTS[name[4:]]]
        names = SPECIAL.get(name, (verb,))
        member = not fn['n'].startswith(IO) or fn['n'].count('::') > 3
        co, ps = go(cx, fn)
        good = False
        for p in ps:
            if p.outcome != 'return':
                continue
            es = [e for e, ec, posix in co.steps(p) if short(e.name).lstrip(':') in names]
            if not es:
                es = [e for e in p.events if id(e) in co.st and e.kind == 'call' and short(e.name).lstrip(':') in names]
            cx.ob(len(es) == 1, fn, '%s must be called once' % ' or '.join(names), p)
            if len(es) != 1:
                continue
            e, st = es[0], co.st[id(es[0])][1]
            if member:
                on = e.obj if e.obj is not None else (e.argv[0] if e.argv else None)
                own = on is not None and (mentions(on, ('obj', 'this')) or any(mentions(x.obj, ('obj', 'this')) for x in p.events if x.kind == 'call' and short(x.name) == 'native_handle' and x.val == on))
                if not own and e.obj is None and e.val is not None:      # a new descriptor is handed to the implementation
                    own = any(x.obj is not None and mentions(x.obj, ('obj', 'this')) and e.val in (x.argv or ()) for x in calls(p, 'assign')) or failed(p, e.val)
                cx.ob(own, fn, 'it must be called on the implementation of the object', p, line=e.line)
            if opt:
                made = [x for x in p.events if x.kind == 'ctor' and x.obj is not None and x.obj in (e.args or ())]
                cx.ob(bool(made) and (made[-1].fn or {}).get('cls') == opt, fn, 'the option must be %s' % opt, p, line=e.line)
                if name.startswith('set_') and made:
                    i = 0
                    for x in fn['params']:
                        while i < len(made[-1].args) and not flows(co.st[id(made[-1])][1] if id(made[-1]) in co.st else st, made[-1].args[i], made[-1].argv[i], root(x['n'])):
                            i += 1
                        cx.ob(i < len(made[-1].args), fn, 'the option must have the value given', p, line=e.line)
                        i += 1
            elif name not in ('pipe', 'make_pair'):
                i = 0
                for x in fn['params']:
                    if name == 'connect_pair' and x['n'] != 'protocol' and fn['params'].index(x) > 0:
                        continue
                    while i < len(e.args) and not flows(st, e.args[i], e.argv[i], root(x['n'])):
                        i += 1
                    cx.ob(i < len(e.args), fn, '%s must be called with the %s given' % (short(e.name), x['n']), p, line=e.line)
                    i += 1
            if name == 'connect_pair':
                for x in calls(p, 'assign'):
                    if id(x) in co.st and x.args:
                        s0, pr = co.st[id(x)][1], root(fn['params'][0]['n'])
                        cx.ob(x.args[0][0] == 'L' and all(ENG.load(s0, x.args[0][1] + (f,)) == I(pr + (f,)) for f in ('family_', 'type_', 'protocol_')), fn, 'the sockets must be of the protocol given', p, line=x.line)
            r = result_of(p)
            if r is not None and cv(load(p, r + ('?',))) == 1 and fn['ret'] != 'boost::system::result<void>' and '<void' not in fn['ret'].split('result')[1]:
                outs = [('u', 'out', short(e.name), i, id(e)) for i in range(len(e.args))] + ([e.val] if e.val is not None else [])
                # wrappers of a release without an error: the handle itself
                if name == 'release':
                    outs += [x.val for x in p.events if x.kind == 'call' and short(x.name) == 'native_handle' and x.val is not None]
                if name in ('pipe', 'make_pair'):
                    continue
                if short(e.name).lstrip(':') == 'fstat':
                    outs = [('o', 'fld', v, 'st_size') for v in outs]
                cx.ob(any(value_mentions(p, r, v) for v in outs), fn, 'what %s gave must be returned' % short(e.name), p)
            good = True
        if not good:
            raise Anchor('no path of %s calls anything' % fn['n'])


def flows(st, a, v, src):
    """the argument is (made from) the parameter"""
    if carries(st, a, src) or a is not None and mentions(a, src[0]) or v is not None and mentions(v, src[0]):
        return True
    return False


@rule('P24')
def a_descriptor_is_not_lost(cx):
    """A descriptor that was opened and could not be handed to its object is closed."""
    n = 0
    for fn in results(cx):
        co, ps = go(cx, fn)
        for p in ps:
            if p.outcome != 'return':
                continue
            st = co.steps(p)
            for e, ec, posix in st:
                if short(e.name).lstrip(':') not in ('open', 'socketpair') or not (posix or 'socket_ops' in e.name):
                    continue
                if co.status(p, e, ec) is not False:
                    continue
                n += 1
                # the descriptors made: the value of open, the pair of socketpair
                fds = [e.val] if posix else [('o', 'fld', ('u', 'out', short(e.name), i, id(e)), ('at', j)) for i, a in enumerate(e.args) for j in (0, 1) if a[0] in 'Lp' and ('u', 'ec', short(e.name), i, id(e)) != ec and not (a[0] == 'p' and a[1][0][0] != 'v')]
                for fd in fds:
                    mine = lambda x: any(a is not None and (a == fd or mentions(a, fd)) for a in (x.argv or ()))
                    asg = [(x, co.status(p, x, c)) for x, c, _ in st if short(x.name) == 'assign' and mine(x)]
                    cl = [x for x in p.events if x.kind == 'call' and short(x.name).lstrip(':') == 'close']
                    owner = [x.obj for x, t in asg if t is False]
                    direct = sum(1 for x in cl if mine(x))
                    cx.ob(len(owner) + direct == 1, fn, 'a descriptor that was opened must be assigned or closed, once', p, line=e.line)
                    if cv(load(p, result_of(p) + ('?',))) == 0 and owner:
                        cx.ob(any(x.obj == owner[0] for x in cl), fn, 'nothing must be left open when the function fails', p, line=e.line)
    if n < 2:
        raise Anchor('no descriptor is opened')


QUERY = {'is_open': ('is_open',), 'native_handle': ('native_handle',), 'get_executor': ('get_executor',), 'expiry': ('expiry',)}


@rule('P24')
def a_query_answers_for_the_object(cx):
    """is_open, native_handle, get_executor and expiry answer for the implementation of the object; expired compares the expiry with now; reset and cancel act on its timer."""
    if queries(cx) < 10:
        raise Anchor('too few queries')


@rule('P38')
def a_timer_reports_and_changes_its_own_expiry(cx):
    """Resetting a timer sets its expiry to the time given (a duration: from now on), expiry reports it, and expired compares it with now on the clock of the timer."""
    if queries(cx, True) < 8:
        raise Anchor('too few queries of timers')


@rule('P38')
def a_timer_is_made_with_the_time_given(cx):
    """A timer is constructed with the executor and the expiry given."""
    n = 0
    for fn in sorted(cx.db.fns.values(), key=lambda f: f['id']):
        if fn.get('body') is None or fn['n'] not in (IO + 'steady_timer::steady_timer', IO + 'system_timer::system_timer'):
            continue
        n += 1
        for p in cx.paths(fn, this=root('this'), args=[('L', root(x['n'] or 'a%d' % i)) for i, x in enumerate(fn['params'])]):
            if p.outcome == 'throw':
                continue
            mk = [e for e in p.events if e.kind in ('ctor', 'call', 'engage', 'init') and e.obj is not None and mentions(e.obj, ('obj', 'this')) and 'basic_waitable_timer' in e.name]
            cx.ob(len(mk) == 1, fn, 'a timer must be made once', p)
            set_ = [e for e in p.events if e.kind == 'call' and short(e.name).startswith('expires_') and e.obj is not None and mentions(e.obj, ('obj', 'this'))]
            for i, x in enumerate(fn['params']):
                r = root(x['n'] or 'a%d' % i)
                if 'executor' in x['t']:
                    cx.ob(any(a is not None and mentions(a, r[0]) for e in mk for a in e.argv or ()), fn, 'a timer must be made with its executor', p)
                    continue
                is_it = lambda e: any(a is not None and a in (I(r), ('L', r)) for a in list(e.argv or ()) + list(e.args or ()))
                want = ('expires_at',) if 'time_point' in x['t'] else ('expires_after', 'expires_from_now')
                last = set_[-1] if set_ else None
                cx.ob(is_it(last) and short(last.name) in want if last is not None else any(is_it(e) for e in mk), fn, 'a timer must be made with the time given', p)
    if n < 6:
        raise Anchor('only %d timer constructors' % n)


def queries(cx, only_timers=False):
    n = 0
    for fn in sorted(cx.db.fns.values(), key=lambda f: f['id']):
        name, cls = short(fn['n']), (fn.get('cls') or '')
        if not fn['n'].startswith(IO) or fn['ret'].startswith('boost::system::result') or fn.get('body') is None or cls.endswith('_op') or '::acceptor' in cls:
            continue
        timer = cls.endswith(('steady_timer', 'system_timer'))
        if only_timers and not timer:
            continue
        if name in QUERY:
            co, ps = go(cx, fn)
            for p in ps:
                if p.outcome != 'return':
                    continue
                n += 1
                es = [e for e in p.events if e.kind == 'call' and short(e.name) in QUERY[name] and e.obj is not None and mentions(e.obj, ('obj', 'this'))]
                v = p.value
                v = load(p, v[1]) if v is not None and v[0] == 'L' else v
                cx.ob(any(e.val is not None and (e.val == p.value or e.val == v or mentions(v, e.val) or e.val[0] == 'L' and load(p, e.val[1]) == v) for e in es), fn, '%s must be what the implementation says' % name, p)
        elif timer and name == 'expired':
            co, ps = go(cx, fn)
            for p in ps:
                if p.outcome != 'return':
                    continue
                n += 1
                ex = [e for e in calls(p, 'expiry') if mentions(e.obj, ('obj', 'this'))]
                now = calls(p, 'now')
                cx.ob(len(ex) >= 1 and len(now) >= 1, fn, 'the expiry must be compared with now', p)
                clock = 'steady' if 'steady' in cls else 'system'
                cx.ob(all(clock in e.name for e in now), fn, 'the clock must be the one of the timer', p)
                if ex and now:
                    v = p.value
                    v = load(p, v[1]) if v is not None and v[0] == 'L' else v
                    is_ = lambda es: lambda x: any(e.val == x for e in es)
                    if cv(v) is None:
                        cx.ob(not_later(p, is_(ex), is_(now), v), fn, 'a timer must be expired exactly if its expiry has passed', p)
                    else:
                        cx.ob(not_later(p, is_(ex), is_(now)) == bool(cv(v)), fn, 'a timer must be expired exactly if its expiry has passed', p)
        elif timer and name in ('reset', 'cancel') or cls.endswith('::resolver') and name == 'cancel':
            co, ps = go(cx, fn)
            for p in ps:
                if p.outcome != 'return':
                    continue
                n += 1
                es = [e for e in p.events if e.kind == 'call' and e.obj is not None and mentions(e.obj, ('obj', 'this'))]
                want = ('cancel',) if name == 'cancel' else ('expires_after', 'expires_from_now') if 'duration' in str(fn['params'][0]['t']) and 'time_point' not in str(fn['params'][0]['t']) else ('expires_at',)
                cx.ob(len(es) == 1 and short(es[0].name) in want, fn, '%s must be called on the timer' % want[0], p)
                if len(es) == 1 and name == 'reset':
                    cx.ob(flows(co.st[id(es[0])][1], es[0].args[0], es[0].argv[0], root(fn['params'][0]['n'])), fn, 'the timer must be set to the time given', p)
    return n



OBJECTS = ('file', 'stream_file', 'random_access_file', 'readable_pipe', 'writable_pipe', 'serial_port', 'signal_set', 'datagram_socket', 'stream_socket', 'seq_packet_socket', 'ssl::stream',
           'steady_timer', 'system_timer', 'resolver', 'acceptor')


@rule('P24')
def a_new_object_is_made_from_what_it_is_given(cx):
    """The constructor of an I/O object hands each of its arguments to the implementation, and throws if that fails."""
    n = 0
    for fn in sorted(cx.db.fns.values(), key=lambda f: f['id']):
        cls = (fn.get('cls') or '')
        if not fn.get('ctor') or fn['ctor'] in ('copy', 'move') or not cls.startswith(IO) or cls[len(IO):] not in OBJECTS or not fn['params'] or fn.get('body') is None:
            continue
        co, ps = go(cx, fn)
        got = set()
        for p in ps:
            if p.outcome != 'return':
                continue
            n += 1
            for e, ec, posix in co.steps(p):
                if ec is not None or posix:
                    cx.ob(co.status(p, e, ec) is False, fn, 'an object must not be made if %s failed' % short(e.name).lstrip(':'), p, line=e.line)
            for x in fn['params']:
                r = root(x['n'])
                hit = False
                for e in p.events:
                    if e.kind in ('call', 'ctor') and e.name != 'boost::system::error_code' and any(a is not None and flows(co.before(e, p), a, v, r) for a, v in zip(e.args or (), e.argv or ())):
                        hit = True
                if hit:
                    got.add(x['n'])
                if 'initializer_list' not in x['t']:
                    cx.ob(hit, fn, 'the %s given must be used' % x['n'], p)
        for x in fn['params']:
            if 'initializer_list' in x['t']:
                cx.ob(x['n'] in got, fn, 'the %s given must be used' % x['n'])
    if n < 15:
        raise Anchor('only %d constructors' % n)


@rule('P24')
def a_socket_acts_on_its_own_descriptor(cx):
    """Whatever way a socket is made, also by moving, the operations it inherits act on its own socket."""
    n = 0
    for fn in sorted(cx.db.fns.values(), key=lambda f: f['id']):
        cls = (fn.get('cls') or '')
        if not fn.get('ctor') or cls[len(IO):] not in ('datagram_socket', 'stream_socket', 'seq_packet_socket', 'ssl::stream') or not cls.startswith(IO) or fn['ctor'] == 'copy':
            continue
        if fn.get('body') is None:
            raise Anchor('no body for %s' % fn['q'])
        co, ps = go(cx, fn)
        for p in ps:
            if p.outcome != 'return':
                continue
            n += 1
            v = load(p, root('this') + ('socket_',))
            ok = v is not None and v[0] in 'pL' and v[1][:1] == root('this') or v is not None and any(e.kind == 'call' and short(e.name) in ('lowest_layer', 'next_layer') and e.obj is not None and e.obj[1][:1] == root('this') and e.val is not None and mentions(v, e.val) for e in p.events)
            cx.ob(ok, fn, 'the socket must refer to its own descriptor', p)
            if fn['ctor'] == 'move':
                lhs = root(fn['params'][0]['n'] or 'a0')
                cx.ob(any(e.kind in ('ctor', 'move', 'copy') and e.obj is not None and e.obj[0] == 'L' and e.obj[1][:1] == root('this') and len(e.obj[1]) > 1
                          and any(flows(co.before(e, p), a, x, lhs) for a, x in zip(e.args, e.argv or e.args)) for e in p.events), fn, 'a moved socket must take over the descriptor', p)
    if n < 10:
        raise Anchor('only %d ways to make a socket' % n)
