"""The public headers (P32)."""
import concurrent.futures as cf
import os, re, subprocess, tempfile
import db as _db
from lib import *

INC = 'include/boost/'
# what the documentation says is in a header (doc/reference); io:: names are in boost::cobalt::io
NAMES = {
    'async_for': [], 'channel': ['channel'], 'composition': [], 'concepts': ['awaitable', 'awaitable_type', 'enable_awaitables'], 'config': ['executor'],
    'detached': ['detached'], 'error': ['error', 'cobalt_category', 'make_error_code'], 'gather': ['gather'], 'generator': ['generator'], 'join': ['join'],
    'main': ['main'], 'noop': ['noop'], 'op': ['op', 'use_op', 'use_op_t', 'enable_await_deferred'], 'promise': ['promise'], 'race': ['race', 'left_race'],
    'result': ['as_result', 'as_tuple'], 'run': ['run'], 'spawn': ['spawn'], 'task': ['task', 'use_task', 'use_task_t'], 'thread': ['thread'],
    'this_coro': ['this_coro::executor', 'this_coro::cancellation_state', 'this_coro::cancelled', 'this_coro::reset_cancellation_state', 'this_coro::throw_if_cancelled',
                  'this_coro::initial', 'this_coro::allocator', 'promise_cancellation_base', 'promise_throw_if_cancelled_base', 'enable_await_allocator', 'enable_await_executor'],
    'this_thread': ['this_thread::get_executor', 'this_thread::set_executor', 'this_thread::has_executor', 'this_thread::get_allocator', 'this_thread::get_default_resource', 'this_thread::set_default_resource'],
    'unique_handle': ['unique_handle'], 'wait_group': ['wait_group'], 'with': ['with'],
    'io/acceptor': ['io::acceptor'], 'io/buffer': ['io::mutable_buffer_sequence', 'io::const_buffer_sequence', 'io::buffer'],
    'io/datagram_socket': ['io::datagram_socket', 'io::make_pair'],
    'io/endpoint': ['io::endpoint', 'io::protocol_type', 'io::static_protocol', 'io::make_endpoint_tag', 'io::get_endpoint_tag', 'io::local_endpoint', 'io::ip_address', 'io::ip_address_v4', 'io::ip_address_v6',
                    'io::bad_endpoint_access', 'io::get', 'io::ip', 'io::tcp', 'io::tcp_v4', 'io::tcp_v6', 'io::udp', 'io::udp_v4', 'io::udp_v6', 'io::local_stream', 'io::local_datagram'],
    'io/file': ['io::file'], 'io/ops': ['io::read_op', 'io::write_op', 'io::read_at_op', 'io::write_at_op', 'io::wait_op'], 'io/pipe': ['io::readable_pipe', 'io::writable_pipe', 'io::pipe'],
    'io/random_access_device': ['io::random_access_device'], 'io/random_access_file': ['io::random_access_file'], 'io/read': ['io::read', 'io::read_at', 'io::read_all'],
    'io/resolver': ['io::resolver', 'io::lookup'], 'io/seq_packet_socket': ['io::seq_packet_socket', 'io::make_pair'], 'io/serial_port': ['io::serial_port'], 'io/signal_set': ['io::signal_set'],
    'io/sleep': ['io::sleep'], 'io/socket': ['io::socket'], 'io/ssl': ['io::ssl::stream', 'io::ssl::context'], 'io/steady_timer': ['io::steady_timer'], 'io/stream': ['io::stream'], 'io/stream_file': ['io::stream_file'],
    'io/stream_socket': ['io::stream_socket', 'io::make_pair'], 'io/system_timer': ['io::system_timer'], 'io/write': ['io::write', 'io::write_at', 'io::write_all'],
    'experimental/context': ['experimental::context', 'experimental::make_context'], 'experimental/frame': ['experimental::frame'], 'experimental/yield_context': [],
}
MACROS = {'async_for': ['BOOST_COBALT_FOR']}
# the headers an umbrella header stands for
WHOLE = {'': ['async_for', 'channel', 'concepts', 'config', 'detached', 'error', 'gather', 'generator', 'join', 'main', 'op', 'promise', 'race', 'run', 'spawn', 'task', 'this_coro', 'this_thread', 'thread',
              'wait_group', 'with'],
         'io': [k for k in NAMES if k.startswith('io/') and k != 'io/ssl']}


def public():
    base = os.path.join(_db.REPO, INC)
    out = []
    for r, d, fs in os.walk(base):
        rel = os.path.relpath(r, base)
        if 'detail' in rel.split('/') or 'impl' in rel.split('/'):
            continue
        out += [os.path.normpath(os.path.join(rel, f)) for f in fs if f.endswith('.hpp')]
    if len(out) < 40:
        raise Anchor('only %d public headers were found' % len(out))
    return sorted(out)


def every():
    base = os.path.join(_db.REPO, INC)
    return sorted(os.path.relpath(os.path.join(r, f), base) for r, d, fs in os.walk(base) for f in fs if f.endswith('.hpp'))


def header(h, line=1):
    return {'n': h, 'q': '<boost/%s>' % h, 'file': INC + h, 'line': line, 'id': 'header:' + h, 'params': []}


def clang(text, *more):
    cmd = ['clang++', '-std=c++20', '-w', '-DBOOST_ASIO_NO_DEPRECATED', '-DBOOST_COBALT_STATIC_LINK=1', '-ferror-limit=3', '-fno-caret-diagnostics', '-I' + os.path.join(_db.REPO, 'include'), '-x', 'c++'] + list(more) + ['-']
    r = subprocess.run(cmd, input=text, capture_output=True, text=True)
    return r.returncode, r.stdout, r.stderr


def each(f, xs):
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        return list(zip(xs, ex.map(f, xs)))


def first_error(err):
    m = re.search(r'^(.*?):(\d+):\d+: (?:fatal )?error: (.*)$', err, re.M)
    if not m:
        return None
    f = m.group(1)
    base = os.path.join(_db.REPO, '')
    return (f[len(base):] if f.startswith(base) else f), int(m.group(2)), m.group(3)


def name_of(h):
    return h[len('cobalt/'):-4] if h.startswith('cobalt/') else ''


def witness(h):
    """a unit that includes the header twice and names what it declares"""
    k = name_of(h)
    names = [n for x in WHOLE[k] for n in NAMES[x]] if k in WHOLE and (k or h == 'cobalt.hpp') else NAMES.get(k, [])
    macros = MACROS.get(k, []) if k else [m for ms in MACROS.values() for m in ms]
    t = '#include <boost/%s>\n#include <boost/%s>\nnamespace witness {\n' % (h, h)
    at = {}
    for i, n in enumerate(names):
        at[t.count('\n') + 1] = n
        t += 'namespace w%d { using boost::cobalt::%s; }\n' % (i, n)
    t += '}\n'
    for m in macros:
        at[t.count('\n') + 2] = m
        t += '#ifndef %s\n#error %s is not defined\n#endif\n' % (m, m)
    return t, at


@rule('P32')
def a_header_stands_alone(cx):
    """Every public header compiles when nothing else was included, can be included twice, and declares what the documentation says it does."""
    hs = public()
    cx.extra['headers'] = hs
    for h in hs:
        if name_of(h) and name_of(h) not in NAMES and name_of(h) != 'io':
            cx.notes.append('%s is a header this check has no names for' % h)
    for h, (rc, out, err) in each(lambda h: clang(witness(h)[0], '-fsyntax-only'), hs):
        e = first_error(err)
        if rc == 0:
            cx.ob(True, header(h), '')
        elif e is None:
            raise Anchor('clang gave no answer for %s: %s' % (h, err[-200:]))
        elif e[0] == '<stdin>' and e[1] in witness(h)[1]:
            cx.ob(False, header(h), 'it must declare %s (%s)' % (witness(h)[1][e[1]], e[2]), key='names')
        else:
            cx.ob(False, header(h), 'it must compile on its own (%s:%d: %s)' % e, key='alone')


GUARD = re.compile(r'\A#\s*(?:ifndef\s+(\w+)|if\s+!\s*defined\s*\(?\s*(\w+)\s*\)?)\s*$', re.M)


@rule('P32')
def no_header_hides_another(cx):
    """Including a header never keeps another one from being included: what makes a header empty the second time is defined by that header only."""
    hs = every()
    text = {h: open(os.path.join(_db.REPO, INC, h)).read() for h in hs}
    guard = {}
    for h in hs:
        body = re.sub(r'//[^\n]*|/\*.*?\*/', '', text[h], flags=re.S).strip()
        m = GUARD.match(body)
        if m:
            guard[h] = m.group(1) or m.group(2)
    if len(guard) < len(hs) // 2 and sum('#pragma once' in t for t in text.values()) < len(hs) // 2:
        raise Anchor('what guards the headers was not found')
    owner = {}
    for h, g in sorted(guard.items()):
        o = owner.setdefault(g, h)
        cx.ob(o == h, header(h), '<boost/%s> must not be hidden by <boost/%s> (both are guarded by %s)' % (h, o, g), key='guard')
    def macros(h):
        return clang('#include <boost/%s>\n' % h, '-E', '-dM', '-H')
    for h, (rc, out, err) in each(macros, public()):
        if rc:
            continue                      # it does not compile: said by the rule above
        defined = set(re.findall(r'^#define (\w+)', out, re.M))
        base = os.path.join(_db.REPO, INC)
        seen = {os.path.relpath(os.path.normpath(l.split(' ', 1)[1].strip()), base) for l in err.split('\n') if l.startswith('.')} | {h}
        for o, g in sorted(guard.items()):
            cx.ob(o in seen or g not in defined, header(h), '<boost/%s> must not be hidden by <boost/%s>, which defines %s' % (o, h, g), key='hides ' + o)


@rule('P32')
def all_headers_go_together(cx):
    """All public headers compile in one unit, in either order."""
    hs = public()
    for order in (hs, hs[::-1]):
        rc, out, err = clang(''.join('#include <boost/%s>\n' % h for h in order), '-fsyntax-only')
        e = first_error(err)
        if rc and e is None:
            raise Anchor('clang gave no answer: %s' % err[-200:])
        cx.ob(rc == 0, header(e[0][len(INC):] if e and e[0].startswith(INC) else order[-1], e[1] if e else 1), 'it must compile after the other headers (%s)' % (e[2] if e else ''), key='together')


STRONG = re.compile(r'^define (?!.*\b(?:linkonce_odr|linkonce|weak_odr|weak|internal|private|available_externally)\b)[^@]*@("?[\w.$]+"?)\(.*?(?:!dbg (!\d+))?', re.M)


@rule('P32')
def headers_can_be_used_by_many_units(cx):
    """What the headers define can be in every unit of a program: no function or object of external linkage is defined in a header without being inline."""
    with tempfile.TemporaryDirectory() as d:
        rc, out, err = clang(''.join('#include <boost/%s>\n' % h for h in public()), '-S', '-emit-llvm', '-g1', '-o', os.path.join(d, 'x.ll'))
        if rc:
            raise Anchor('the headers do not compile together')
        n = 0
        for l in open(os.path.join(d, 'x.ll')):
            if l.startswith('define '):
                n += 1
                head = l.split('@')[0]
                if not re.search(r'\b(linkonce_odr|linkonce|weak_odr|weak|internal|private|available_externally)\b', head):
                    s = re.search(r'@("?[\w.$]+"?)\(', l)
                    cx.ob(False, header('cobalt.hpp'), 'the function %s must be inline' % demangle(s.group(1)), key='strong ' + s.group(1))
            elif l.startswith('@') and re.match(r'@\S+ = (dso_local |local_unnamed_addr |unnamed_addr |thread_local )*(global|constant)\b', l):
                s = l[1:].split(' ')[0]
                cx.ob(False, header('cobalt.hpp'), 'the object %s must be inline' % demangle(s), key='strong ' + s)
        cx.ob(n > 100, header('cobalt.hpp'), 'the headers must have functions')


def demangle(s):
    r = subprocess.run(['c++filt', s.strip('"')], capture_output=True, text=True)
    return r.stdout.strip() or s
