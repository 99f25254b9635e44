"""The event loop of run and main, and what belongs to the thread (P19)."""
from lib import *
from r_op import T_, H, comes_from, enum_ok
from r_slot import value_of_path
from r_spawn import At, only, under, hops, closure_given, class_of_temp


def thread_state(cx):
    """where the thread keeps its default resource and its executor"""
    res = exe = None
    for p in cx.paths(cx.fn('this_thread::get_default_resource')):
        v = value_of_path(p)
        if v[0] == 'i':
            res = v[1]
    for p in cx.paths(cx.fn('this_thread::has_executor')):
        v = value_of_path(p)
        if v[0] == 'i' and v[1][-1] == '?':
            exe = v[1][:-1]
    if res is None or exe is None:
        raise Anchor('state of the thread')
    return res, exe


@rule('P19')
def the_thread_remembers_what_it_was_given(cx):
    """The default resource and the executor of a thread are what was set last; asking for a missing executor throws; a context that goes
    away takes its executor with it."""
    RES, EXE = thread_state(cx)
    for fn in cx.fns('this_thread::set_default_resource'):
        for p in cx.paths(fn, args=[I(root('r'))]):
            cx.ob(load(p, RES) == I(root('r')), fn, 'the default resource must be the one that was set', p)
            cx.ob(value_of_path(p) == I(RES), fn, 'setting the default resource must return the one before', p)
    for fn in cx.fns('this_thread::get_allocator', need=0):
        for p in cx.paths(fn):
            cx.ob(mentions(value_of_path(p), I(RES)), fn, 'the default allocator must use the default resource', p)
    for fn in cx.fns('this_thread::get_executor'):
        for p in cx.paths(fn, args=[('L', root('loc'))] * len(fn['params'])):
            if p.outcome == 'throw':
                cx.ob(fact(p, I(EXE + ('?',))) is False and has_sym(p.value, 'bad_executor'), fn, 'a missing executor must be reported', p)
            else:
                cx.ob(fact(p, I(EXE + ('?',))) is True, fn, 'a missing executor must be reported', p)
                cx.ob(p.value == ('L', EXE + ('*',)) or value_of_path(p) == I(EXE + ('*',)), fn, 'the executor of the thread must be the one that was set', p)
    for fn in cx.fns('this_thread::set_executor'):
        for p in cx.paths(fn, args=[('L', root('e'))]):
            cx.ob(cv(load(p, EXE + ('?',))) == 1 and load(p, EXE + ('*',)) == I(root('e')), fn, 'the executor of the thread must be the one that was set', p)
            sv = [e for e in p.events if e.kind == 'call' and short(e.name) in ('use_service', 'make_service', 'add_service')]
            cx.ob(len(sv) == 1 and has_sym(sv[0].argv[0], 'query') and mentions(sv[0].argv[0], I(root('e'))) and 'this_thread_service' in str(sv[0].fn.get('ta')) + str(sv[0].fn.get('id')),
                  fn, 'the context of the executor must be watched', p)
    n = 0
    for fn in cx.fns('this_thread::this_thread_service::shutdown'):
        for p in cx.paths(fn, this=T_):
            same = [t for k, t in p.state.facts.items() if k[0] == 'o' and k[1] == '==']
            if fact(p, I(EXE + ('?',))) is not True:
                continue
            if same and same[0]:
                n += 1
                cx.ob(cv(load(p, EXE + ('?',))) == 0, fn, 'the executor of a context that goes away must be forgotten', p)
            elif same:
                cx.ob(load(p, EXE + ('?',)) == I(EXE + ('?',)) or cv(load(p, EXE + ('?',))) == 1, fn, 'the executor of another context must be kept', p)
            else:
                cx.ob(False, fn, 'the executor of a context that goes away must be forgotten', p)
    if not n:
        raise Anchor('contexts that go away')


LOOP = ('run', 'run_for', 'run_until', 'run_one', 'poll')


def loop_calls(p):
    return [e for e in p.events if e.kind == 'call' and e.name.startswith('boost::asio::io_context::') and short(e.name) in LOOP]


def ctx_paths(p):
    return {e.obj[1] for e in p.events if e.kind == 'ctor' and e.name == 'boost::asio::io_context' and e.obj}


def from_context(p, v, ctx):
    """value v is an executor of the context"""
    return any(e.obj == ('L', ctx) and mentions(v, e.val) for e in p.events if e.kind == 'call' and short(e.name) == 'get_executor')


@rule('P19')
def run_restores_the_thread_and_yields_the_result(cx):
    """run makes its own event loop, executor and memory resource those of the thread, spawns the task once, drives the loop, and returns what
    the task yielded; whatever happens, the thread gets its resource and executor back before they are gone."""
    RES, EXE = thread_state(cx)
    t = root('t')
    n = 0
    for fn in cx.fns('run'):
        if 'task' not in fn['params'][0]['t']:
            continue
        at = At('async_initiate', *LOOP)
        for p in cx.paths(fn, args=[('L', t)], on_foreign=at, facts={I(RES): True}, opaque=('boost::cobalt::detail::task_receiver::~task_receiver',),
                          may_throw=lambda name, f, fr: 'asio' in name and short(name) in ('async_initiate', 'io_context') + LOOP or name == 'std::future::get'):
            n += 1
            cx.ob(load(p, RES) in (I(RES), ('p', (('d', I(RES)),))), fn, 'the default resource of the thread must be restored', p)
            if any(e.kind == 'raise' and short(e.name) == 'io_context' for e in p.events):
                continue
            cs = ctx_paths(p)
            if len(cs) != 1:
                raise Anchor('event loop of run')
            ctx = cs.pop()
            had = fact(p, I(EXE + ('?',)))
            cx.ob(had is not None, fn, 'whether the thread had an executor must be known', p)
            if had:
                cx.ob(load(p, EXE + ('*',)) == I(EXE + ('*',)) and (cv(load(p, EXE + ('?',))) == 1 or load(p, EXE + ('?',)) == I(EXE + ('?',))), fn, 'the executor of the thread must be restored', p)
            else:
                cx.ob(cv(load(p, EXE + ('?',))) == 0 or from_context(p, load(p, EXE + ('*',)), ctx) and any(e.kind == 'call' and short(e.name) == 'use_service' for e in p.events), fn,
                      'no executor may be left behind that is gone', p)
            gone = [i for i, e in enumerate(p.events) if e.kind == 'dtor' and e.obj == ('L', ctx)]
            cx.ob(len(gone) == 1, fn, 'the event loop must end with the run', p)
            # memory
            for i, e in enumerate(p.events):
                if e.kind == 'dtor' and 'resource' in e.name and e.obj and any(x.kind == 'store' and x.obj == ('L', RES) and x.val == ('p', e.obj[1]) for x in p.events):
                    st = [j for j, x in enumerate(p.events) if x.kind == 'store' and x.obj == ('L', RES)]
                    cx.ob(st[-1] < i, fn, 'the resource must not be in use when it is destroyed', p)
                    cx.ob(bool(gone) and gone[0] < i, fn, 'the event loop must be gone before its memory', p)
            # the task
            ini = [e for e in p.events if e.kind == 'call' and short(e.name) == 'async_initiate']
            e = only(cx, ini, fn, 'the task must be spawned exactly once', p)
            if e is None:
                continue
            s = at.before(e)
            cx.ob(ENG.load(s, RES)[0] == 'p', fn, 'the resource of the run must be in place when the task starts', p)
            cx.ob(from_context(p, ENG.load(s, EXE + ('*',)), ctx) and cv(ENG.load(s, EXE + ('?',))) == 1, fn, 'the executor of the run must be that of the thread', p)
            cx.ob(comes_from(p, e.args[-1], t), fn, 'the given task must be run', p)
            ex = under(s, e.args[0][1]) if e.args[0][0] == 'L' else [((), e.args[0])]
            cx.ob(any(from_context(p, v, ctx) for k, v in ex), fn, 'the task must be spawned on the event loop of the run', p)
            if any(x.kind == 'raise' and short(x.name) == 'async_initiate' for x in p.events):
                continue
            rs = loop_calls(p)
            if rs and all(short(x.name) != 'run' and short(x.name) != 'poll' for x in rs):
                raise Anchor('event loop driven step by step')
            r = only(cx, rs, fn, 'the event loop must be driven once', p)
            if r is None:
                continue
            cx.ob(r.obj == ('L', ctx) and short(r.name) == 'run' and idx(p, r) > idx(p, e), fn, 'the event loop of the run must be driven until it has nothing left to do', p)
            if any(x.kind == 'raise' and short(x.name) in LOOP for x in p.events):
                cx.ob(p.outcome == 'throw', fn, 'an exception out of the event loop must be passed on', p)
                continue
            g = only(cx, [x for x in p.events if x.kind == 'call' and x.name.startswith('std::future') and short(x.name) == 'get'], fn, 'the outcome of the task must be fetched', p)
            if g is None:
                continue
            cx.ob(g.extra == e.val or mentions(g.extra, e.val), fn, 'the outcome of this very task must be fetched', p)
            cx.ob(idx(p, g) > idx(p, r), fn, 'the outcome must not be waited for before the event loop ran', p)
            if p.outcome == 'return' and g.val is not None:
                cx.ob(value_of_path(p) == g.val or p.value[0] == 'L' and mentions(load(p, p.value[1]), g.val), fn, 'the value of the task must be returned', p)
    if not n:
        raise Anchor('run')


def over_by_now(q, em):
    """the path found out, after it emitted, that the coroutine ended"""
    if not em:
        return False
    i = idx(q, em[-1])
    return any(e.kind == 'branch' and e.val is not None and fact(q, e.val) is False and e.val[0] != 'c' and not has_sym(e.val, 'ec') and not has_sym(e.val, 'sig') for e in q.events[i:])


@rule('P19')
def main_drives_its_coroutine_to_the_end(cx):
    """run_main gives the coroutine the executor and work of its event loop, resumes it exactly once from the loop, runs the loop until the
    coroutine is done, and returns the value the coroutine left; SIGINT and SIGTERM cancel the coroutine (total, terminal), as often as they come."""
    RES, EXE = thread_state(cx)
    mp = cx.recs('detail::main_promise')[0]
    f_res = cx.field(mp, 'result', lambda t: 'int' in t)
    f_work = cx.field(mp, 'exec', lambda t: 'work_guard' in t)
    f_exec = cx.field(mp, 'exec_', lambda t: 'optional' in t and 'guard' not in t)
    f_ss = cx.field(mp, 'signal_set', lambda t: 'signal_set' in t)
    f_sig = cx.field(cx.recs('detail::signal_helper')[0], 'signal', lambda t: 'signal' in t)
    mn = root('mn')
    f_p = cx.field(cx.recs('main')[0], 'promise', lambda t: 'main_promise' in t)
    PR = (('d', I(mn + (f_p,))),)
    HP = ('o', 'from_promise', ('p', PR))
    n = 0
    for fn in cx.fns('detail::main_promise::run_main'):
        rec = {}

        class Hook(At):
            def __call__(self, eng, s, kind, name):
                At.__call__(self, eng, s, kind, name)
                if short(name) in LOOP:
                    # the coroutine runs in here, and returns a value
                    x = eng.load(s, PR + (f_res,))
                    if x[0] == 'p':
                        eng.put(s, x[1], ('s', 'rc'))
                return False
        at = Hook('async_wait', *(LOOP + ('post', 'dispatch', 'defer')))
        for p in cx.paths(fn, args=[('L', mn)], on_foreign=at):
            n += 1
            cs = ctx_paths(p)
            if len(cs) != 1:
                raise Anchor('event loop of main')
            ctx = cs.pop()
            r = only(cx, loop_calls(p), fn, 'the event loop must be driven once', p)
            if r is None:
                continue
            s = at.before(r)
            cx.ob(r.obj == ('L', ctx) and short(r.name) == 'run', fn, 'the event loop must run until the coroutine is done', p)
            cx.ob(value_of_path(p) == ('s', 'rc'), fn, 'main must return what the coroutine returned', p)
            cx.ob(cv(ENG.load(s, PR + (f_work, '?'))) == 1 and from_context(p, ENG.load(s, PR + (f_work, '*')), ctx), fn, 'the coroutine must keep the event loop busy', p)
            cx.ob(cv(ENG.load(s, PR + (f_exec, '?'))) == 1 and from_context(p, ENG.load(s, PR + (f_exec, '*')), ctx), fn, 'the coroutine must know the executor it runs on', p)
            cx.ob(from_context(p, ENG.load(s, EXE + ('*',)), ctx), fn, 'the executor of the thread must be that of the event loop', p)
            # start
            hs = hops(p)
            starts = [e for e in p.events if e.kind == 'resume']
            for h in hs:
                for q in closure_given(cx, h, at.before(h)) or []:
                    starts += [e for e in q.events if e.kind == 'resume']
                cx.ob(from_context(p, h.argv[0], ctx), fn, 'the coroutine must be started by the event loop', p)
            cx.ob(len(starts) == 1 and has_sym(starts[0].val, 'from_promise') and mentions(starts[0].val, I(mn + (f_p,))), fn, 'the coroutine must be started exactly once', p)
            cx.ob(all(idx(p, h) < idx(p, r) for h in hs), fn, 'the coroutine must be started before the event loop runs', p)
            # signals
            sets = [e for e in p.events if e.kind == 'ctor' and 'signal_set' in e.name]
            got = {cv(v) for e in sets for v in e.argv} | {cv(v) for e in p.events if e.kind == 'call' and short(e.name) == 'add' for v in e.argv}
            cx.ob({2, 15} <= got, fn, 'SIGINT and SIGTERM must be watched', p)
            w = only(cx, [e for e in p.events if e.kind == 'call' and short(e.name) == 'async_wait'], fn, 'signals must be waited for', p)
            if w is None or len(sets) != 1:
                continue
            cx.ob(w.obj == sets[0].obj and ENG.load(s, PR + (f_ss,)) == ('p', sets[0].obj[1]), fn, 'the coroutine must be able to end the wait for signals', p)
            if w.args[0][0] != 'L':
                raise Anchor('handler of signals')
            W = w.args[0][1]
            cls = class_of_temp(p, W) or next((e.name for e in p.events if e.kind in ('ctor', 'move', 'copy') and e.obj == ('L', W)), None)
            ops = [o for o in cx.db.fns.values() if 'body' in o and short(o['n']) == 'operator()' and o['n'].startswith(fn['n'] + '::') and len(o['params']) == 2]
            if len(ops) != 1:
                raise Anchor('handler of signals')
            o = ops[0]
            EC, SG = root('ec'), ('s', 'sig')
            st = at.before(w)
            st.trace = None
            kinds = set()
            for q in cx.paths(o, this=W, args=[('L', EC), SG], state=st):
                em = [e for e in q.events if e.kind == 'emit' or e.kind == 'call' and e.name == EMIT]
                on = {k[2] if cv(k[3]) is None else k[3]: t for k, t in q.state.facts.items() if k[0] == 'o' and k[1] == '=='}
                for num, nm in ((2, 'total'), (15, 'terminal')):
                    t = [x for k, x in q.state.facts.items() if k[0] == 'o' and k[1] == '==' and mentions(k, SG) and mentions(k, ('c', num))]
                    if t and t[0]:
                        kinds.add(num)
                        cx.ob(len(em) == 1 and em[0].obj == ('L', PR + (f_sig,)) and em[0].argv and em[0].argv[0][0] == 'e' and em[0].argv[0][1].endswith('::' + nm), o,
                              'a signal must cancel the coroutine', q)
                ok = fact(q, ('o', 'boost::system::error_code::operator bool', I(EC)))
                aw = [e for e in q.events if e.kind == 'call' and short(e.name) == 'async_wait']
                bad = [t for k, t in q.state.facts.items() if mentions(k, I(EC)) or k == I(EC)]
                if bad and bad[0] is False:
                    over = over_by_now(q, em)
                    cx.ob(over or len(aw) == 1 and aw[0].obj == sets[0].obj, o, 'the next signal must be waited for', q)
                    cx.ob(not over or not aw, o, 'signals must not be waited for once the coroutine ended', q)
                elif bad:
                    cx.ob(not aw, o, 'a finished wait must not be started again', q)
                else:
                    cx.ob(False, o, 'the end of the wait for signals must be noticed', q)
            cx.ob(kinds == {2, 15}, fn, 'SIGINT and SIGTERM must cancel the coroutine', p)
            # a signal that was delivered, but is handled only after the coroutine ended
            for f in cx.fns('detail::main_promise::final_suspend'):
                for z in cx.paths(f, this=PR, state=st):
                    s2 = z.state.copy()
                    s2.trace = None
                    for q in cx.paths(o, this=W, args=[('L', EC), SG], state=s2):
                        cx.ob(not any(e.kind == 'emit' or e.kind == 'call' and e.name == EMIT for e in q.events), o, 'a signal must not be emitted on a coroutine that ended', q)
    if not n:
        raise Anchor('run_main')
    for fn in cx.fns('detail::main_promise::final_suspend'):
        for p in cx.paths(fn, this=T_, facts={I(T_ + (f_res,)): True}):
            c = [e for e in p.events if e.kind == 'call' and short(e.name) == 'cancel' and 'signal_set' in e.name]
            t = fact(p, I(T_ + (f_ss,)))
            if t is not False:
                cx.ob(len(c) == 1 and c[0].obj == ('L', (('d', I(T_ + (f_ss,))),)), fn, 'the end of the coroutine must end the wait for signals', p)
            cx.ob('suspend_never' in str(p.value) + str(fn.get('ret', '')) + str(fn.get('t', '')), fn, 'a finished coroutine must not keep the event loop busy', p)
    for fn in cx.fns('detail::main_promise::return_value'):
        for p in cx.paths(fn, this=T_, args=[I(root('rv'))]):
            if fact(p, I(T_ + (f_res,))) is not False:
                cx.ob(load(p, (('d', I(T_ + (f_res,))),)) == I(root('rv')), fn, 'the value of the coroutine must be left for main', p)
    for fn in cx.fns('detail::main_promise::unhandled_exception', need=0):
        for p in cx.paths(fn, this=T_):
            cx.ob(p.outcome == 'throw', fn, 'an exception of the coroutine must reach main', p)


@rule('P19')
def main_restores_the_resource_of_the_thread(cx):
    """The entry point hands its arguments to co_main once, runs the coroutine, returns its value, and restores the default resource of the
    thread before its own is gone."""
    RES, EXE = thread_state(cx)
    n = 0
    for fn in cx.fns('detail::main'):
        at = At('co_main', 'run_main')
        for p in cx.paths(fn, args=[I(root('argc')), I(root('argv'))], on_foreign=at, facts={I(RES): True}, opaque=('boost::cobalt::detail::main_promise::run_main',),
                          may_throw=lambda name, f, fr: short(name) in ('co_main', 'run_main')):
            n += 1
            cx.ob(load(p, RES) in (I(RES), ('p', (('d', I(RES)),))), fn, 'the default resource of the thread must be restored', p)
            cm = only(cx, calls(p, 'co_main'), fn, 'co_main must be called exactly once', p)
            if cm is None:
                continue
            cx.ob(list(cm.argv) == [I(root('argc')), I(root('argv'))], fn, 'the arguments must be handed on', p)
            for i, e in enumerate(p.events):
                if e.kind == 'dtor' and 'resource' in e.name and e.obj and any(x.kind == 'store' and x.obj == ('L', RES) and x.val == ('p', e.obj[1]) for x in p.events):
                    st = [j for j, x in enumerate(p.events) if x.kind == 'store' and x.obj == ('L', RES)]
                    cx.ob(st[-1] < i, fn, 'the resource must not be in use when it is destroyed', p)
            if p.outcome == 'return':
                rm = only(cx, calls(p, 'run_main'), fn, 'the coroutine must be run', p)
                if rm is None:
                    continue
                cx.ob(mentions(rm.argv[0], cm.val) or rm.args[0][0] == 'L' and any(mentions(v, cm.val) for k, v in [((), load(p, rm.args[0][1]))] + under(at.before(rm), rm.args[0][1])), fn, 'the coroutine of co_main must be run', p)
                cx.ob(value_of_path(p) == rm.val, fn, 'the value of the coroutine must be returned', p)
    if not n:
        raise Anchor('main')
