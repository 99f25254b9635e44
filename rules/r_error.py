"""The errors of the library (P31)."""
from lib import *
from r_coro import is_exc

NS = 'boost::cobalt::'
CAT = NS + 'cobalt_category_t'


def errors(cx):
    """the errors and their codes"""
    e = cx.db.enums.get(NS + 'error')
    vs = e and (e.get('vals') or e.get('es') or e.get('enumerators') or [x for x in e.values() if isinstance(x, list)][0])
    if not vs:
        raise Anchor('the errors were not found')
    return {x['n']: int(x['v']) for x in vs}


def texts(cx, ev):
    """{function: [what it returns for the error]}"""
    out = []
    for fn in cx.fns(CAT + '::message'):
        if fn.get('body') is None:
            continue
        got = []
        for p in cx.paths(fn, this=root('this'), args=[('c', ev)] + [('L', root('x'))] * (len(fn['params']) - 1)):
            v = p.value
            if v is not None and v[0] == 'L':
                made = [e for e in p.events if e.kind in ('ctor', 'call') and 'basic_string' in e.name and e.obj == v or e.kind == 'ctor' and 'basic_string' in e.name]
                v = made[-1].argv[0] if made and made[-1].argv else load(p, v[1])
            got.append((p, v[2] if v is not None and v[0] == 'o' and v[1] == 'str' else None))
        out.append((fn, got))
    return out


@rule('P31')
def every_error_has_its_own_code_and_message(cx):
    """No two errors have the same code or the same message, none has the message of an unknown code, and none has the code of success."""
    es = errors(cx)
    rec = [f for f in cx.fns(CAT + '::message') if f.get('body') is not None]
    fn = rec[0]
    failed = [f for f in cx.db.fns.values() if f['n'] == CAT + '::failed' and 'body' in f]
    cx.ob(len(set(es.values())) == len(es), fn, 'every error must have its own code')
    for n, v in sorted(es.items()):
        bad = v == 0
        if bad and failed:
            bad = any(cv(p.value) != 1 for p in cx.paths(failed[0], this=root('this'), args=[('c', v)]))
        cx.ob(not bad, fn, 'error::%s must test as an error' % n)
    unknown = max(es.values()) + 1000
    other = {f['id']: {t for p, t in got} for f, got in texts(cx, unknown)}
    seen = {}
    for n, v in sorted(es.items()):
        for f, got in texts(cx, v):
            for p, t in got:
                cx.ob(bool(t), f, 'error::%s must have a message' % n, p)
                cx.ob(t not in other[f['id']], f, 'the message of error::%s must not be that of an unknown error' % n, p)
                m = seen.setdefault((f['id'], t), n)
                cx.ob(m == n, f, 'error::%s must not have the message of error::%s' % (n, m), p)
                words = n.replace('_', ' ')
                cx.ob(t is None or words == t or not any(t == k.replace('_', ' ') for k in es), f, 'error::%s must not have the message of another' % n, p)
    both = {}
    for n, v in sorted(es.items()):
        for f, got in texts(cx, v):
            for p, t in got:
                both.setdefault(n, t)
                cx.ob(both[n] == t, f, 'both forms of the message must be the same', p)


@rule('P31')
def an_error_converts_to_its_code(cx):
    """make_error_code gives the code of the error in the category of the library, and there is one such category."""
    fn = cx.fn(NS + 'make_error_code')
    e = root('e')
    cat = None
    cf = cx.fn(NS + 'cobalt_category')
    for p in cx.paths(cf):
        v = p.value
        ok = v is not None and v[0] == 'L' and len(v[1]) == 1 and isinstance(v[1][0], tuple) and v[1][0][0] == 'g'
        cx.ob(ok, cf, 'the category must be one object that always exists', p)
        cat = v
    for p in cx.paths(fn, args=[('L', e)]):
        made = [x for x in p.events if x.kind == 'ctor' and x.name == 'boost::system::error_code' and x.argv]
        ok = len(made) == 1 and made[0].argv[0] in (I(e), ('o', 'cast', I(e))) and len(made[0].argv) >= 2
        if made and not ok and len(made[0].argv) >= 2:
            ok = strip(made[0].argv[0]) == I(e)
        cx.ob(ok, fn, 'the code must be that of the error', p)
        cx.ob(ok and cat is not None and (made[0].args[1] == cat or made[0].argv[1] in (cat, ('i', cat[1]), ('p', cat[1]))), fn, 'the category must be that of the library', p)
    names = set()
    for f in cx.fns(CAT + '::name'):
        for p in cx.paths(f, this=root('this')):
            ok = p.value is not None and p.value[:2] == ('o', 'str') and p.value[2]
            cx.ob(bool(ok), f, 'the category must have a name', p)


def strip(v):
    while v is not None and v[0] == 'o' and v[1] in ('cast', 'conv'):
        v = v[-1]
    return v


RAISED = ('moved_from', 'detached', 'completed_unexpected', 'wait_not_ready', 'already_awaited', 'allocation_failed')


@rule('P31')
def every_exception_has_the_code_of_its_failure(cx):
    """The exception stored or thrown for a failure is a system_error with the code of that failure."""
    es = errors(cx)
    for n in RAISED:
        if n not in es:
            raise Anchor('error::%s is gone' % n)
        fs = [f for k in (n, n + '_exception') for f in cx.db.fns.values() if f['n'] == NS + 'detail::' + k and 'body' in f and not f['params'] and 'exception_ptr' in f['ret']]
        if not fs:
            raise Anchor('nothing makes the exception of error::%s' % n)
        for fn in fs:
            for p in cx.paths(fn):
                v = p.value
                if v is not None and v[0] == 'L':
                    v = load(p, v[1])
                cx.ob(is_exc(v, n), fn, 'the exception must have the code error::%s' % n, p)
                cx.ob(not any(is_exc(v, k) for k in RAISED if k != n), fn, 'the exception must have no other code', p)


@rule('P31')
def interrupting_reports_that_it_was_detached(cx):
    """An await that is interrupted reports that it was detached, before the coroutine awaiting it goes on."""
    n = 0
    for fn in cx.db.fns.values():
        if short(fn['n']) != 'interrupt_await' or 'body' not in fn or not any(k in fn['n'] for k in ('promise_receiver', 'task_receiver', 'generator_receiver', 'generator_promise')):
            continue
        this = root('this')
        early = []
        def at(eng, s, kind, name):
            if kind == 'resume':
                early.append(any(is_exc(v, 'detached') for v in s.store.values()))
        for p in cx.paths(fn, this=this, on_foreign=at):
            r = [e for e in p.events if e.kind == 'resume']
            stored = [v for k, v in p.state.store.items() if is_exc(v, 'detached')]
            other = [v for k, v in p.state.store.items() if v is not None and v[0] == 'o' and v[1] == 'eptr' and not is_exc(v, 'detached') and not any(isinstance(x, tuple) and x[0] == 't' for x in k)]
            if r:
                n += 1
                cx.ob(bool(stored), fn, 'who awaited must be told that it was detached', p)
            cx.ob(not other, fn, 'nothing but that must be reported', p)
        cx.ob(all(early), fn, 'it must be told before it goes on')
    if n < 6:
        raise Anchor('only %d ways to interrupt an await' % n)
