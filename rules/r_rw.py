"""Composed reads and writes (P27)."""
from lib import *
from r_ops import Foreign, random_access, started, starts, whole_buffer

IO = 'boost::cobalt::io::'


def summands(v):
    """the terms of a sum, sorted; constants zero left out"""
    if v is None:
        return ['?']
    if v[0] == 'o' and v[1] == '+' and len(v) == 4:
        return sorted(summands(v[2]) + summands(v[3]), key=str)
    if cv(v) == 0:
        return []
    return [v]


def is_step(e, step):
    return e.kind == 'co_await' and e.obj is not None and e.obj[0] == 'L' and e.obj[1] == step


def derived(p, v):
    """values of calls on v, and v"""
    out = [v]
    for e in p.events:
        if e.kind == 'call' and e.val is not None and any(a in out for a in e.argv or ()):
            out.append(e.val)
    return out


def cancelled(p, v):
    """does the path know the cancellation state v to be set (True) or not (False)?"""
    for e in p.events:
        if e.kind == 'call' and e.val is not None and v in (e.argv or ()):
            t = fact(p, e.val)
            if t is None:
                continue
            n = short(e.name)
            if n == 'operator!':
                return not t
            if n in ('operator==', 'operator!='):
                return t == (n == 'operator!=')
            return t
    for k, t in p.state.facts.items():
        if k[0] == 'o' and k[1] in ('==', '!=') and v in k[2:]:
            return t == (k[1] == '!=')
        if k == v:
            return t
    return None


@rule('P27')
def a_transfer_goes_on_until_it_is_done(cx):
    """read, write, read_at and write_at repeat their operation on what is left until nothing is left, an error occurs or they are cancelled, and report the sum of what was transferred."""
    for name, at in (('read_all', False), ('write_all', False), ('read_all_at', True), ('write_all_at', True)):
        fn = cx.fn(IO + name + '::initiate')
        this = root('this')
        step = this + ('step',)
        ps = cx.paths(fn, this=this, args=[('L', root('h'))], opaque_pred=lambda q, b: short(q['n']) in ('operator+=', 'buffer_size'))
        steps2 = 0
        for p in ps:
            if p.outcome != 'return':
                cx.ob(p.outcome == 'throw', fn, 'the operation must end by returning', p)
                continue
            r = p.value[1] if p.value is not None and p.value[0] == 'L' else None
            cx.ob(r is not None, fn, 'an error and a size must be returned', p)
            if r is None:
                continue
            aw = [e for e in p.events if is_step(e, step)]
            steps2 = max(steps2, len(aw))
            n = [('o', 'fld', e.val, ('get', 1)) for e in aw]
            ec = [('o', 'fld', e.val, ('get', 0)) for e in aw]
            failed = []
            for x in ec:
                t = [t for k, t in p.state.facts.items() if k[0] == 'o' and k[1].endswith(('operator bool', 'failed', 'value')) and mentions(k, x)] + \
                    [t == (k[1] == '!=') for k, t in p.state.facts.items() if k[0] == 'o' and k[1] in ('==', '!=') and mentions(k, x)]
                failed.append(t[0] if t else None)
            cx.ob(None not in failed, fn, 'the error of every step must be looked at', p)
            cx.ob(True not in failed[:-1], fn, 'nothing must be started after an error', p)
            # the sum
            at_ = lambda i: p.state.store.get(r + (('at', i),)) if r + (('at', i),) in p.state.store else load(p, r + (('get', i),))
            got = at_(1)
            cx.ob(summands(got) == sorted(n, key=str), fn, 'the bytes reported must be the sum of those of the steps', p)
            # the error
            err = at_(0)
            sizes = [e for e in p.events if e.kind in ('call', 'enter') and short(e.name) in ('buffer_size', 'empty', 'size') and any(a is not None and (a[0] == 'L' and a[1][:len(step)] == step or mentions(a, I(step + ('buffer',)))) for a in list(e.args or ()) + list(e.argv or ()))]
            can = [e for e in p.events if e.kind == 'co_await' and e.obj is not None and has_sym(e.obj, 'cancelled')]
            cst = [cancelled(p, e.val) for e in can]
            if any(x is True and False in cst[i:] for i, x in enumerate(cst)):
                continue        # a cancellation is not taken back
            if failed and failed[-1]:
                cx.ob(err == ec[-1], fn, 'the error returned must be the one of the step that failed', p)
            else:
                none = err is not None and (err[0] == 'o' and err[1] == 'new' and len(err) == 3 or err in ec or err[0] == 'o' and err[1] == 'new' and any(mentions(err, x) for x in ec))
                left = fact(p, sizes[-1].val) if sizes and sizes[-1].val is not None else None
                if none:
                    cx.ob(left is False or left is None and any(mentions(k, sizes[-1].val) for k in p.state.facts) if sizes else False, fn, 'success must only be reported when nothing is left', p)
                else:
                    cx.ob(True in cst, fn, 'an operation that was not cancelled and did not fail must not report an error', p)
                    cx.ob(has_sym(err, 'operation_aborted'), fn, 'a cancelled operation must report operation_aborted', p)
            # between the steps
            ev = p.events
            pos = [ev.index(e) for e in aw]
            for i, e in enumerate(aw):
                lo = pos[i - 1] + 1 if i else 0
                seg = ev[lo:pos[i]]
                sz = [x for x in seg if x in sizes]
                cx.ob(bool(sz) and all(x.val is None or fact(p, x.val) is not False for x in sz[-1:]), fn, 'a step must only be started while something is left', p)
                cs = [x for x in seg if x in can]
                cx.ob(bool(cs) and cancelled(p, cs[-1].val) is False, fn, 'a step must not be started once cancelled', p)
                if i:
                    adv = [x for x in seg if x.kind == 'call' and short(x.name) == 'operator+=' and x.obj is not None and x.obj[0] == 'L' and x.obj[1] == step + ('buffer',)]
                    cx.ob(len(adv) == 1 and list(adv[0].argv) == [n[i - 1]], fn, 'the buffer must be advanced by what the step transferred', p)
                    cx.ob(bool(adv) and bool(sz) and seg.index(adv[0]) < seg.index(sz[0]), fn, 'the buffer must be advanced before asking what is left', p)
            if at:
                cx.ob(summands(load(p, step + ('offset',))) in [sorted([I(step + ('offset',))] + x, key=str) for x in ([n, n[:-1]] if failed and failed[-1] else [n])], fn, 'the offset must be advanced by what the steps transferred', p)
        if steps2 < 2:
            raise Anchor('no path of %s has two steps' % name)


@rule('P27')
def a_transfer_is_made_of_the_right_steps(cx):
    """read repeats read_some, write write_some, read_at and write_at their counterparts at the offset, on the object and the buffers given."""
    n = 0
    for name, callee in (('composed_read', 'async_read_some'), ('composed_write', 'async_write_some')):
        fo = Foreign()
        fn, R, ps = starts(cx, name, fo)
        for p in ps:
            if p.outcome != 'throw':
                e = started(cx, fn, fo, p, R, callee, ('b', 'h'), R['s'])
                n += 1
                if e is not None:
                    cx.ob(whole_buffer(fo.before(e), e, p, R['b']), fn, 'all the buffers must be passed on', p)
    if not n or not random_access(cx, (('composed_read_at', 'async_read_some'), ('composed_write_at', 'async_write_some'))):
        raise Anchor('no step was seen')
