"""The owning coroutine handle (P29)."""
import contextlib
from lib import *
import engine

UH = 'boost::cobalt::unique_handle'


@contextlib.contextmanager
def unmodelled():
    """analyse the bodies of the handle, which the other rules take as given"""
    m = engine.MODELS.pop(UH, None)
    fs = {k: engine.MODEL_FNS.pop(k) for k in list(engine.MODEL_FNS) if k.startswith(UH + '::') or k in ('boost::cobalt::operator==', 'boost::cobalt::operator!=')}
    try:
        yield
    finally:
        if m is not None:
            engine.MODELS[UH] = m
        engine.MODEL_FNS.update(fs)


class Held:
    """where a handle keeps what it owns"""
    def __init__(self, cx, inst):
        self.cls = '%s<%s>' % (UH, inst)
        r = cx.db.recs.get(self.cls)
        if not r:
            raise Anchor('%s was not found' % self.cls)
        fs = [f for f in r['fields'] if 'location' not in f['t']]
        if len(fs) != 1:
            raise Anchor('%s has %d members' % (self.cls, len(fs)))
        self.f, self.t = fs[0]['n'], fs[0].get('tc') or fs[0]['t']

        self.co = co if inst == 'void' or '*' not in self.t and 'unique_ptr' not in self.t else prom

    def of(self, *path):
        return tuple(path) + (self.f,)


def prom(v):
    """the coroutine of the promise v points to"""
    while v is not None and v[0] == 'o' and v[1] in ('cast', 'conv'):
        v = v[-1]
    if v is not None and v[0] == 'p' and len(v[1]) == 1 and isinstance(v[1][0], tuple) and v[1][0][0] == 'd':
        v = v[1][0][1]
    if v is not None and v[0] == 'o' and v[1] == 'promise_of':
        return co(v[2])
    return v and ('of', v)


def co(v):
    """the coroutine a handle or the address of a coroutine stands for"""
    while v is not None and v[0] == 'o' and v[1] in ('cast', 'conv', 'address'):
        v = v[-1]
    if v is not None and v[0] == 'p' and len(v[1]) == 1 and isinstance(v[1][0], tuple) and v[1][0][0] == 'd':
        v = v[1][0][1]
    return prom(v[2]) if v is not None and v[0] == 'o' and v[1] == 'from_promise' else v


def handle_of(p, v):
    """the coroutine of a handle that is returned"""
    if v is not None and v[0] in ('L', 't'):
        w = load(p, v[1])
        if w is not None and w[0] == 'i' and w[1] == v[1]:
            return None
        return co(w)
    return co(v)


def destroyed(p, H=None):
    """the coroutines destroyed on the path, directly or by an owner that is reset"""
    return [co(e.val) if e.kind == 'destroy' or H is None else H.co(e.val) for e in p.events if e.kind == 'destroy' or e.kind == 'reset' and e.name == 'std::unique_ptr']


def resumed(p):
    return [e for e in p.events if e.kind == 'resume']


def boolean(p, v, a):
    """what v says about the coroutine a: True if there is one, False if not, None if it says neither"""
    neg = False
    while v is not None and v[0] == 'o' and v[1] == '!' and len(v) == 3:
        v, neg = v[2], not neg
    if v == a:
        r = True
    elif v is not None and cv(v) is not None:
        f = fact(p, a)
        if f is None:
            return None
        r = f == bool(cv(v))
    elif v is not None and v[0] == 'o' and v[1] in ('==', '!=') and len(v) == 4 and a in v[2:] and any(cv(x) == 0 for x in v[2:]):
        r = v[1] == '!='
    else:
        e = [x for x in p.events if x.kind == 'call' and x.val == v and short(x.name) in ('operator==', 'operator!=')]
        if not e or a not in e[0].argv or not any(cv(x) == 0 for x in e[0].argv if x is not None):
            return None
        r = short(e[0].name) == 'operator!='
    return r != neg


INSTANCES = ('void', 'drv_misc::prom')


def uses(cx, cls, name, inst):
    fs = [f for f in cx.fns('drv_misc::%s::%s' % (cls, name)) if '%s<%s>' % (cls, inst) in str(f.get('cls'))]
    if len(fs) != 1:
        raise Anchor('%d functions %s<%s>::%s' % (len(fs), cls, inst, name))
    return fs[0]


def run(cx, cls, name, inst, **kw):
    fn = uses(cx, cls, name, inst)
    return fn, cx.paths(fn, args=[('L', root(x['n'])) for x in fn['params']], **kw)


@rule('P29')
def a_handle_destroys_what_it_owns_once(cx):
    """A handle that goes out of scope, is reset or overwritten destroys the coroutine it holds, once, and no other; the one moved from holds none."""
    with unmodelled():
        for t in INSTANCES:
            H = Held(cx, t)
            A, B = I(H.of(*root('a'))), I(H.of(*root('b')))
            C = H.co(A)
            for name, new in (('scope', None), ('assign', B), ('clear', None), ('del', None), ('reset', None), ('reset_to', I(root('p')))):
                fn, ps = run(cx, 'use_owner' if name.startswith('reset') else 'use', name, t)
                for p in ps:
                    if p.outcome != 'return':
                        cx.ob(False, fn, 'it must not throw', p)
                        continue
                    d = destroyed(p, H)
                    cx.ob(d == [C] or not d and fact(p, A) is False, fn, 'the coroutine held must be destroyed once, and nothing else', p)
                    cx.ob(not resumed(p), fn, 'no coroutine must be resumed', p)
                    now = load(p, H.of(*root('a')))
                    cx.ob(now == new if new is not None else cv(now) == 0 or now == A and fact(p, A) is False, fn, 'the handle must hold what it was given', p)
                    if name == 'assign':
                        b = load(p, H.of(*root('b')))
                        cx.ob(cv(b) == 0, fn, 'the handle moved from must be empty', p)
            for name in ('rel',):
                fn, ps = run(cx, 'use', name, t)
                for p in ps:
                    cx.ob(not destroyed(p, H) and not resumed(p), fn, 'releasing must neither destroy nor resume', p)
                    cx.ob(handle_of(p, p.value) == C, fn, 'releasing must return the coroutine', p)
                    cx.ob(cv(load(p, H.of(*root('a')))) == 0, fn, 'a handle that was released must be empty', p)
            for name in ('none', 'none2'):
                fn, ps = run(cx, 'use', name, t)
                for p in ps:
                    cx.ob(cv(p.value) == 0 and not destroyed(p, H), fn, 'a new handle must hold nothing', p)


@rule('P29')
def the_owner_of_a_handle_destroys_a_coroutine(cx):
    """What the handle keeps its coroutine in destroys the coroutine (not only its promise) when it lets go of it."""
    seen = 0
    with unmodelled():
        for cls, r in sorted(cx.db.recs.items()):
            if not cls.startswith(UH + '<') or 'noop' in cls or '::' in cls[cls.rindex('>'):]:
                continue
            for f in r.get('fields', []):
                tc = f.get('tc') or f['t']
                if not tc.startswith('std::unique_ptr<'):
                    continue
                dl = [g for g in cx.db.fns.values() if g['n'] == UH + '::deleter_::operator()' and 'body' in g and (g.get('cls') or '').startswith(cls + '::')] or \
                     [g for g in [engine.Engine(cx.db).deleter_of(tc)] if g]
                if not dl:
                    continue
                seen += 1
                g = dl[0]
                a = root('p')
                for p in cx.paths(g, this=root('this'), args=[I(a)]):
                    d = [co(e.val) for e in p.events if e.kind == 'destroy']
                    cx.ob(d == [co(I(a)) if 'unique_ptr<void,' in tc else prom(I(a))], g, 'the coroutine must be destroyed once', p)
                    cx.ob(not [e for e in p.events if e.kind in ('delete', 'resume')], g, 'nothing else must be done to it', p)
    if seen < 2:
        raise Anchor('no owner with a deleter was found')


@rule('P29')
def an_owned_coroutine_is_resumed_after_giving_it_up(cx):
    """Resuming an rvalue handle gives up the coroutine and then resumes it, once; resuming an lvalue keeps it."""
    with unmodelled():
        for t in INSTANCES:
            H = Held(cx, t)
            A = I(H.of(*root('a')))
            C = H.co(A)
            for name in ('once', 'once2', 'more', 'more2'):
                held = []
                fn, ps = run(cx, 'use', name, t, on_foreign=lambda eng, s, kind, nm: held.append(eng.load(s, H.of(*root('a')))) if kind == 'resume' else None)
                for p in ps:
                    r = resumed(p)
                    cx.ob([co(e.val) for e in r] == [C], fn, 'the coroutine must be resumed once', p)
                    cx.ob(not destroyed(p, H), fn, 'the coroutine must not be destroyed', p)
                    now = load(p, H.of(*root('a')))
                    cx.ob(cv(now) == 0 if 'once' in name else now == A, fn, 'an rvalue must give the coroutine up, an lvalue must keep it', p)
                if 'once' in name:
                    cx.ob(bool(held) and all(cv(h) == 0 for h in held), fn, 'the coroutine must be given up before it runs', ps[0])


@rule('P29')
def a_handle_tells_what_it_holds(cx):
    """Making a handle of a promise or an address holds that coroutine; its address, promise and state are those of the coroutine."""
    with unmodelled():
        for t in INSTANCES:
            H = Held(cx, t)
            A = I(H.of(*root('a')))
            C = H.co(A)
            P_ = I(root('p'))
            for name, want in (('is', True), ('eq', False), ('ne', True)):
                fn, ps = run(cx, 'use', name, t)
                for p in ps:
                    cx.ob(boolean(p, p.value, A) is want, fn, 'it must tell whether there is a coroutine', p)
                    cx.ob(not destroyed(p, H) and load(p, H.of(*root('a'))) == A, fn, 'the handle must be left as it is', p)
            for c, name in (('use', 'addr'), ('use_owner', 'getc')):
                fn, ps = run(cx, c, name, t)
                for p in ps:
                    cx.ob(handle_of(p, p.value) == C if name == 'addr' else prom(p.value) == C or p.value == A, fn, 'it must be the coroutine held', p)
                    cx.ob(load(p, H.of(*root('a'))) == A and not destroyed(p, H), fn, 'the handle must be left as it is', p)
            fn, ps = run(cx, 'use', 'done', t)
            for p in ps:
                cx.ob(p.value is not None and p.value[:2] == ('o', 'done') and co(p.value[2]) == C, fn, 'it must tell whether the coroutine is done', p)
            made = [('use_owner', 'made'), ('use_owner', 'from')] + ([('use_promise', 'from_promise')] if t != 'void' else [])
            for c, name in made:
                fn, ps = run(cx, c, name, t)
                for p in ps:
                    k = [e for e in p.events if e.kind == 'call' and e.name == 'drv_misc::keep']
                    want = {'from': co(P_), 'made': prom(P_) if t != 'void' else co(P_), 'from_promise': prom(P(root('p')))}[name]
                    got = k[0].argv[0] if len(k) == 1 else None
                    cx.ob(got is not None and (prom(got) if name != 'from' and t != 'void' else co(got)) == want, fn, 'the handle must hold what it was made of', p)
                    cx.ob(not destroyed(p, H), fn, 'nothing must be destroyed', p)
            if t == 'void':
                continue
            for name in ('star', 'cstar', 'arrow', 'carrow', 'promise'):
                fn, ps = run(cx, 'use_promise', name, t)
                for p in ps:
                    v = p.value
                    cx.ob(v == A or v is not None and v[0] in ('L', 'p') and prom(('p', v[1])) == C, fn, 'it must be the promise of the coroutine', p)


@rule('P29')
def the_noop_coroutine_is_never_destroyed(cx):
    """A handle of the no-op coroutine always holds it; nothing destroys or runs anything."""
    t = 'std::noop_coroutine_promise'
    with unmodelled():
        for name, want in (('scope', None), ('assign', None), ('clear', None), ('del', None), ('is', 1), ('eq', 0), ('ne', 1), ('none', 1), ('none2', 1), ('once', None), ('once2', None),
                           ('more', None), ('more2', None), ('rel', 'noop'), ('addr', None), ('done', None)):
            fn, ps = run(cx, 'use', name, t)
            for p in ps:
                cx.ob(not destroyed(p), fn, 'the no-op coroutine must not be destroyed', p)
                cx.ob(all(has_sym(e.val, 'noop') for e in resumed(p)), fn, 'nothing else must be resumed', p)
                if want == 'noop':
                    v = p.value if p.value[0] != 'L' else load(p, p.value[1])
                    cx.ob(has_sym(v, 'noop'), fn, 'it must be the no-op coroutine', p)
                elif want is not None:
                    cx.ob(cv(p.value) == want, fn, 'there must always be a coroutine', p)
