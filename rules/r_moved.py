"""Arguments that are given away while a sibling argument still reads them."""
from lib import *

WHERE = {'P20': ('spawn.hpp', 'wrapper.hpp'), 'P16': ('op.hpp', 'handler.hpp'), 'P30': ('composition.hpp',), 'P27': ('io/',), 'P15': ('with.hpp',),
         'P10': ('channel',), 'P12': ('race.hpp',), 'P13': ('gather.hpp',), 'P14': ('join.hpp',), 'P11': ('wait_group',), 'P06': ('promise.hpp', 'task.hpp'), 'P08': ('generator.hpp',)}
CASTS = ('std::move', 'std::forward', 'std::static_pointer_cast')


def given_away(x, out, inside=False):
    """variables moved into something while expression x is evaluated"""
    if isinstance(x, list):
        for y in x:
            given_away(y, out, inside)
        return out
    if not isinstance(x, dict) or x.get('k') in ('lambda', 'sizeof', 'noexcept'):
        return out
    if x.get('k') in ('call', 'ctor'):
        n = x.get('fn', {}).get('n', '')
        if n in CASTS and n != 'std::static_pointer_cast':
            v = var_of(x.get('a'))
            if inside and v is not None and moves(x):
                out.add(v)
            return out
        pk = x['fn'].get('pk', []) if 'fn' in x else []
        for i, a in enumerate(x.get('a', [])):
            # what is bound to a reference to const is not changed
            given_away(a, out, x['k'] == 'ctor' and x.get('fn', {}).get('ctor') != 'copy' or x['k'] == 'call' and (pk[i] if i < len(pk) else 'v') in ('rr', 'v'))
        given_away(x.get('o'), out, False)
        return out
    for k, y in x.items():
        if k not in ('fn', 'dtor'):
            given_away(y, out, inside)
    return out


def moves(x):
    return 'forward' not in x['fn']['n'] or 'forwardIR' not in x['fn']['id']


def var_of(a):
    """the variable an argument names"""
    while isinstance(a, list) and len(a) == 1:
        a = a[0]
    while isinstance(a, dict):
        if a.get('k') == 'var':
            return a.get('id')
        if a.get('k') in ('cast', 'full', 'tmp', 'paren', 'icast'):
            a = a.get('e')
        else:
            return None
    return None


def reads(x, v):
    if isinstance(x, list):
        return any(reads(y, v) for y in x)
    if not isinstance(x, dict):
        return False
    if x.get('k') == 'var':
        return x.get('id') == v
    return any(reads(y, v) for k, y in x.items() if k not in ('fn', 'dtor'))


def arguments(x, out):
    """argument lists whose order of evaluation is open"""
    if isinstance(x, list):
        for y in x:
            arguments(y, out)
    elif isinstance(x, dict):
        if x.get('k') in ('call', 'ctor') and not x.get('li') and len(x.get('a', [])) > 1 and not x.get('oper'):
            out.append(x)
        for k, y in x.items():
            if k not in ('fn', 'dtor'):
                arguments(y, out)
    return out


@rule(*WHERE)
def no_argument_reads_what_another_gives_away(cx):
    """Where the order of evaluation is open, no argument of a call reads a variable that a sibling argument moves from."""
    n = 0
    for fn in cx.db.fns.values():
        if 'body' not in fn or not cx.db.in_repo(fn) or not any(w in fn['file'] for w in WHERE[cx.pid]) or fn['file'].startswith('drivers'):
            continue
        for x in arguments([fn.get('body'), fn.get('inits')], []):
            n += 1
            for i, a in enumerate(x['a']):
                for v in given_away(a, set()):
                    for j, b in enumerate(x['a']):
                        if j != i and reads(b, v) and not same_cast(b, v):
                            cx.ob(False, fn, 'an argument reads a variable that another argument of the same call moves from', line=x.get('l'))
            cx.ob(True, fn, 'argument order', line=x.get('l'))
    if not n:
        raise Anchor('no calls')


def same_cast(b, v):
    """the argument only names the variable"""
    return var_of(b) == v
