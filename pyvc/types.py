"""Static types of the verified Python subset and their logical sorts.

A type is a nested tuple:
  ('int',) ('bool',) ('real',) ('val',) ('none',)
  ('seq', elem, kind)   kind in 'L' (list), 'T' (tuple of any length), '?' (either)
  ('set', elem) ('map', k, v) (with a fourth component 'o': the insertion order counts) ('tup', (t1, .., tn)) ('opt', t) ('ref', cls)
  ('fld', cls, field)   the heap array of one field (specification only)
  ('fun',) ('cls', name) ('mod', name) ('empty', ctor)   executor-only
"""
import re

INT = ('int',)
BOOL = ('bool',)
REAL = ('real',)
VAL = ('val',)
NONE = ('none',)
FUN = ('fun',)


class TypeErr(Exception):
    pass


def seq(t, kind='L'):
    return ('seq', t, kind)


def is_ref(t):
    return t[0] == 'ref'


def tname(t):
    k = t[0]
    if k == 'seq':
        return 'Seq_' + tname(t[1])
    if k == 'set':
        return 'Set_' + tname(t[1])
    if k == 'map':
        return ('OMap_%s_%s_' if len(t) > 3 else 'Map_%s_%s_') % (tname(t[1]), tname(t[2]))
    if k == 'tup':
        return 'Tup%d_%s_' % (len(t[1]), '_'.join(tname(x) for x in t[1]))
    if k == 'opt':
        return 'Opt_' + tname(t[1])
    if k == 'ref':
        return t[1]
    if k == 'fld':
        return 'Fld_%s_%s' % (t[1], t[2])
    return k


def erase(t):
    """forget list/tuple kinds: types with the same erasure share a sort"""
    k = t[0]
    if k == 'seq':
        return ('seq', erase(t[1]), '?')
    if k in ('set', 'opt'):
        return (k, erase(t[1]))
    if k == 'map':
        return (k, erase(t[1]), erase(t[2])) + t[3:]
    if k == 'tup':
        return (k, tuple(erase(x) for x in t[1]))
    return t


_tok = re.compile(r'\s*([A-Za-z_][A-Za-z_0-9.]*|[\[\],?])')


def parse(s, aliases=None):
    if not isinstance(s, str):
        return s
    toks = _tok.findall(s)
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else None

    def eat(x=None):
        nonlocal pos
        t = peek()
        if x is not None and t != x:
            raise TypeErr('type syntax: %s' % s)
        pos += 1
        return t

    def ty():
        h = eat()
        args = []
        if peek() == '[':
            eat('[')
            while peek() != ']':
                args.append(ty())
                if peek() == ',':
                    eat(',')
            eat(']')
        low = {'int': INT, 'bool': BOOL, 'real': REAL, 'float': REAL, 'val': VAL, 'str': VAL, 'None': NONE}
        if h in low:
            r = low[h]
        elif h == 'List':
            r = ('seq', args[0], 'L')
        elif h == 'Tup':
            r = ('seq', args[0], 'T')
        elif h == 'Seq':
            r = ('seq', args[0], '?')
        elif h == 'Set':
            r = ('set', args[0])
        elif h == 'Map':
            r = ('map', args[0], args[1])
        elif h == 'OMap':
            r = ('map', args[0], args[1], 'o')
        elif h == 'Tuple':
            r = ('tup', tuple(args))
        elif h == 'Opt':
            r = ('opt', args[0])
        elif h == 'Fld':
            c, f = args[0][1].rsplit('.', 1)
            r = ('fld', c, f)
        elif aliases and h in aliases:
            r = parse(aliases[h], aliases)
        else:
            r = ('ref', h)
        if peek() == '?':
            eat('?')
            r = ('opt', r)
        return r

    r = ty()
    if pos != len(toks):
        raise TypeErr('type syntax: %s' % s)
    return r
