from lib import *
import copy
import itertools
import os
import tempfile
from aalpy.utils import HelperFunctions as H
from aalpy.utils.DataHandler import CharacterTokenizer, DelimiterTokenizer, IODelimiterTokenizer

RULE = ('words, lists with and without duplicates, data sets of traces sharing prefixes, over alphabets with falsy letters; every helper is compared with its definition, '
        'and its arguments with copies taken before the call')
VALS = [0, 1, '', 'a', None, (), False, 'bb', 2]


def cases(ctx):
    rng = ctx.rng

    def w(n=6, vals=VALS):
        return tuple(rng.choice(vals) for _ in range(rng.randrange(n)))
    while True:
        k = rng.choice(['extend', 'prefix', 'suffix', 'mdp', 'rpni', 'product', 'balanced', 'token', 'mc'])
        if k == 'extend':
            yield (k, w(5), w(7), rng.random() < .5)
        elif k == 'prefix':
            yield (k, w(7), rng.random() < .5)
        elif k == 'suffix':
            t = w(6)
            yield (k, t[rng.randrange(len(t) + 1):] if rng.random() < .7 else w(4), t)
        elif k == 'mdp':
            yield (k, w(4)[:0] + tuple(rng.choice(VALS) for _ in range(1 + 2 * rng.randrange(4))), rng.choice(['mdp', 'smm']))
        elif k == 'rpni':
            vals = rng.choice([['a', 'b'], [0, 1, None, ''], [1]])
            outs = rng.choice([[True, False], [0, 1, 2], ['']])
            typ = rng.choice(['mealy', 'moore', 'dfa'])
            tr = []
            for _ in range(rng.randrange(5)):
                t = tuple((rng.choice(vals), rng.choice(outs)) for _ in range(rng.randrange(5)))
                tr.append(((rng.choice(outs),) if typ != 'mealy' else ()) + t)
            yield (k, tuple(tr), typ)
        elif k == 'product':
            yield (k, tuple(w(4, [0, 1, 'a']) for _ in range(rng.randrange(4))), rng.choice([1, 1, 2]))
        elif k == 'balanced':
            yield (k, w(8, ['(', ')', 'i']))
        elif k == 'token':
            yield (k, tuple(tuple((rng.choice(['1', 'a', '07', '-1', 'x y']), rng.choice(['0', 'b', '12'])) for _ in range(rng.randrange(4))) for _ in range(rng.randrange(1, 4))), rng.choice([(',', '/'), (';', ':')]))
        else:
            yield (k, tuple(tuple(rng.choice(['a', 'b', 0]) for _ in range(rng.randrange(1, 5))) for _ in range(rng.randrange(3))))


def nontrivial(case):
    return bool(case[1])


def same(a, b):
    return type(a) is type(b) and a == b


def check(case):
    k = case[0]
    if k == 'extend':
        base, new, aslist = list(case[1]), case[2], case[3]
        new = list(new) if aslist else new
        keep = copy.copy(new)
        r = H.extend_set(base, new)
        exp = []
        for x in new:
            if x not in case[1] and x not in exp:
                exp.append(x)
        if list(r) != exp:
            return 'extend_set added %r, expected %r' % (r, exp)
        if base != list(case[1]) + exp:
            return 'the extended list is %r' % (base,)
        if new != keep:
            return 'extend_set altered the new elements'
    elif k == 'prefix':
        u = list(case[1]) if case[2] else case[1]
        p, s = H.all_prefixes(u), H.all_suffixes(u)
        if p != [tuple(case[1][:i]) for i in range(1, len(u) + 1)] or not all(type(x) is tuple for x in p):
            return 'all_prefixes(%r) = %r' % (u, p)
        if s != [tuple(case[1][len(u) - i:]) for i in range(1, len(u) + 1)] or not all(type(x) is tuple for x in s):
            return 'all_suffixes(%r) = %r' % (u, s)
        if tuple(u) != case[1]:
            return 'the word was altered'
    elif k == 'suffix':
        s, t = case[1], case[2]
        exp = any(t[i:] == s for i in range(len(t) + 1))
        if H.is_suffix_of(s, t) is not exp:
            return 'is_suffix_of(%r, %r) = %r' % (s, t, H.is_suffix_of(s, t))
    elif k == 'mdp':
        u, typ = case[1], case[2]
        r = H.get_cex_prefixes(list(u), typ)
        exp = [u[:i] for i in range(len(u) + 1) if (i % 2 == 1) == (typ == 'mdp')]
        if r != exp:
            return 'get_cex_prefixes(%r, %r) = %r' % (u, typ, r)
    elif k == 'rpni':
        data = [list(t) for t in case[1]]
        keep = copy.deepcopy(data)
        r = H.convert_i_o_traces_for_RPNI(data, case[2])
        exp = set()
        for t in keep:
            if case[2] != 'mealy':
                exp.add(((), t[0]))
                t = t[1:]
            for i in range(len(t)):
                exp.add((tuple(x for x, _ in t[:i + 1]), t[i][1]))
        if len(r) != len(set(r)) or set(r) != exp:
            return 'convert_i_o_traces_for_RPNI(%r, %r) = %r' % (keep, case[2], r)
        if data != keep:
            return 'the traces were altered'
        try:
            H.convert_i_o_traces_for_RPNI(data, 'mdp')
            return 'an unknown automaton type was accepted'
        except ValueError:
            pass
    elif k == 'product':
        its = [list(x) for x in case[1]]
        r = list(H.product_with_possible_empty_iterable(*its, repeat=case[2]))
        full = [x for x in its if x] * case[2]
        exp = [()]
        for x in full:
            exp = [e + (y,) for e in exp for y in x]
        if r != exp:
            return 'product(%r) = %r' % (its, r)
    elif k == 'balanced':
        from aalpy.automata import VpaAlphabet
        a = VpaAlphabet(internal_alphabet=['i'], call_alphabet=['('], return_alphabet=[')'])
        d, ok = 0, True
        for c in case[1]:
            d += {'(': 1, ')': -1, 'i': 0}[c]
            ok = ok and d >= 0
        if H.is_balanced(case[1], a) != (ok and d == 0):
            return 'is_balanced(%r) = %r' % (case[1], H.is_balanced(case[1], a))
    elif k == 'token':
        wd, io = case[2]
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'x')
            open(f, 'w').write('\n'.join(wd.join(['o'] + [i + io + o for i, o in t]) for t in case[1]))

            def num(x):
                return int(x) if x.isdigit() else x
            r = IODelimiterTokenizer().tokenize_data(f, io, wd)
            if r != [['o'] + [(num(i), num(o)) for i, o in t] for t in case[1]]:
                return 'IODelimiterTokenizer: %r' % (r,)
            r = DelimiterTokenizer().tokenize_data(f, wd)
            if r != [['o'] + [i + io + o for i, o in t] for t in case[1]]:
                return 'DelimiterTokenizer: %r' % (r,)
            r = CharacterTokenizer().tokenize_data(f)
            if [''.join(x) for x in r] != open(f).read().split('\n') or any(len(c) != 1 for x in r for c in x):
                return 'CharacterTokenizer: %r' % (r,)
    else:
        data = [list(t) for t in case[1]]
        keep = copy.deepcopy(data)
        r = H.mc_format_to_mdp(data)
        if data != keep:
            return 'the data were altered'
        if [[s[0]] + [x[1] for x in s[1:]] for s in r] != keep or any(len(x) != 2 or x[0] != r[0][1][0] for s in r for x in s[1:] if len(r[0]) > 1):
            return 'mc_format_to_mdp(%r) = %r' % (keep, r)
    return None
