from lib import *
import random as rnd
from aalpy.SULs import AutomatonSUL
from aalpy.learning_algs.deterministic.ClassificationTree import ClassificationTree

RULE = ('random complete machines; the tree is grown from random (shortest or padded) counterexamples with every processing strategy; after every step every leaf, random words and the hypothesis are '
        'compared with an independent walk over the tree that asks the literal machine')
PROC = ('rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd')


def cases(ctx):
    rng = ctx.rng
    while True:
        kind = rng.choice(KINDS)
        al = rng.choice(ALPHABETS)
        outs = None if kind == 'dfa' else rng.choice([None, (0, 1), (0, 'x', 2, 3), ('', None, 'x')])
        yield (rand_machine(rng, kind, n=rng.choice([2, 3, 4, 5, 6, 8, 12]), alphabet=al, outs=outs), tuple(al), rng.choice(PROC), rng.random() < .5, rng.randrange(10 ** 6))


def nontrivial(case):
    return len(case[0][2]) > 2


def last(m, w):
    o, s = m_run(m, m[1], w)
    return o[-1] if w else m_label(m, s)


def walk(m, t, w):
    """the leaf the answers to the questions on the way select; None when an answer was not seen before"""
    n, seen = t.root, []
    while not n.is_leaf():
        a = last(m, w + tuple(n.distinguishing_string))
        nxt = n.children.get(a, None)
        if nxt is None:
            return None, seen
        seen.append((n, a))
        n = nxt
    return n, seen


def leaves(n):
    return [n] if n.is_leaf() else [x for c in n.children.values() for x in leaves(c)]


def shape(m, t):
    ls = leaves(t.root)
    if len(ls) != len(t.leaf_nodes) or any(t.leaf_nodes.get(x.access_string) is not x for x in ls):
        return 'the leaves of the tree %r are not the registered ones %r' % ([x.access_string for x in ls], list(t.leaf_nodes))
    todo = [t.root]
    for n in todo:
        if not n.is_leaf():
            for k, c in n.children.items():
                if c.parent is not n or c.path_to_node is not k and c.path_to_node != k:
                    return 'a node disagrees with its parent about its place'
                todo.append(c)
    for x in ls:
        y, seen = walk(m, t, x.access_string)
        if y is not x:
            return 'the access word %r is not in the leaf it sifts to' % (x.access_string,)
    return None


def check(case):
    m, al, proc, pad, seed = case
    kind = m[0]
    rng = rnd.Random(seed)
    M, _ = build(m)
    sul = AutomatonSUL(M)
    # the one-state hypothesis KV starts from
    h0 = (kind, 0, ((None, tuple((a, 0, last(m, (a,))) for a in al)),)) if kind == 'mealy' else (kind, 0, ((last(m, ()), tuple((a, 0) for a in al)),))
    w = m_diff(m, h0, alphabet=list(al))
    if w is None:
        return None
    t = ClassificationTree(list(al), sul, kind, w)
    e = shape(m, t)
    if e:
        return 'after the first counterexample %r: %s' % (w, e)
    cex = w
    for rounds in range(60):
        h = t.update_hypothesis()
        e = shape(m, t)
        if e:
            return 'after the hypothesis was updated: ' + e
        H = literal(h)
        if {s.prefix for s in h.states} != set(t.leaf_nodes) or len(h.states) != len(t.leaf_nodes):
            return 'the states %r are not the leaves %r' % ([s.prefix for s in h.states], list(t.leaf_nodes))
        if h.initial_state.prefix != ():
            return 'the initial state has the access word %r' % (h.initial_state.prefix,)
        for s in h.states:
            if kind != 'mealy' and (s.is_accepting if kind == 'dfa' else s.output) != last(m, s.prefix):
                return 'the label of state %r is wrong' % (s.prefix,)
            if set(s.transitions) != set(al):
                return 'state %r lacks transitions' % (s.prefix,)
            for a in al:
                y, _ = walk(m, t, s.prefix + (a,))
                if y is None or s.transitions[a].prefix != y.access_string:
                    return 'the transition %r, %r leads to %r, the extended word sifts to %r' % (s.prefix, a, s.transitions[a].prefix, y and y.access_string)
                if kind == 'mealy' and s.output_fun[a] != last(m, s.prefix + (a,)):
                    return 'the output of %r, %r is wrong' % (s.prefix, a)
        for _ in range(4):
            v = rand_word(rng, al, 5)
            y, _ = walk(m, t, v)
            if y is not None and t._sift(v) is not y:
                return 'the word %r sifts to %r, its answers select %r' % (v, t._sift(v).access_string, y.access_string)
        ls = leaves(t.root)
        if len(ls) > 1:
            x, y = rng.sample(ls, 2)
            d = t._least_common_ancestor(x.access_string, y.access_string)
            if last(m, x.access_string + tuple(d)) == last(m, y.access_string + tuple(d)):
                return 'the least common ancestor of %r and %r does not separate them' % (x.access_string, y.access_string)
        if m_run(m, m[1], cex)[0][-1] == m_run(H, H[1], cex)[0][-1]:
            cex = m_diff(m, H, alphabet=list(al))
            if cex is None:
                return None
            for _ in range(rng.randint(0, 3) if pad else 0):
                v = rng.choice([cex + (rng.choice(al),), (rng.choice(al),) + cex])
                if m_run(m, m[1], v)[0][-1] != m_run(H, H[1], v)[0][-1]:
                    cex = v
        n = len(t.leaf_nodes)
        t.process_counterexample(tuple(cex), h, proc)
        if len(t.leaf_nodes) != n + 1:
            return 'the counterexample %r did not split a leaf' % (cex,)
        e = shape(m, t)
        if e:
            return 'after the counterexample %r: %s' % (cex, e)
    return 'the tree is not complete after 60 counterexamples'
