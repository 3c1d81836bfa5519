"""C17: pushdown automata, one world per kind."""
from pyvc.world import World, Loop

V, S = 'aalpy/automata/Vpa.py::', 'aalpy/automata/Sevpa.py::'


def world(kind):
    w = World('pda:' + kind)
    vpa = kind == 'vpa'
    P, M = (V, 'Vpa') if vpa else (S, 'Sevpa')
    w.cls('T', P + M + 'Transition', {'target_state': 'S', 'letter': 'val', 'action': 'val', 'stack_guard': 'val', **({'start': 'S'} if vpa else {})})
    w.cls('S', P + M + 'State', {'state_id': 'val', 'prefix': 'val', 'transitions': 'Map[val,List[T]]', 'is_accepting': 'bool'})
    w.cls('AL', P + M + 'Alphabet', {'internal_alphabet': 'List[val]', 'call_alphabet': 'List[val]', 'return_alphabet': 'List[val]', 'exclusive_call_return_pairs': 'val'})
    w.cls('M', P + M, {'initial_state': 'S', 'states': 'List[S]', 'current_state': 'S', 'stack': 'List[val]', 'characterization_set': 'List[Tup[val]]', 'input_alphabet': 'AL',
                       'internal_set': 'Set[val]', 'call_set': 'Set[val]', 'return_set': 'Set[val]', **({} if vpa else {'error_state_reached': 'bool'})},
          statics={'error_state': 'ERR'} if vpa else {})
    cur = 'self.current_state'
    w.spec("def TR(s: 'S', a: 'val') -> 'List[T]':\n    return ite(a in s.transitions, s.transitions[a], [])")
    SAME = ['forall("s:S, a:val", TR(s, a) == old(TR(s, a)), s.transitions[a])']
    mods = [cur, 'self.stack', cur + '.transitions']
    if vpa:
        w.ufn('ERR', [], 'S')
        w.axiom('err', 'ERR() is not None', 'Vpa.error_state is an object created when the class is loaded')
        # the transition taken: the first one that pushes, is internal, or names the top of the stack
        w.spec('''
def TOP(k: 'List[val]') -> 'val':
    return ite(len(k) > 0, k[len(k) - 1], [])
def OKT(t: 'T', top: 'val') -> 'bool':
    return t.action == 'push' or t.action is None or t.stack_guard == top
def TAKES(ts: 'List[T]', k: 'List[val]', i: 'int') -> 'bool':
    return 0 <= i and i < len(ts) and OKT(ts[i], TOP(k)) and forall("j:int", implies(0 <= j and j < i, not OKT(ts[j], TOP(k))), ts[j])
''')
        OS, OK = 'old(%s)' % cur, 'old(self.stack)'
        TK = 'TR(%s, letter)' % OS
        CASE = 'forall("i:int", implies({os} != ERR() and letter is not None and TAKES({t}, {k}, i), {{}}), {t}[i])'.format(os=OS, t=TK, k=OK)
        ACC = 'result == ({c}.is_accepting and len(self.stack) == 0)'.format(c=cur)
        w.contract(P + 'Vpa.step', name='step', params={'self': 'M', 'letter': 'val'}, returns='bool', modifies=mods, requires=['alloc(ERR())'],
                   loops={0: Loop(inv=['taken_transition is None', '%s == %s' % (cur, OS), 'self.stack == ' + OK, 'forall("j:int", implies(0 <= j and j < _k, not OKT(_it[j], TOP(self.stack))), _it[j])'] + SAME, locals={'taken_transition': 'Opt[T]'})},
                   ensures=SAME + ['implies({os} == ERR(), not result and {c} == ERR() and self.stack == {k})'.format(os=OS, c=cur, k=OK),
                                   'implies({os} != ERR() and letter is None, {c} == {os} and self.stack == {k} and {acc})'.format(os=OS, c=cur, k=OK, acc=ACC),
                                   'implies({os} != ERR() and letter is not None and not exists("i:int", TAKES({t}, {k}, i), {t}[i]), {c} == ERR() and self.stack == {k} and not result)'.format(os=OS, c=cur, k=OK, t=TK),
                                   CASE.format('implies({t}[i].action == "push", {c} == {t}[i].target_state and self.stack == {k} + [{t}[i].stack_guard] and {acc})'.format(t=TK, c=cur, k=OK, acc=ACC)),
                                   CASE.format('implies({t}[i].action == "pop" and len({k}) > 0, {c} == {t}[i].target_state and self.stack == {k}[:len({k}) - 1] and {acc})'.format(t=TK, c=cur, k=OK, acc=ACC)),
                                   CASE.format('implies({t}[i].action == "pop" and len({k}) == 0, {c} == ERR() and self.stack == {k} and not result)'.format(t=TK, c=cur, k=OK)),
                                   CASE.format('implies({t}[i].action != "pop" and {t}[i].action != "push", {c} == {t}[i].target_state and self.stack == {k} and {acc})'.format(t=TK, c=cur, k=OK, acc=ACC))])
        w.contract(P + 'Vpa.top', name='top', params={'self': 'M'}, returns='val', ensures=['result == TOP(self.stack)'])
        w.contract(P + 'Vpa.reset_to_initial', name='reset_to_initial', params={'self': 'M'}, modifies=[cur, 'self.stack'], ensures=[cur + ' == self.initial_state', 'len(self.stack) == 0'])
    else:
        w.spec('''
def OKT(m: 'M', t: 'T', top: 'val') -> 'bool':
    return ite(t.letter in m.return_set, t.stack_guard == top, True)
def TAKES(m: 'M', ts: 'List[T]', k: 'List[val]', i: 'int') -> 'bool':
    return 0 <= i and i < len(ts) and OKT(m, ts[i], k[len(k) - 1]) and forall("j:int", implies(0 <= j and j < i, not OKT(m, ts[j], k[len(k) - 1])), ts[j])
''')
        OS, OK = 'old(%s)' % cur, 'old(self.stack)'
        TK = 'TR(%s, letter)' % OS
        LIVE = 'not old(self.error_state_reached) and letter is not None'
        ACC = 'result == ({c}.is_accepting and self.stack[len(self.stack) - 1] == "_")'.format(c=cur)
        STAY = '{c} == {os} and self.stack == {k}'.format(c=cur, os=OS, k=OK)
        CASE = 'forall("i:int", implies({live} and not (letter in self.call_set) and TAKES(self, {t}, {k}, i), {{}}), {t}[i])'.format(live=LIVE, t=TK, k=OK)
        NOERR = 'not self.error_state_reached'
        w.contract(S + 'Sevpa.step', name='step', params={'self': 'M', 'letter': 'val'}, returns='bool', modifies=mods + ['self.error_state_reached'],
                   requires=['len(self.stack) > 0', 'forall("i:int", implies(0 <= i and i < len(TR({c}, letter)), TR({c}, letter)[i].letter in self.return_set or TR({c}, letter)[i].letter in self.internal_set), TR({c}, letter)[i])'.format(c=cur)],
                   loops={0: Loop(inv=['taken_transition is None', '%s == %s' % (cur, OS), 'self.stack == ' + OK, NOERR, 'forall("j:int", implies(0 <= j and j < _k, not OKT(self, _it[j], self.stack[len(self.stack) - 1])), _it[j])'] + SAME, locals={'taken_transition': 'Opt[T]'})},
                   ensures=SAME + ['len(self.stack) > 0', 'implies(old(self.error_state_reached), not result and self.error_state_reached and %s)' % STAY,
                                   'implies(not old(self.error_state_reached) and letter is None, %s and %s and %s)' % (STAY, ACC, NOERR),
                                   'implies({live} and letter in self.call_set, {c} == self.initial_state and len(self.stack) == len({k}) + 1 and self.stack[:len({k})] == {k} and self.stack[len({k})] == ({os}.state_id, letter) and {acc} and {ne})'.format(live=LIVE, c=cur, k=OK, os=OS, acc=ACC, ne=NOERR),
                                   'implies({live} and not (letter in self.call_set) and not exists("i:int", TAKES(self, {t}, {k}, i), {t}[i]), self.error_state_reached and not result and {stay})'.format(live=LIVE, t=TK, k=OK, stay=STAY),
                                   CASE.format('implies({t}[i].action == "pop" and len({k}) > 1, {c} == {t}[i].target_state and self.stack == {k}[:len({k}) - 1] and {acc} and {ne})'.format(t=TK, c=cur, k=OK, acc=ACC, ne=NOERR)),
                                   CASE.format('implies({t}[i].action == "pop" and len({k}) == 1, self.stack == {k} and self.error_state_reached and not result)'.format(t=TK, k=OK)),
                                   CASE.format('implies({t}[i].action != "pop", {c} == {t}[i].target_state and self.stack == {k} and {acc} and {ne})'.format(t=TK, c=cur, k=OK, acc=ACC, ne=NOERR))])
        w.contract(S + 'Sevpa.reset_to_initial', name='reset_to_initial', params={'self': 'M'}, returns='bool', modifies=[cur, 'self.stack', 'self.error_state_reached'],
                   ensures=[cur + ' == self.initial_state', 'len(self.stack) == 1 and self.stack[0] == "_"', NOERR, 'result == self.initial_state.is_accepting'])
    return w
