"""C21: machines with several successors (stochastic and non-deterministic), one world per kind."""
from pyvc.world import World, Loop

F = {'mdp': ('aalpy/automata/Mdp.py', 'MdpState', 'Mdp', 'Map[val,List[Tuple[S,real]]]'),
     'mc': ('aalpy/automata/MarkovChain.py', 'McState', 'MarkovChain', 'List[Tuple[S,real]]'),
     'smm': ('aalpy/automata/StochasticMealyMachine.py', 'StochasticMealyState', 'StochasticMealyMachine', 'Map[val,List[Tuple[S,val,real]]]'),
     'onfsm': ('aalpy/automata/Onfsm.py', 'OnfsmState', 'Onfsm', 'Map[val,List[Tuple[val,S]]]'),
     'ndmoore': ('aalpy/automata/NonDeterministicMooreMachine.py', 'NDMooreState', 'NDMooreMachine', 'Map[val,List[S]]')}


def base(name, kind):
    w = World(name)
    f, sc, mc, tt = F[kind]
    fields = {'state_id': 'val', 'transitions': tt, 'prefix': 'val'}
    if kind in ('mdp', 'mc', 'ndmoore'):
        fields['output'] = 'val'
    w.cls('S', f + '::' + sc, fields)
    w.cls('M', f + '::' + mc, {'initial_state': 'S', 'states': 'List[S]', 'current_state': 'S'})
    return w


def world(kind):
    w = base('nd:' + kind, kind)
    f, sc, mc, tt = F[kind]
    cur = 'self.current_state'
    el = tt if kind == 'mc' else tt[8:-1]
    if kind == 'mc':
        w.spec("def TR(s: 'S', a: 'val') -> '%s':\n    return s.transitions" % el)
    else:
        w.spec("def TR(s: 'S', a: 'val') -> '%s':\n    return ite(a in s.transitions, s.transitions[a], [])" % el)
    pr = {'mdp': 1, 'mc': 1, 'smm': 2}.get(kind)
    tgt = {'mdp': '[0]', 'mc': '[0]', 'smm': '[0]', 'onfsm': '[1]', 'ndmoore': ''}[kind]
    # reading an input that is not defined may leave an empty entry in the table: nothing recorded changes
    SAME = ['forall("s:S, a:val", TR(s, a) == old(TR(s, a)), s.transitions[a])'] if kind != 'mc' else []
    mods = [cur] + ([cur + '.transitions'] if kind != 'mc' else [])
    if pr:
        w.spec('''
def WEIGHTS(s: 'S', a: 'val') -> 'bool':
    return forall("i:int", implies(0 <= i and i < len(TR(s, a)), TR(s, a)[i][{0}] >= 0), TR(s, a)[i]) and exists("i:int", 0 <= i and i < len(TR(s, a)) and TR(s, a)[i][{0}] > 0, TR(s, a)[i])
'''.format(pr))
    out = {'mdp': 'result == self.current_state.output', 'mc': 'result == self.current_state.output', 'ndmoore': 'result == self.current_state.output', 'smm': 'result == TR(old(%s), letter)[i][1]' % cur, 'onfsm': 'result == TR(old(%s), letter)[i][0]' % cur}[kind]
    MOVE = 'exists("i:int", 0 <= i and i < len(TR(old({c}), letter)) and {c} == TR(old({c}), letter)[i]{t}{p} and {o}, TR(old({c}), letter)[i])'.format(
        c=cur, t=tgt, p=' and TR(old(%s), letter)[i][%d] > 0' % (cur, pr) if pr else '', o=out)
    STAY = '%s == old(%s)' % (cur, cur)
    req = {'mdp': ['implies(letter is not None, WEIGHTS(self.current_state, letter))'], 'smm': ['WEIGHTS(self.current_state, letter)'],
           'mc': ['implies(len(self.current_state.transitions) > 0, WEIGHTS(self.current_state, letter))']}.get(kind, [])
    ens = {'mdp': ['implies(letter is None, %s and result == %s.output)' % (STAY, cur), 'implies(letter is not None, %s)' % MOVE],
           'mc': ['implies(len(old(self.current_state).transitions) == 0, %s and result == %s.output)' % (STAY, cur), 'implies(len(old(self.current_state).transitions) > 0, %s)' % MOVE]}.get(kind, [MOVE])
    EMPTY = ['len(TR(old(%s), letter)) == 0' % cur, STAY]
    w.contract('%s::%s.step' % (f, mc), name='step', params={'self': 'M', 'letter': 'val'}, returns='val', modifies=mods, requires=req, ensures=ens + SAME, raises={'IndexError': EMPTY} if kind in ('onfsm', 'ndmoore') else {})
    if kind == 'ndmoore':
        pass
    elif kind == 'mc':
        w.contract('%s::%s.step_to' % (f, mc), name='step_to', params={'self': 'M', 'input': 'val'}, returns='val', modifies=[cur],
                   loops={0: Loop(inv=[STAY, 'forall("i:int", implies(0 <= i and i < _k, TR(self.current_state, input)[i][0].output != input), TR(self.current_state, input)[i])'])},
                   ensures=['implies(exists("i:int", 0 <= i and i < len(TR(old({c}), input)) and TR(old({c}), input)[i][0].output == input, TR(old({c}), input)[i]), result == input and {c}.output == input and exists("i:int", 0 <= i and i < len(TR(old({c}), input)) and TR(old({c}), input)[i][0] == {c}, TR(old({c}), input)[i]))'.format(c=cur),
                            'implies(not exists("i:int", 0 <= i and i < len(TR(old({c}), input)) and TR(old({c}), input)[i][0].output == input, TR(old({c}), input)[i]), result is None and {c} == old({c}))'.format(c=cur)])
    else:
        O = 'TR({s}, inp)[i]' + {'mdp': '[0].output', 'smm': '[1]', 'onfsm': '[0]'}[kind]
        N = O.format(s='self.current_state')
        OO = O.format(s='old(self.current_state)')
        T_ = 'TR(old(self.current_state), inp)'
        HAS = 'exists("i:int", 0 <= i and i < len(%s) and %s == out, %s[i])' % (T_, OO, T_)
        TO = 'exists("i:int", 0 <= i and i < len(%s) and %s == out and %s[i]%s == %s and forall("j:int", implies(0 <= j and j < i, %s != out), %s[j]), %s[i])' % (T_, OO, T_, tgt, cur, OO.replace('[i]', '[j]'), T_, T_)
        w.contract('%s::%s.step_to' % (f, mc), name='step_to', params={'self': 'M', 'inp': 'val', 'out': 'val'}, returns='val', modifies=mods,
                   loops={0: Loop(inv=[STAY, 'forall("i:int", implies(0 <= i and i < _k, %s != out), TR(self.current_state, inp)[i])' % N] + SAME)},
                   ensures=['implies(%s, result == out and %s)' % (HAS, TO), 'implies(not %s, result is None and %s)' % (HAS, STAY)] + SAME)
    if kind == 'onfsm':
        w.contract('%s::%s.outputs_on_input' % (f, mc), name='outputs_on_input', params={'self': 'M', 'letter': 'val'}, returns='List[val]', modifies=[cur + '.transitions'],
                   ensures=['len(result) == len(TR(%s, letter))' % cur, 'forall("i:int", implies(0 <= i and i < len(result), result[i] == TR(%s, letter)[i][0]), result[i])' % cur] + SAME)
        w.contract('%s::%s.add_transition' % (f, sc), name='add_transition', params={'self': 'S', 'inp': 'val', 'out': 'val', 'new_state': 'S'}, modifies=['self.transitions'],
                   ensures=['len(TR(self, inp)) == len(old(TR(self, inp))) + 1', 'TR(self, inp) == old(TR(self, inp)) + [(out, new_state)]', 'forall("s:S, a:val", implies(s != self or a != inp, TR(s, a) == old(TR(s, a))), s.transitions[a])'])
    if kind != 'ndmoore' or True:
        w.contract(('%s::%s.reset_to_initial' % (f, mc)) if kind in ('mdp', 'mc', 'smm') else 'aalpy/base/Automaton.py::Automaton.reset_to_initial', name='reset_to_initial', params={'self': 'M'}, modifies=[cur], ensures=[cur + ' == self.initial_state'], recv='M')
    return w
