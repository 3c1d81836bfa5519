"""C16: make_input_complete, one world per kind of machine."""
from pyvc.world import World, Loop
from contracts import auto, nd

STATES = {'dfa': ('aalpy/automata/Dfa.py::DfaState', 'is_accepting', 'Map[val,S]'), 'moore': ('aalpy/automata/MooreMachine.py::MooreState', 'output', 'Map[val,S]'),
          'mealy': ('aalpy/automata/MealyMachine.py::MealyState', 'output_fun', 'Map[val,S]'), 'onfsm': ('aalpy/automata/Onfsm.py::OnfsmState', None, None),
          'ndmoore': ('aalpy/automata/NonDeterministicMooreMachine.py::NDMooreState', 'output', None), 'mdp': ('aalpy/automata/Mdp.py::MdpState', 'output', None),
          'smm': ('aalpy/automata/StochasticMealyMachine.py::StochasticMealyState', None, None)}
H = 'aalpy/utils/HelperFunctions.py::make_input_complete'


def world(kind):
    det = kind in ('dfa', 'moore', 'mealy')
    w = (auto.base if det else nd.base)('mic:' + kind, kind)
    auto.alph(w)
    # the sink state of every kind is constructed, whatever the kind of the machine
    for k, (src, lab, tt) in STATES.items():
        if k != kind:
            f = {'state_id': 'val', 'prefix': 'val', 'transitions': (tt or nd.F[k][3]).replace('S', 'X' + k)}
            if lab:
                f[lab] = 'Map[val,val]' if k == 'mealy' else 'val'
            w.cls('X' + k, src, f)
    T = 's.transitions[a]'
    tgt = {'onfsm': "[('epsilon', %s)]", 'ndmoore': '[%s]', 'mdp': '[(%s, 1.0)]', 'smm': "[(%s, 'epsilon', 1.0)]"}.get(kind, '%s')
    eps = " and s.output_fun[a] == 'epsilon' and a in s.output_fun" if kind == 'mealy' else ''
    KEEP = 'a in %s and %s == old(%s)' % (T.replace('[a]', ''), T, T) + (' and iff(a in s.output_fun, old(a in s.output_fun)) and s.output_fun[a] == old(s.output_fun[a])' if kind == 'mealy' else '')
    OFUN = ' and iff(a in s.output_fun, old(a in s.output_fun)) and s.output_fun[a] == old(s.output_fun[a])' if kind == 'mealy' else ''
    UNT = '(iff(a in s.transitions, old(a in s.transitions)) and s.transitions[a] == old(s.transitions[a])%s)' % OFUN
    ALL = 'forall("s:S, a:val", {}, s.transitions[a], a in s.transitions%s)' % (', s.output_fun[a], a in s.output_fun' if kind == 'mealy' else '')
    COMPLETE = 'forall("s:S, a:val", implies(s in automaton.states and INALPH(automaton, a), a in s.transitions), (s in automaton.states, a in s.transitions))'
    mods = ['automaton.states', 'S.transitions'] + ['S.output_fun'] * (kind == 'mealy')
    for mode in ('self_loop', 'sink_state'):
        FILL = 'a in s.transitions and s.transitions[a] == ' + tgt + eps
        LAST = 'automaton.states[len(automaton.states) - 1]'
        F1 = FILL.replace('%s', 's' if mode == 'self_loop' else 'sink_state')
        NOTSINK = '' if mode == 'self_loop' else 's != sink_state and '
        INV = [('automaton.states == old(automaton.states)' if mode == 'self_loop' else 'automaton.states == old(automaton.states) + [sink_state]'), 'forall("a:val", iff(a in input_al, old(INALPH(automaton, a))), a in input_al)',
               ALL.format('implies(%sold(alloc(s)) and (old(a in s.transitions) or not a in input_al or not s in old(automaton.states)), %s)' % (NOTSINK, UNT)),
               ALL.format('implies(s in old(automaton.states) and a in input_al and not old(a in s.transitions) and a in s.transitions, %s)' % F1)]
        if mode == 'sink_state':
            INV += ['sink_state is not None', 'not (sink_state in old(automaton.states))', ALL.format('implies(s == sink_state and a in s.transitions, a in input_al and %s)' % F1)]
        out = [Loop(idx='_ks', it='_its', inv=INV + ['forall("j:int, a:val", implies(0 <= j and j < _ks and a in input_al, a in automaton.states[j].transitions), a in automaton.states[j].transitions)']),
               Loop(inv=INV + ['forall("j:int, a:val", implies(0 <= j and j < _ks and a in input_al, a in automaton.states[j].transitions), a in automaton.states[j].transitions)', 'forall("i:int", implies(0 <= i and i < _k, input_al[i] in state.transitions), input_al[i])'])]
        ens = ['result == automaton', 'implies(old(%s), automaton.states == old(automaton.states) and %s)' % (COMPLETE, ALL.format('implies(old(alloc(s)), %s)' % UNT)),
               ALL.format('implies(old(alloc(s)) and (old(a in s.transitions) or not old(INALPH(automaton, a)) or not (s in old(automaton.states))), %s)' % UNT)]
        if mode == 'self_loop':
            ens += ['automaton.states == old(automaton.states)', ALL.format('implies(s in old(automaton.states) and old(INALPH(automaton, a)) and not old(a in s.transitions), %s)' % F1)]
        else:
            NC = 'not old(%s)' % COMPLETE
            FL = FILL.replace('%s', LAST)
            ens += ['implies(%s, automaton.states == old(automaton.states) + [%s] and forall("s:S", implies(s == %s, not old(alloc(s)) and s not in old(automaton.states)), s in automaton.states))' % (NC, LAST, LAST),
                    ALL.format('implies(%s and s in old(automaton.states) and old(INALPH(automaton, a)) and not old(a in s.transitions), %s)' % (NC, FL)),
                    'implies(%s, forall("a:val", iff(a in {0}.transitions, old(INALPH(automaton, a))), a in {0}.transitions))'.format(LAST) % NC,
                    ALL.format('implies(%s and s == %s and a in s.transitions, %s)' % (NC, LAST, FL))]
            if STATES[kind][1] and kind != 'mealy':
                ens.append('implies(%s, %s.%s == %s)' % (NC, LAST, STATES[kind][1], 'False' if kind == 'dfa' else "'sink_state'"))
        w.contract(H, name=mode, allocs=['S'] + ['X' + k for k in STATES if k != kind], params={'automaton': 'M', 'missing_transition_go_to': ('const', mode)}, returns='M', modifies=mods, loops={0: out[0], 1: out[1]}, ensures=ens,
                   ghost={'exit': 'if bound(sink_state):\n    if sink_state is not None:\n        assert automaton.states[len(automaton.states) - 1] == sink_state\n        assert forall("a:val", implies(a in input_al, a in sink_state.transitions), a in input_al)'} if mode == 'sink_state' else {})
    return w
