from seedlib import mk
PRE = '''
import sys, os, copy, numpy as np, logging
from clawpack import pyclaw
logging.disable(logging.CRITICAL)
'''
S = 'src/pyclaw/solution.py'; T = 'src/pyclaw/state.py'
mk('C25a', 'C25', [(S, "            if getattr(state,attr) is None or overwrite:", "            if not getattr(state,attr) or overwrite:")],
   'setting an attribute of all states without overwriting, where it is zero or empty but set',
   'a value that is there (time zero, an empty set of parameters) is overwritten',
   PRE + '''
dom = pyclaw.Domain([pyclaw.Patch([pyclaw.Dimension(a, a + 1., 4, name='x')]) for a in (0., 1.)])
sol = pyclaw.Solution([pyclaw.State(p, 2) for p in dom.patches], dom)
sol.states[1].t = 3.
sol.set_all_states('t', 5., overwrite=False)
assert [s.t for s in sol.states] == [0., 3.], [s.t for s in sol.states]
''')
mk('C25b', 'C25', [(S, "                    self.states = arg[0]\n", "                    self.states = sorted(arg[0],key=lambda s: (s.patch.level,s.patch.patch_index))\n")],
   'a list of states whose patches are not in ascending order of level and number',
   'the states of the solution are in another order than given, its attributes those of another state',
   PRE + '''
ps = [pyclaw.Patch([pyclaw.Dimension(a, a + 1., n, name='x')]) for a, n in ((0., 4), (1., 6))]
ps[0].patch_index, ps[1].patch_index = 2, 1
st = [pyclaw.State(p, 2) for p in ps]
sol = pyclaw.Solution(st, pyclaw.Domain(ps))
assert sol.states[0] is st[0] and sol.states[1] is st[1]
assert sol.q.shape == (2, 4)
''')
