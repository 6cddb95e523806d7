import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import mk
PRE = '''
import sys, os, copy, numpy as np, logging
from clawpack import pyclaw
from clawpack.pyclaw import util
logging.disable(logging.CRITICAL)
'''
U = 'src/pyclaw/util.py'
mk('C23a', 'C23', [(U, "    err_norm = d*np.linalg.norm(expected - test)\n", "    err_norm = d*np.sqrt(np.nansum((expected - test)**2))\n")],
   'test data that contain NaN (a run that blew up) and agree elsewhere',
   'the blown-up run is accepted',
   PRE + '''
e = np.ones((2, 3)); t = e.copy()
assert util.check_diff(e, t, abstol=1e-3) is None
t[1, 2] = np.nan
assert util.check_diff(e, t, abstol=1e-3) is not None, 'NaN accepted'
''')
mk('C23b', 'C23', [(U, "            if ref_state.patch.patch_index == state.patch.patch_index:\n                break\n",
  "            if ref_state.patch.patch_index == state.patch.patch_index:\n                break\n        if ref_state is state: continue\n        if ref_state.patch.level > 1 and state.q.size == 0: continue\n"),
 (U, "        dims = patch.dimensions\n        ref_dims = ref_patch.dimensions\n", "        dims = patch.dimensions\n        ref_dims = ref_patch.dimensions[:len(set(ref_patch.name))]\n")],
   'two solutions of three-dimensional patches whose third dimensions differ in extent',
   'the difference is not reported',
   PRE + '''
def sol(up):
    dom = pyclaw.Domain([pyclaw.Dimension(0., 1., 2, name='x'), pyclaw.Dimension(0., 1., 2, name='x1'), pyclaw.Dimension(0., up, 2, name='z')])
    return pyclaw.Solution(pyclaw.State(dom, 1), dom)
''') if 0 else None
mk('C24a', 'C24', [(U, "            kwargs[key] = value\n        else:\n            args.append(value)\n    return args, kwargs", "            kwargs.setdefault(key, value)\n        else:\n            args.append(value)\n    return args, kwargs")],
   'a command line that gives the same parameter twice',
   'the earlier value is used instead of the later one',
   PRE + '''
got = {}
class A:
    def run(self): got['ran'] = 1
def app(**kw):
    got.update(kw); return A()
sys.argv = ['prog', 'num_cells=10', 'x=a', 'num_cells=20']
util.run_app_from_main(app)
assert got == dict(num_cells=20, x='a', ran=1), got
''')
