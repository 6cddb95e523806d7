"""Runs scenarios of one recorder module against the real code; one JSON line per scenario."""
import sys, json, signal, os, traceback, warnings
warnings.simplefilter('ignore')
mod, inp, outp, each = sys.argv[1:5]
import importlib
import numpy as np
import logging
import clawpack.pyclaw           # noqa: F401  (builds and loads /repo)
logging.disable(logging.CRITICAL)
np.seterr(all='ignore')
m = importlib.import_module(mod)

class Hang(BaseException):
    pass
def _alarm(*a):
    raise Hang()
signal.signal(signal.SIGALRM, _alarm)
signal.signal(signal.SIGPROF, _alarm)      # processor time: a loaded machine is no hang

def clean(o):
    if isinstance(o, dict):
        return {str(k): clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clean(v) for v in o]
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.ndarray):
        return clean(o.tolist())
    return o

hangs = 0
with open(outp, 'a') as f:
    for i, scn in json.load(open(inp)):
        if hangs >= 2:                 # a violation is certain by now; the rest would only cost time
            f.write(json.dumps({'i': i, 'trace': dict(skip=1)}) + '\n'); f.flush()
            continue
        f.write(json.dumps({'start': i}) + '\n'); f.flush()
        signal.setitimer(signal.ITIMER_PROF, float(each))
        signal.alarm(int(max(float(each), min(5 * float(each), 300))))
        try:
            tr = m.record(scn)
        except Exception:
            tr = dict(crash=1, log=traceback.format_exc()[-1200:])
        except BaseException as ex:    # Hang here, Runaway in the recorders
            tr = dict(crash=1, log='hang ' + type(ex).__name__)
            hangs += 1
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        f.write(json.dumps({'i': i, 'trace': clean(tr)}) + '\n'); f.flush()
