"""Helpers to write planted changes: mk(id, prop, [(file, old, new), ...], needs, breaks, demo_python)."""
import json, os, shutil, subprocess, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(sid, prop, edits, needs, breaks, demo):
    w = tempfile.mkdtemp(prefix='seed_')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
        for f, old, new in edits:
            p = w + '/r/' + f
            t = open(p).read()
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        d = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(w)
    # changes to Fortran sources are kept apart: only Python ones are run by vcheck
    out = os.path.join(VERIF, 'seeded_fortran' if '.f90' in d else 'seeded', sid)
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(d)
    open(out + '/demo.py', 'w').write(demo)
    open(out + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: behaves as promised; nonzero: the property is broken
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
cd "$w" && timeout 250 /opt/venv/bin/python "$here/demo.py" "$w"
''')
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
