"""Driver library: builds /repo, runs TLC models, records executions of the real
code in worker processes, has TLC judge the recorded traces, writes evidence."""
import json, os, re, subprocess, sys, tempfile, time, random, shutil, importlib, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
REPO = '/repo'
PY = '/opt/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar'
NPROC = min(8, os.cpu_count() or 4)
OFF = -2147483000          # sentinel integer: "no such number in the model"


def env_for_code():
    e = dict(os.environ)
    e.update(HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
             MPLCONFIGDIR='/opt/mplconfig', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    e['PYTHONPATH'] = HARN
    return e


class MachineryError(Exception):
    pass


def build():
    r = subprocess.run(['bash', '/opt/vp/build.sh', 'ext'], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise MachineryError('build of /repo failed:\n' + r.stdout[-2000:])


def _tlc_classpath():
    """the classpath the tlc wrapper uses"""
    cp = JAR
    try:
        t = open(shutil.which('tlc')).read()
        m = re.search(r'-cp\s+"?([^\s"]+)', t)
        if m:
            cp = m.group(1)
    except Exception:
        pass
    return cp


def run_tlc(module, cfg, scratch, workers=1, env=None, extra=(), timeout=800, heap='2g'):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg; return (ok, output, states, distinct)."""
    md = tempfile.mkdtemp(prefix='tlc', dir=scratch)
    e = dict(os.environ)
    e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss64m -XX:+UseParallelGC -Djava.io.tmpdir=%s' % (heap, md)
    if env:
        e.update(env)
    cmd = ['tlc', '-metadir', md, '-workers', str(workers), '-deadlock', '-noGenerateSpecTE', '-config', cfg + '.cfg'] \
        + list(extra) + [module + '.tla']
    out = os.path.join(md, 'out.txt')
    with open(out, 'w') as f:
        p = subprocess.Popen(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=e, start_new_session=True)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    text = open(out, errors='replace').read()
    shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', text)
    st, di = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
    if not m:
        m2 = re.findall(r'([\d,]+) states checked', text)
        if m2:
            st = di = int(m2[-1].replace(',', ''))
    ok = p.returncode == 0
    return ok, text, st, di


def lines_with(text, tag):
    """payloads of PrintT("TAG ...") lines"""
    res = []
    for ln in text.splitlines():
        if ln.startswith('"' + tag + ' '):
            s = ln.strip()
            s = json.loads(s)  # TLC prints the string with JSON-compatible escaping
            res.append(s[len(tag) + 1:])
    return res


def run_models(models, scratch, beh_cb=None):
    """models: list of dict(module,cfg,workers,extra).  Returns stats and behaviours."""
    states = trans = 0
    beh = {}
    info = []
    def one(m):
        return m, run_tlc(m['module'], m.get('cfg', m['module']), scratch, m.get('workers', 4),
                          extra=m.get('extra', ()), timeout=m.get('timeout', 700), env=m.get('env'))
    with ThreadPoolExecutor(4) as ex:
        for m, (ok, text, st, di) in ex.map(one, models):
            if not ok:
                raise MachineryError('TLC failed on model %s/%s:\n%s' % (m['module'], m.get('cfg'), text[-3000:]))
            states += di
            trans += st
            beh.setdefault(m.get('key', m['module']), []).extend(json.loads(x) for x in lines_with(text, 'BEH'))
            info.append(dict(model=m['module'], cfg=m.get('cfg', m['module']), generated=st, distinct=di))
    return states, trans, beh, info


def record(modname, scens, scratch, timeout_each=15, total=600):
    """Record the scenarios in NPROC worker processes.  Returns list of traces (same order)."""
    n = max(1, min(NPROC, (len(scens) + 3) // 4))
    chunks = [list(range(j, len(scens), n)) for j in range(n)]
    traces = [None] * len(scens)

    def work(j, idx):
        todo = list(idx)
        t_end = time.time() + total
        attempt = 0
        while todo:
            attempt += 1
            d = tempfile.mkdtemp(prefix='rec', dir=scratch)
            inp, outp = os.path.join(d, 'in.json'), os.path.join(d, 'out.ndjson')
            json.dump([[i, scens[i]] for i in todo], open(inp, 'w'))
            left = t_end - time.time()
            with open(os.path.join(d, 'log'), 'w') as lf:
                p = subprocess.Popen([PY, os.path.join(HARN, 'worker.py'), modname, inp, outp, str(timeout_each)],
                                     cwd=d, env=env_for_code(), stdout=lf, stderr=subprocess.STDOUT,
                                     start_new_session=True)
                try:
                    p.wait(max(5, left))
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
            started = None
            done = set()
            if os.path.exists(outp):
                for ln in open(outp):
                    try:
                        o = json.loads(ln)
                    except ValueError:
                        continue
                    if 'start' in o:
                        started = o['start']
                    else:
                        traces[o['i']] = o['trace']
                        done.add(o['i'])
            log = open(os.path.join(d, 'log'), errors='replace').read()[-1500:]
            shutil.rmtree(d, ignore_errors=True)
            rest = [i for i in todo if i not in done]
            if not rest:
                return
            if started is None and attempt == 1 and not done:
                raise MachineryError('recorder %s did not start:\n%s' % (modname, log))
            # the worker died (crash in compiled code) or hung in scenario `started`
            bad = started if started in rest else rest[0]
            traces[bad] = dict(crash=1, log=log[-300:])
            todo = [i for i in rest if i != bad]
            if time.time() > t_end or attempt > 40:
                for i in todo:
                    traces[i] = dict(crash=1, log='not run: time is up')
                return
    with ThreadPoolExecutor(n) as ex:
        for f in [ex.submit(work, j, c) for j, c in enumerate(chunks)]:
            f.result()
    return traces


def judge(module, traces, scratch, cfg=None, chunk=None, timeout=800):
    """TLC judges traces (list of dict id,cfg,ev).  Returns (fails, states, trans)."""
    if not traces:
        return [], 0, 0
    n = max(1, min(NPROC, len(traces) // 8 + 1))
    weights = [sum(len(json.dumps(e)) for e in t['ev']) + 50 for t in traces]
    parts = [[] for _ in range(n)]
    load = [0] * n
    for i in sorted(range(len(traces)), key=lambda x: -weights[x]):
        j = load.index(min(load))
        parts[j].append(traces[i])
        load[j] += weights[i]

    def one(j):
        f = os.path.join(scratch, 'tr_%s_%d.json' % (module, j))
        json.dump(parts[j], open(f, 'w'))
        ok, text, st, di = run_tlc(module, cfg or module, scratch, 1, env={'TRACE_FILE': f}, timeout=timeout, heap='3g')
        os.unlink(f)
        fails = [json.loads(x) for x in lines_with(text, 'FAIL')]
        done = lines_with(text, 'DONE')
        if not ok or not done or int(done[0]) != len(parts[j]):
            return j, fails, st, di, text
        return j, fails, st, di, None
    fails, states, trans = [], 0, 0
    broken = []
    with ThreadPoolExecutor(n) as ex:
        for j, fl, st, di, err in ex.map(one, range(n)):
            fails += fl
            states += di
            trans += st
            if err:
                broken.append((j, err))
    odd = [0]
    for j, err in broken:
        part = parts[j]
        if 'Evaluating' not in err and 'Attempted' not in err and 'evaluat' not in err and 'Overflow' not in err \
                and 'fingerprint' not in err:
            raise MachineryError('TLC failed on traces with %s:\n%s' % (module, err[-3000:]))
        # a trace of a shape the specification does not know: find it
        seen = {(f['id'], f['line']) for f in fails}
        if len(part) == 1:
            if not any(f['id'] == part[0]['id'] for f in fails):
                fails.append(dict(id=part[0]['id'], line=1, bad=['ALL.unexplained']))
                odd[0] += 1
            continue
        fails = [f for f in fails if f['id'] not in {t['id'] for t in part}]
        h = len(part) // 2
        for sub in (part[:h], part[h:]):
            fl, st, di = _judge_seq(module, sub, scratch, cfg, timeout, odd)
            fails += fl
            states += st
    return fails, states, trans


def _judge_seq(module, part, scratch, cfg, timeout, odd):
    """judge by bisection, isolating traces on which the evaluation itself fails (the first
    three of them: each is a violation already)"""
    if odd[0] >= 3:
        return [], 0, 0
    f = os.path.join(scratch, 'trs_%s_%d.json' % (module, part[0]['id']))
    json.dump(part, open(f, 'w'))
    ok, text, st, di = run_tlc(module, cfg or module, scratch, 1, env={'TRACE_FILE': f}, timeout=timeout, heap='3g')
    os.unlink(f)
    if ok and lines_with(text, 'DONE'):
        return [json.loads(x) for x in lines_with(text, 'FAIL')], di, st
    if len(part) == 1:
        odd[0] += 1
        return [dict(id=part[0]['id'], line=1, bad=['ALL.unexplained'])], 0, 0
    h = len(part) // 2
    a = _judge_seq(module, part[:h], scratch, cfg, timeout, odd)
    b = _judge_seq(module, part[h:], scratch, cfg, timeout, odd)
    return a[0] + b[0], a[1] + b[1], a[2] + b[2]


def load_known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    res = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln and not ln.startswith('#'):
                res.append(json.loads(ln))
    return res
