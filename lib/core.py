"""Running scenarios on the code, traces through TLC, models through TLC."""
import os
import re
import json
import time
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = 8


class Machinery(Exception):
    """the check itself failed (never a verdict)"""


def _classpath():
    d = os.path.dirname(JAR)
    jars = [os.path.join(d, x) for x in sorted(os.listdir(d))
            if x.endswith('.jar')]
    return ':'.join(jars)


def tlc(module, cfg, work, env=None, workers=NPROC, timeout=800, extra=(),
        heap='6g'):
    """run TLC on SPEC/module.tla with SPEC/cfg; return its output"""
    meta = tempfile.mkdtemp(prefix='tlc_', dir=work)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-Djava.io.tmpdir=' + meta,
           '-DTLA-Library=' + SPEC,
           '-cp', _classpath(), 'tlc2.TLC', '-config', cfg,
           '-metadir', meta, '-workers', str(workers), '-deadlock',
           '-noGenerateSpecTE'] + list(extra) + [module + '.tla']
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, text=True, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired as ex:
        raise Machinery('TLC timed out on ' + module) from ex
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.stdout


STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def tlc_stats(out):
    m = STATES.findall(out)
    if not m:
        raise Machinery('TLC gave no statistics:\n' + out[-3000:])
    return int(m[-1][0]), int(m[-1][1])


def run_driver(scenarios, work, script='driver.py', nproc=NPROC,
               timeout=600, env=None):
    """run all scenarios on the real code; returns (traces, died) where died
    lists the scenarios that took the whole process down"""
    chunks = [scenarios[i::nproc] for i in range(nproc)]
    procs = []
    for i, ch in enumerate(chunks):
        if not ch:
            continue
        src = os.path.join(work, 'scen{}.ndjson'.format(i))
        dst = os.path.join(work, 'trace{}.ndjson'.format(i))
        with open(src, 'w') as f:
            for s in ch:
                f.write(json.dumps(s) + '\n')
        e = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                 PYTHONDONTWRITEBYTECODE='1', TMPDIR=work,
                 PYTHONHASHSEED='0')
        e.update(env or {})
        logf = open(os.path.join(work, 'drv{}.log'.format(i)), 'w')
        procs.append((ch, dst, logf, subprocess.Popen(
            [PY, '-W', 'ignore', os.path.join(VERIF, 'lib', script),
             src, dst], env=e, stdout=logf, stderr=subprocess.STDOUT,
            cwd=work)))
    traces, died = [], []
    end = time.time() + timeout
    for ch, dst, logf, p in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        logf.close()
        got = []
        if os.path.exists(dst):
            with open(dst) as f:
                for line in f:
                    try:
                        got.append(json.loads(line))
                    except ValueError:
                        break
        traces += got
        if p.returncode != 0:
            if not got and len(ch) > 1:
                with open(logf.name) as f:
                    log = f.read()
                if 'ImportError' in log or 'driver.py' in log \
                        and 'main(' not in log:
                    raise Machinery('driver failed:\n' + log[-2000:])
            died.append((ch[len(got)] if len(got) < len(ch) else ch[-1],
                         p.returncode))
    return traces, died


FAIL = re.compile(r'"@FAIL <<(-?\d+), (\d+), \{(.*?)\}>>"')


def validate(traces, work, module='Trace', timeout=800):
    """trace validation by TLC; returns (fails, stats)"""
    fn = os.path.join(work, 'all_traces.ndjson')
    with open(fn, 'w') as f:
        for t in traces:
            f.write(json.dumps(t) + '\n')
    out = tlc(module, 'Trace.cfg', work, env={'TRACES': fn}, timeout=timeout)
    with open(os.path.join(work, 'tlc_trace.out'), 'w') as f:
        f.write(out)
    if 'Model checking completed' not in out or 'Error:' in out:
        raise Machinery('TLC trace validation failed:\n' + out[-4000:])
    gen, dist = tlc_stats(out)
    want = sum(len(t['ev']) + 1 for t in traces)
    if dist != want:
        raise Machinery('not every event was consumed: {} states, {} '
                        'expected'.format(dist, want))
    fails = []
    for m in FAIL.finditer(out):
        fails.append((int(m.group(1)), int(m.group(2)),
                      sorted(x.strip().strip('\\').strip('"').strip('\\')
                             for x in m.group(3).split(','))))
    if out.count('@FAIL') != len(fails):
        raise Machinery('could not read all verdicts of TLC')
    return fails, {'states': dist, 'transitions': gen - len(traces)}


def model(module, cfg, work, timeout=800, extra=(), env=None):
    """exhaustive check of a design model"""
    t0 = time.time()
    out = tlc(module, cfg, work, timeout=timeout, extra=extra, env=env)
    ok = 'Model checking completed. No error has been found' in out
    if not ok and 'is violated' not in out and 'Error:' in out:
        raise Machinery('TLC failed on {}:\n{}'.format(module, out[-4000:]))
    gen, dist = tlc_stats(out)
    return {'module': module, 'cfg': cfg, 'ok': ok, 'states': dist,
            'transitions': gen, 'wall_s': round(time.time() - t0, 1),
            'out': out}
