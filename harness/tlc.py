"""Runs TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    pass


def run_tlc(module, cfg, workers=1, heap='1500m', env=None, extra=(), timeout=600, jvm=()):
    """Returns TLC's output. The specification directory is copied so that nothing is written into it."""
    tmp = tempfile.mkdtemp(prefix='verif-tlc-')
    try:
        for f in os.listdir(SPEC):
            if f.endswith(('.tla', '.cfg')):
                shutil.copy(os.path.join(SPEC, f), tmp)
        cmd = ['java', f'-Xmx{heap}', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss64m',
               '-XX:TieredStopAtLevel=4', *jvm,
               '-cp', CP, 'tlc2.TLC', '-config', cfg, '-workers', str(workers), '-metadir', os.path.join(tmp, 'meta'),
               '-noGenerateSpecTE', *extra, module]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


FAIL = re.compile(r'^<<"FAIL", (\d+), "([^"]*)">>')
CONS = re.compile(r'^<<"CONSUMED", (\d+)>>')
COUNT = re.compile(r'^<<"COUNTS", "(.*)">>$')
STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def validate(path, n_lines, timeout=800):
    """Validates a trace. Returns (fails, counts, states); fails: list of (line, clause)."""
    rc, out = run_tlc('Trace.tla', 'Trace.cfg', env=dict(TRACE=path), timeout=timeout)
    out = out.replace('\n ', ' ')
    fails, counts, consumed, states = [], None, None, 0
    for line in out.splitlines():
        m = FAIL.match(line)
        if m:
            fails.append((int(m.group(1)), m.group(2)))
            continue
        m = CONS.match(line)
        if m:
            consumed = int(m.group(1))
            continue
        m = COUNT.match(line)
        if m:
            counts = json.loads(m.group(1).replace('\\"', '"'))
            continue
        m = STATES.search(line)
        if m:
            states = int(m.group(1))
    if consumed != n_lines or counts is None:
        at = max(out.find('Error:'), 0)
        raise TLCError(f'rc={rc} consumed={consumed} of {n_lines}\n' + out[at:at + 3000] + '\n...\n' + out[-1500:])
    return fails, counts, states
