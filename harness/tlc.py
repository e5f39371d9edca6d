"""Run TLC and read its verdict lines.

Every trace module prints one line per trace:  <<"VERDICT", traceId, {"clause@line", ...}>>  (total verdicts: a trace
that the specification rejects is reported with the names of the failing clauses, and TLC still finishes normally).
Anything else (TLC crash, parse error, missing verdict) is a machinery error -> MachineryError.
"""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

from env import VERIF

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(VERIF, 'spec')


class MachineryError(Exception):
    pass


class TLCResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.out = ''
        self.violated = None
        self.coverage = {}
        self.wall = 0.0


def run_tlc(module, cfg_text, *, env=None, timeout=600, workers=4, extra=(), files=None, heap='6g', coverage=False):
    """Run spec/<module>.tla with the given config text in a scratch directory (removed afterwards)."""
    work = tempfile.mkdtemp(prefix='tlc_')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(work, f))
        with open(os.path.join(work, 'run.cfg'), 'w') as fh:
            fh.write(cfg_text)
        for name, data in (files or {}).items():
            with open(os.path.join(work, name), 'w') as fh:
                if isinstance(data, str):
                    fh.write(data)
                else:
                    json.dump(data, fh)
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-Djava.io.tmpdir=' + work, '-cp', JAR, 'tlc2.TLC',
               '-config', 'run.cfg', '-workers', str(workers), '-metadir', os.path.join(work, 'states'),
               '-noGenerateSpecTE', '-deadlock']
        if coverage:
            cmd += ['-coverage', '1']
        cmd += list(extra) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f'TLC timed out on {module}')
        r = TLCResult()
        r.wall = time.time() - t
        r.out = p.stdout
        r.rc = p.returncode
        m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', r.out)
        if m:
            r.generated = int(m[-1][0].replace(',', ''))
            r.distinct = int(m[-1][1].replace(',', ''))
        else:
            m = re.findall(r'The number of states generated: ([\d,]+)', r.out)   # -simulate
            if m:
                r.generated = r.distinct = int(m[-1].replace(',', ''))
        mv = re.search(r'(?:Invariant|Temporal properties were violated|Action property) ?(\w*) ?(?:is violated|.*)', r.out)
        if p.returncode not in (0,):
            if p.returncode in (12, 13) and mv:
                r.violated = mv.group(0)
            else:
                raise MachineryError(f'TLC rc={p.returncode} on {module}:\n' + r.out[-4000:])
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def verdicts(result):
    """Parse VERDICT lines -> {id: [clauses]}"""
    out = {}
    for m in re.finditer(r'<<\s*"VERDICT",\s*(\d+),\s*\{(.*?)\}\s*>>', result.out, re.S):
        cl = re.findall(r'"([^"]*)"', m.group(2))
        out[int(m.group(1))] = sorted(cl)
    return out


def validate_traces(module, traces, *, timeout=600, workers=4, consts='', chunk=None, heap='6g'):
    """Write `traces` (a list of JSON-able records) for trace module `module`, return (verdict list, TLCResult)."""
    cfg = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n' + consts
    r = run_tlc(module, cfg, files={'traces.json': traces}, timeout=timeout, workers=workers, heap=heap)
    v = verdicts(r)
    missing = [i for i in range(1, len(traces) + 1) if i not in v]
    if missing:
        raise MachineryError(f'{module}: no verdict for traces {missing[:5]}...\n' + r.out[-3000:])
    return [v[i] for i in range(1, len(traces) + 1)], r
