"""Common machinery of the checks: process pool with time limits, TLC runs, verdicts, known findings, evidence."""
import contextlib
import hashlib
import io
import json
import os
import re
import resource
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
from multiprocessing import get_context

import env
import tlc
from tlc import MachineryError

EVID = os.path.join(env.VERIF, 'evidence')
KNOWN = os.path.join(env.VERIF, 'known_findings.jsonl')
CORES = 8


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang('time limit')


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def limited(fn, seconds, *a, **kw):
    """Run fn under a time limit (SIGALRM); stdout of the code under test is swallowed."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        with quiet():
            return fn(*a, **kw)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def error_site(e):
    """Exception -> text naming its type and the innermost frame inside the code under test (no line numbers)."""
    site = ''
    for f in traceback.extract_tb(e.__traceback__):
        if f.filename.startswith(env.REPO + os.sep):
            site = os.path.relpath(f.filename, env.REPO) + ':' + f.name
    return f'{type(e).__name__} in {site or "driver"}'


def _init_worker():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.stderr = open(os.devnull, 'w')


def _call(fn, arg):
    try:
        return fn(arg)
    except Exception as e:       # a driver must not lose a batch: reported as a machinery error by the caller
        return ('DRIVER-ERROR', ''.join(traceback.format_exception(e)))


def pmap(fn, args, timeout=800):
    """Run fn over args in forked worker processes (sampo is imported once, in the parent)."""
    args = list(args)
    if os.environ.get('VERIF_SERIAL'):
        return [fn(a) for a in args]
    with ProcessPoolExecutor(max_workers=CORES, mp_context=get_context('fork'), initializer=_init_worker) as ex:
        futs = [ex.submit(_call, fn, a) for a in args]
        out = []
        for f in futs:
            try:
                r = f.result(timeout=timeout)
            except BrokenProcessPool:
                raise MachineryError('a worker process died')
            if isinstance(r, tuple) and len(r) == 2 and r[0] == 'DRIVER-ERROR':
                raise MachineryError('driver failed:\n' + r[1])
            out.append(r)
    return out


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.models = []
        self.coverage = {}
        self.samples = []
        self.violations = {}          # signature -> [meta, ...]
        self.clauses = {}
        self.notes = []

    # ------------------------------------------------------------------ model checking of the specification itself
    def mc(self, module, cfg, label=None, timeout=700, workers=8, expect_violation=False, files=None, min_states=2, extra=()):
        r = tlc.run_tlc(module, cfg, timeout=timeout, workers=workers, files=files, extra=extra)
        if bool(r.violated) != expect_violation:
            raise MachineryError(f'model {label or module}: ' + ('violated: ' if r.violated else 'not violated: ') +
                                 r.out[-3000:])
        if r.distinct < min_states and not expect_violation:
            raise MachineryError(f'model {label or module}: only {r.distinct} states\n' + r.out[-2000:])
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append(dict(model=label or module, distinct_states=r.distinct, generated=r.generated,
                                wall_s=round(r.wall, 1), violated_as_expected=expect_violation))
        return r

    # ------------------------------------------------------------------ traces recorded from the code
    def check_traces(self, module, items, *, consts='', timeout=700, chunks=None, count=True, key=None):
        """items: list of (trace record, meta dict). Traces are validated by TLC against `module`; failures recorded."""
        if not items:
            return []
        n = len(items)
        k = chunks or max(1, min(4, n // 40))
        size = (n + k - 1) // k
        parts = [items[i:i + size] for i in range(0, n, size)]

        def one(part):
            return tlc.validate_traces(module, [t for t, _ in part], timeout=timeout, consts=consts,
                                       workers=max(1, CORES // len(parts)), heap='4g')

        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(len(parts)) as ex:
            res = list(ex.map(one, parts))
        out = []
        for part, (vs, r) in zip(parts, res):
            self.states += r.distinct
            self.transitions += r.generated
            for (t, m), v in zip(part, vs):
                out.append((t, m, v))
                if count:
                    self.traces += 1
                if v:
                    self.violate(t, m, v)
        return out

    def violate(self, trace, meta, clauses):
        names = sorted({re.sub(r'@.*$', '', c) for c in clauses})
        sig = f'{self.pid}|{meta.get("site", "")}|{",".join(names)}'
        self.violations.setdefault(sig, []).append((trace, meta, list(clauses)))

    def cover(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def sample(self, x):
        if len(self.samples) < 5:
            self.samples.append(x)

    # ------------------------------------------------------------------ verdict
    def finish(self, level='model_checking'):
        os.makedirs(EVID, exist_ok=True)
        known = load_known(self.pid)
        hit, fresh = {}, []
        for sig, lst in sorted(self.violations.items()):
            for k in known:
                if re.fullmatch(k['match'], sig):
                    hit.setdefault(k['match'], [k, 0])[1] += len(lst)
                    break
            else:
                fresh.append((sig, lst))
        ev = dict(property=self.pid, tier='thorough' if not self.quick else 'quick', seed=self.seed, level=level,
                  coverage=dict(self.coverage, states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, models=self.models,
                                known_finding_hits={k: v[1] for k, v in hit.items()},
                                samples=self.samples or ['(no sample)']),
                  wall_s=round(time.time() - self.t0, 1), violations=len(fresh))
        with open(os.path.join(EVID, f'{self.pid}.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        for k, (f, n) in hit.items():
            print(f'KNOWN-FINDING: property={self.pid} {f["what"]} ({n} case(s) in this run)')
        rdir = os.path.join(EVID, 'replay')
        for i, (sig, lst) in enumerate(fresh[:8]):
            os.makedirs(rdir, exist_ok=True)
            trace, meta, clauses = min(lst, key=lambda x: len(json.dumps(x[0], default=str)))
            path = os.path.join(rdir, f'{self.pid}_{hashlib.sha1(sig.encode()).hexdigest()[:10]}.json')
            with open(path, 'w') as fh:
                json.dump(dict(property=self.pid, signature=sig, clauses=clauses, meta=meta, trace=trace), fh,
                          indent=1, default=str)
            print(f'violation: {sig} ({len(lst)} case(s)); failing clauses of the smallest: {clauses[:8]}')
            print(f'VIOLATION property={self.pid} replay={path}')
        print(f'{self.pid} {self.tier}: {self.traces} traces, {self.states} states, '
              f'{len(fresh)} violation signature(s), {time.time() - self.t0:.0f}s')
        return 1 if fresh else 0


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out
