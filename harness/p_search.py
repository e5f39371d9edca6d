"""P25: searches for crews, contractors and deadlines (spec/Search.tla)."""
import random

import core
import gen
import sched

CFG = '''SPECIFICATION Spec
CONSTANTS Mistake = "{m}"
Vals = {v}
{inv}
'''
DCFG = CFG.replace('Vals', 'Size = {n}\nVals')
NAMES = ['known', 'once', 'predplaced', 'precedence', 'crewexists', 'capacity', 'chainhold', 't0', 'span', 'complete', 'startatt0', 'finishlast',
         'exectime', 'service', 'onecontractor', 'crewlimits', 'chaincrew', 'chaingap', 'chainprec', 'duration', 'chaintime', 'speccontractor', 'speccrew', 'spectime']


def unimodal(rng, n):
    m = rng.randrange(n)
    f = [0] * n
    f[m] = rng.randint(0, 20)
    for i in range(m - 1, -1, -1):
        f[i] = f[i + 1] + rng.randint(1, 9)
    for i in range(m + 1, n):
        f[i] = f[i - 1] + rng.randint(1, 9)
    return f


def line(rng):
    from sampo.schemas.time import Time
    from sampo.utilities.base_opt import dichotomy_int, dichotomy_float
    n = rng.choice([1, 2, 3, 4, 7, 20, 60])
    f = unimodal(rng, n)
    lo = rng.randint(0, 9)
    if rng.random() < 0.2:
        g = [3 * abs(i - f.index(min(f))) for i in range(n)]
        x = dichotomy_float(lo, lo + n - 1, lambda x: abs(x - lo - g.index(0))) if n > 1 else lo
        return dict(kind='line', f=g, x=round(x) - lo + 1 if abs(x - round(x)) < 1e-3 else 0, err='')
    x = dichotomy_int(lo, lo + n - 1, lambda x: Time(f[x - lo]) if lo <= x < lo + n else Time(10 ** 6))
    return dict(kind='line', f=f, x=int(x) - lo + 1, err='')


def team(rng):
    import numpy as np
    from sampo.scheduler.resource import AverageReqResourceOptimizer, CoordinateDescentResourceOptimizer, FullScanResourceOptimizer, IdentityResourceOptimizer
    from sampo.schemas.resources import Worker
    from sampo.schemas.time import Time
    from sampo.utilities.base_opt import dichotomy_int
    n = rng.randint(1, 4)
    down = [rng.randint(0, 5) for _ in range(n)]
    up = [d + rng.choice([0, 1, 2, 5, 12]) for d in down]
    masked = rng.random() < 0.5
    mask = [rng.randint(0, 1) if masked else 1 for _ in range(n)]
    before = [rng.randint(0, 9) for _ in range(n)]
    fs = [unimodal(rng, u - d + 1) for d, u in zip(down, up)]
    method = rng.choice(['average', 'descent', 'scan', 'identity'])
    num, den = rng.choice([(1, 1), (2, 1), (3, 1), (10000, 1), (3, 2), (5, 4)])
    opt = dict(average=lambda: AverageReqResourceOptimizer(num / den), descent=lambda: CoordinateDescentResourceOptimizer(dichotomy_int),
               scan=FullScanResourceOptimizer, identity=IdentityResourceOptimizer)[method]()
    crew = [Worker(str(i), f'k{i}', c) for i, c in enumerate(before)]
    d, u = np.array(down), np.array(up)
    outside = []

    def finish(ws):
        total = 0
        for i, w in enumerate(ws):
            if mask[i] and not down[i] <= w.count <= up[i] or not mask[i] and w.count != before[i]:
                outside.append(i)
            total += fs[i][min(max(w.count, down[i]), up[i]) - down[i]] if mask[i] else 0
        return Time(total)
    opt.optimize_resources({}, crew, np.array(mask, dtype=bool) if masked else None, d, u, finish)
    if list(d) != down or list(u) != up:
        raise AssertionError('borders were changed')
    if outside:
        return dict(kind='team', down=[1], up=[1], mask=[1], before=[1], after=[9], fs=[[1]], method=method, num=1, den=1, err='')
    return dict(kind='team', down=down, up=up, mask=mask, before=before, after=[int(w.count) for w in crew], fs=fs, method=method, num=num, den=den, err='')


def contractors(rng):
    from sampo.scheduler.utils.multi_contractor import run_contractor_search
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.exceptions import NoSufficientContractorError
    from sampo.schemas.resources import Worker
    from sampo.schemas.schedule_spec import WorkSpec
    from sampo.schemas.time import Time
    n = rng.randint(1, 5)
    allowed = sorted(rng.sample(range(n), rng.randint(1, n))) if rng.random() < 0.4 else []
    spec = WorkSpec()
    if allowed:
        spec.contractors = {f'c{i}' for i in allowed}
    fin = [rng.choice([-1, 5, 5, 6, 9]) for _ in range(n)]
    sizes = [[rng.randint(0, 3) for _ in range(rng.randint(1, 3))] for _ in range(n)]
    cs = [Contractor(f'c{i}', f'C{i}', {f'k{j}': Worker(str(j), f'k{j}', x, f'c{i}') for j, x in enumerate(sizes[i])}, {}) for i in range(n)]
    runs = []

    def runner(c):
        i = int(c.id[1:])
        runs.append(i)
        return (Time(0), Time.inf(), []) if fin[i] < 0 else (Time(fin[i] - 1), Time(fin[i]), [Worker('x', 'k0', i, c.id)])
    order = list(cs)
    rng.shuffle(order)
    try:
        s, f, c, crew = run_contractor_search(order, spec, runner)
        i = int(c.id[1:])
        chosen, same = i + 1, int((int(s), int(f)) == (fin[i] - 1, fin[i]) and [w.count for w in crew] == [i] and runs[-1] == i)
    except NoSufficientContractorError:
        chosen, same = 0, 0
    return dict(kind='contractors', cs=[dict(ok=int(fin[i] >= 0 and (not allowed or i in allowed)), f=fin[i], size=sum(sizes[i])) for i in range(n)], chosen=chosen, same=same, err='')


def spec_of(spec, wg):
    return [(n.id, spec.get_work_spec(n.id).is_independent, sorted(spec.get_work_spec(n.id).contractors), sorted(spec.get_work_spec(n.id).assigned_workers.items()),
             str(spec.get_work_spec(n.id).assigned_time)) for n in wg.nodes]


def deadline(rng):
    from sampo.scheduler import HEFTBetweenScheduler, HEFTScheduler
    from sampo.scheduler.resource import AverageReqResourceOptimizer
    from sampo.scheduler.resources_in_time.average_binary_search import AverageBinarySearchResourceOptimizingScheduler
    from sampo.schemas.time import Time
    inst = gen.topo_instance(rng, n=(1, 7), contractors=(1, 2), kinds=(1, 3), spec=rng.choice([0, 0, 0.3]), partial=0.2, chains=rng.choice([0, 0.3]), prios=0.2,
                             edge_p=rng.choice([0.15, 0.4]), est=rng.choice(['linear', 'default']), maxcap=rng.choice([4, 8]))
    inst['t0'] = rng.choice([0, 0, 3])
    est = gen.estimator(inst)
    cls = rng.choice([HEFTScheduler, HEFTBetweenScheduler])

    def make(k):
        kw = dict(resource_optimizer=AverageReqResourceOptimizer(k))
        if est is not None:
            kw['work_estimator'] = est
        return cls(**kw)

    def plain(k, spec=None):
        wg, cs, sp = gen.build(inst)
        return make(k).schedule_with_cache(wg, cs, spec if spec is not None else sp, assigned_parent_time=Time(inst['t0']))[0]
    least, full = int(plain(10000)[0].execution_time), int(plain(1)[0].execution_time)
    dl = rng.choice([least, full, least + 1, full - 1, max(1, (least + full) // 2), least + rng.randint(0, 30), max(1, full + rng.randint(-3, 3)), sum(1 for _ in inst['works']) * 50])
    dl = max(1, dl)
    wg, cs, sp = gen.build(inst)
    before = spec_of(sp, wg)
    s = AverageBinarySearchResourceOptimizingScheduler(make(2))
    (schedule, start, timeline, order), out = s.schedule_with_cache(wg, cs, Time(dl), sp, assigned_parent_time=Time(inst['t0']))
    kept = int(before == spec_of(sp, wg))
    again = s._base_scheduler.schedule_with_cache(wg, cs, out, assigned_parent_time=Time(inst['t0']))[0][0]
    rows = sched.project_schedule(schedule, inst)
    same = int(rows == sched.project_schedule(again, inst))
    tr = dict(kind='deadline', deadline=dl, least=least, full=full, res=int(schedule.execution_time), kept=kept, again=same, err='')
    return tr, dict(inst=inst, names=NAMES, rows=rows, exec=sched.val(schedule.execution_time), err='')


def batch(arg):
    seed, count, kinds = arg
    out = []
    for i in range(count):
        sd = f'{seed} {i}'
        rng = random.Random(sd)
        fn = rng.choice(kinds)
        site, b = '', None
        try:
            tr = core.limited(fn, 60, rng)
            if fn is deadline:
                tr, b = tr
        except Exception as e:
            site = core.error_site(e)
            tr = dict(kind=fn.__name__, err=site)
        out.append((tr, b, dict(site=site or fn.__name__, seed=sd)))
    return out


def check(run):
    q = run.quick
    run.mc('SearchMC', CFG.format(m='', v=7 if q else 9, inv='INVARIANT InvFound\nINVARIANT InvKept\nPROPERTY Ends'), 'dividing an interval')
    for m in ('left', 'wide', 'cut'):
        run.mc('SearchMC', CFG.format(m=m, v=5, inv='INVARIANT InvFound'), f'dividing, {m}', expect_violation=True)
    run.mc('DeadlineMC', DCFG.format(m='', n=7, v=5 if q else 7, inv='INVARIANT InvKept\nINVARIANT InvThrifty'), 'deadline')
    for m in ('full', 'side', 'last'):
        run.mc('DeadlineMC', DCFG.format(m=m, n=5, v=3, inv='INVARIANT InvKept\nINVARIANT InvThrifty'), f'deadline, {m}', expect_violation=True)
    k, per = (24, 60) if q else (64, 200)
    jobs = [(f'{run.seed} search {i}', per, [line, team, contractors]) for i in range(k)] + [(f'{run.seed} deadline {i}', 5 if q else 40, [deadline]) for i in range(40)]
    items = [x for b in core.pmap(batch, jobs, timeout=3000) for x in b]
    for tr, b, meta in items:
        run.cover(tr['kind'])
        if tr['kind'] == 'deadline' and not tr['err']:
            run.cover('deadline ' + ('cannot be kept' if min(tr['least'], tr['full']) > tr['deadline'] else 'with least crews' if tr['least'] <= tr['deadline'] else 'with more people'))
    run.sample(items[0][0])
    run.check_traces('SearchTrace', [(a, m) for a, _, m in items])
    run.check_traces('SchedTrace', [(b, m) for _, b, m in items if b])
