"""P24: estimates, use of resources and goals (spec/Measures.tla)."""
import random

import core

CFG = '''SPECIFICATION Spec
CONSTANTS Mistake = "{m}"
Top = {n}
INVARIANT {inv}
'''
KINDS = ['driver', 'fitter', 'manager', 'handyman', 'welder', 'diver']


def times(rng):
    from sampo.schemas.interval import IntervalGaussian
    from sampo.schemas.requirements import WorkerReq
    from sampo.schemas.resources import Worker, WorkerProductivityMode
    from sampo.schemas.time import Time
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    from sampo.schemas.works import WorkUnit
    stochastic = rng.random() < 0.35
    s = rng.randint(0, 10 ** 6)
    kinds = rng.sample(range(len(KINDS)), rng.randint(0, 4))
    reqs = []
    for k in kinds:
        hi = rng.randint(1, 9)
        reqs.append(dict(k=k, vol=rng.choice([0, 1, 10, 36, 100, rng.randint(1, 400)]), lo=rng.choice([0, 1, 1, rng.randint(1, hi)]), hi=hi))
    crew, sets = [], []
    for q in reqs:
        if rng.random() < 0.08:
            continue
        n = rng.randint(max(1, q['lo']), q['hi'])
        if rng.random() < 0.08:
            n = max(0, q['lo'] - 1)
        crew.append(dict(k=q['k'], n=n, c=rng.randint(0, 1)))
    if rng.random() < 0.3:
        extra = rng.choice([k for k in range(len(KINDS)) if k not in kinds])
        crew.append(dict(k=extra, n=rng.randint(1, 5), c=0))
    rng.shuffle(crew)
    prod = {}
    for k in range(len(KINDS)):
        for c in (None, 0, 1):
            if rng.random() < 0.25:
                mean = rng.choice([100, 50, 125, 200, 25])
                lo = rng.choice([mean, mean // 2, 0]) if stochastic else mean
                hi = rng.choice([mean, mean * 2])
                prod[k, c] = (mean, lo, hi)
                sets.append((k, c))
    rng.shuffle(sets)

    def made():
        e = DefaultWorkEstimator(random.Random(s))
        for k, c in sets:
            mean, lo, hi = prod[k, c]
            e.set_worker_productivity(IntervalGaussian(mean / 100, 0.3, lo / 100, hi / 100), KINDS[k], None if c is None else f'c{c}')
        if stochastic:
            e.set_productivity_mode(WorkerProductivityMode.Stochastic)
        return e
    unit = WorkUnit('w', {'granular_name': 'w', 'measurement': 'u'}, [WorkerReq(KINDS[q['k']], Time(q['vol']), q['lo'], q['hi']) for q in reqs])
    team = [Worker(str(i), KINDS[m['k']], m['n'], f'c{m["c"]}') for i, m in enumerate(crew)]
    r = made().estimate_time(unit, team)
    again = made().estimate_time(unit, team)
    for m in crew:
        mean, lo, hi = prod.get((m['k'], m['c'])) or prod.get((m['k'], None)) or (100, 0, 100)
        m.update(dict(plo=lo, phi=hi) if stochastic else dict(plo=mean, phi=mean))
    return dict(kind='time', reqs=reqs, crew=crew, res=-1 if r.is_inf() else int(r), again=int(r == again), err='')


class Plan:
    """A schedule of random rows; the last one is the end of the project."""

    def __init__(self, rng):
        from sampo.schemas.contractor import Contractor
        from sampo.schemas.resources import Worker
        from sampo.schemas.schedule import Schedule
        from sampo.schemas.scheduled_work import ScheduledWork
        from sampo.schemas.time import Time
        from sampo.schemas.works import WorkUnit
        n = rng.randint(1, 7)
        span = rng.choice([4, 12, 40])
        self.kinds = rng.sample(KINDS, rng.randint(1, 3))
        cost = {k: rng.choice([None, 1000, 250, rng.randint(0, 2000)]) for k in self.kinds}
        t0 = rng.choice([0, 0, 5])
        rows = []
        for _ in range(n):
            s = t0 + rng.randint(0, span)
            ks = rng.sample(range(len(self.kinds)), rng.randint(0, len(self.kinds)))
            rows.append(dict(s=s, f=s + rng.choice([0, 1, 2, 5, rng.randint(0, 10)]),
                             crew=[dict(k=self.kinds[k], n=rng.randint(0, 4), c=1000 if cost[self.kinds[k]] is None else cost[self.kinds[k]]) for k in ks]))
        end = max(r['f'] for r in rows)
        rows.append(dict(s=end, f=end, crew=[]))
        self.rows = rows
        works = []
        for i, r in enumerate(rows):
            team = [Worker(str(j), m['k'], m['n'], 'c', cost_one_unit=None if cost[m['k']] is None else m['c'] / 100) for j, m in enumerate(r['crew'])]
            works.append(ScheduledWork(WorkUnit(f'w{i}', {'granular_name': 'w', 'measurement': 'u'}), (Time(r['s']), Time(r['f'])), team, Contractor('c', 'C', {}, {})))
        self.costs = [round(w.cost * 100) for w in works]
        if rng.random() < 0.6:
            order = list(range(n))
            rng.shuffle(order)
            works = [works[i] for i in order] + works[n:]
        self.schedule = Schedule.from_scheduled_works(works)


def use(rng):
    import sampo.scheduler.genetic.operators as op
    from sampo.schemas.time import Time
    from sampo.utilities.resource_usage import get_resources_peak_usage, get_total_resources_usage, resources_costs_sum, resources_peaks_sum
    p = Plan(rng)
    everything = rng.random() < 0.4
    flt = None if everything else rng.sample(KINDS, rng.randint(0, 4))
    it = lambda: None if flt is None else rng.choice([lambda: list(flt), lambda: set(flt), lambda: tuple(flt), lambda: iter(list(flt))])()
    deadline = rng.randint(1, 60)
    s = p.schedule
    goals = [op.TimeFitness(), op.SumOfResourcesPeaksFitness(it()), op.SumOfResourcesFitness(it()), op.TimeWithResourcesFitness(it()), op.DeadlineResourcesFitness(Time(deadline), it()),
             op.DeadlineCostFitness(Time(deadline), it()), None, op.TimeAndResourcesFitness(it())]
    got = []
    for g in goals:
        if g is None:
            got.append([resources_costs_sum(s, it())])
            continue
        v = g.evaluate('x', lambda x: s)
        if rng.random() < 0.3:
            v = g.evaluate('x', lambda x: s)
        got.append(list(v))
    flat = [x for v in got for x in v]
    none = [x for g in goals if g is not None for x in g.evaluate('x', lambda x: None)]
    peaks = get_resources_peak_usage(s, it())
    usage = get_total_resources_usage(s, it())
    points = sorted({r['s'] for r in p.rows} | {r['f'] for r in p.rows})
    us = [dict(k=k, t=t, n=int(x)) for k, v in usage.items() for t, x in zip(points, v)] + [dict(k=k, t=0, n=-1) for k, v in usage.items() if len(v) != len(points)]
    return dict(kind='use', rows=p.rows, all=int(everything), filter=flt or [], kinds=KINDS, time=int(s.execution_time), deadline=deadline,
                peaks=[dict(k=k, n=int(v)) for k, v in peaks.items()], usage=us,
                fit=[round(float(x) * 100) if i not in (5, 6) else round(float(x) * 100) for i, x in enumerate(flat)], none=[int(x) for x in none], costs=p.costs, err='')


def batch(arg):
    seed, count = arg
    out = []
    for i in range(count):
        sd = f'{seed} {i}'
        rng = random.Random(sd)
        fn = rng.choice([times, use])
        site = ''
        try:
            tr = core.limited(fn, 30, rng)
        except Exception as e:
            site = core.error_site(e)
            tr = dict(kind=fn.__name__, err=site)
        out.append((tr, dict(site=site or fn.__name__, seed=sd)))
    return out


def check(run):
    q = run.quick
    ok = 'InvFaster\nINVARIANT InvAlone\nINVARIANT InvPeak\nINVARIANT InvPeakSame\nINVARIANT InvTotal\nINVARIANT InvSplit'
    run.mc('MeasuresMC', CFG.format(m='', n=2 if q else 3, inv=ok), 'measures')
    for m, inv in (('talk', 'InvFaster'), ('closed', 'InvPeak'), ('events', 'InvPeak')):
        run.mc('MeasuresMC', CFG.format(m=m, n=2, inv=inv), f'measures, {m}', expect_violation=True)
    k, per = (24, 60) if q else (64, 200)
    items = [x for b in core.pmap(batch, [(f'{run.seed} measures {i}', per) for i in range(k)]) for x in b]
    for tr, meta in items:
        run.cover(tr['kind'])
    run.sample(items[0][0])
    run.check_traces('MeasuresTrace', items)
