"""P12: the result of the genetic search (spec/Evolve.tla)."""
import random

import core
import gen
import sched

CFG = '''SPECIFICATION Spec
CONSTANTS D = 1
 N = 2
 MaxGen = {g}
 Top = {top}
 UseDeadline = {dl}
 Mistake = "{m}"
INVARIANTS InvBest InvDeadline InvMember
'''
FITNESS = ['time', 'peaks', 'time+peaks', 'dl_res', 'dl_cost', 'two']
NAMES = ['known', 'once', 't0', 'precedence', 'capacity', 'chainhold', 'crewexists', 'crewlimits', 'onecontractor', 'speccontractor',
         'speccrew', 'complete', 'chaincrew']


def fitness(name, deadline):
    from sampo.scheduler.genetic import operators as op
    from sampo.schemas.time import Time
    return {'time': lambda: op.TimeFitness(), 'peaks': lambda: op.SumOfResourcesPeaksFitness(),
            'time+peaks': lambda: op.TimeWithResourcesFitness(), 'dl_res': lambda: op.DeadlineResourcesFitness(Time(deadline)),
            'dl_cost': lambda: op.DeadlineCostFitness(Time(deadline)), 'two': lambda: op.TimeAndResourcesFitness()}[name]()


class Recorder:
    """A computational backend that works like the default one and writes down what was evaluated."""
    def __new__(cls, ids):
        from sampo.backend.default import DefaultComputationalBackend

        class R(DefaultComputationalBackend):
            def __init__(self):
                super().__init__()
                self.calls = []

            def compute_chromosomes(self, f, chromosomes):
                keys = [ids.setdefault(key(c), len(ids) + 1) for c in chromosomes]
                vals = super().compute_chromosomes(f, chromosomes)
                self.calls.append((f, keys, [tuple(float(x) for x in v) for v in vals]))
                return vals
        return R()


def key(c):
    indep = sorted(k for k, v in c[3]._work2spec.items() if v.is_independent)
    return (c[0].tobytes(), c[1].tobytes(), c[2].tobytes(), c[4].tobytes(), tuple(indep), repr(sorted(
        (k, sorted(v.contractors)) for k, v in c[3]._work2spec.items() if v.contractors)))


def run_case(rng):
    from sampo.base import SAMPO
    from sampo.scheduler.genetic.base import GeneticScheduler
    from sampo.scheduler.genetic.schedule_builder import build_schedules_with_cache
    from sampo.api.genetic_api import ScheduleGenerationScheme as SGS
    from sampo.schemas.schedule import Schedule
    from sampo.schemas.time import Time
    mode = rng.choice(['plain', 'plain', 'deadline', 'deadline', 'pareto', 'resources', 'lft', 'upgrade'])
    inst = gen.topo_instance(rng, n=(3, 9), contractors=(1, 3), kinds=(1, 3), chains=rng.choice([0, 0.3]), prios=0.3,
                             spec=rng.choice([0, 0.6]), partial=0.3, edge_p=rng.choice([0.15, 0.3]), maxcap=8)
    inst['t0'] = 0
    fname = {'plain': rng.choice(FITNESS[:3]), 'deadline': rng.choice(['peaks', 'dl_res', 'dl_cost', 'two']), 'pareto': 'two',
             'resources': rng.choice(['peaks', 'dl_res', 'dl_cost']), 'lft': 'time', 'upgrade': rng.choice(FITNESS[:3])}[mode]
    wg, cs, spec = gen.build(inst)
    heur = sched.make_scheduler('heft', 0).schedule(wg, cs, spec)[0].execution_time.value
    D = max(1, int(heur * rng.choice([0.3, 0.8, 1, 1.2, 1.6, 3])))
    n, G = rng.randint(4, 12), rng.randint(0, 5)
    seed = rng.randint(0, 10 ** 6)
    sgs = rng.choice([SGS.Parallel, SGS.Serial])
    plateau = rng.choice([None, None, 1, 2])
    weights = (-1, -1) if fname == 'two' else (-1,)
    ids = {}

    def once():
        wg, cs, spec = gen.build(inst)
        rec = Recorder(ids)
        SAMPO.backend = rec
        s = GeneticScheduler(number_of_generation=G, size_of_population=n, mutate_order=0.4, mutate_resources=0.4,
                             mutate_zones=0.2, seed=seed, fitness_constructor=fitness(fname, D), fitness_weights=weights, sgs_type=sgs,
                             optimize_resources=mode == 'resources', is_multiobjective=mode == 'pareto',
                             only_lft_initialization=mode == 'lft')
        if plateau:
            s.set_max_plateau_steps(plateau)
        if mode == 'deadline':
            s.set_deadline(Time(D))
        if mode == 'upgrade':
            first = GeneticScheduler.generate_first_population(wg, cs, spec=spec, work_estimator=s.work_estimator)
            rnd = random.Random(seed)
            _, p = build_schedules_with_cache(wg, cs, n, 1, 0.3, 0.3, 0.2, first, rnd, spec, fitness_object=fitness(fname, D))
            rec.calls.clear()
            p2 = s.upgrade_pop(wg, cs, p, spec)
            tb = rec._toolbox
            res = [Schedule.from_scheduled_works(list(tb.chromosome_to_schedule(x)[0].values()), wg)
                   for x in sorted(p2, key=lambda x: x.fitness, reverse=True)[:1]]
            pop = [tuple(-w for w in x.fitness.wvalues) for x in p2]
        else:
            res = s.schedule(wg, cs, spec)
            pop = None
        goal = fitness(fname, D)
        out = [(q.execution_time.value, tuple(float(v) for v in goal.evaluate(None, lambda _: q)), sched.project_schedule(q, inst))
               for q in res]
        return rec.calls, out, pop

    calls, res, pop = once()
    calls2, res2, pop2 = once()
    strip = lambda cc: [(type(f).__name__, k, v) for f, k, v in cc]
    twin = strip(calls) == strip(calls2) and res == res2 and pop == pop2
    tname = 'TimeFitness'
    # values -> ranks (per component, over the goal values of this run); times stay as they are
    goals = [v for f, _, vs in calls if not (mode == 'deadline' and type(f).__name__ == tname) for v in vs] + [r[1] for r in res] + (pop or [])
    ranks = [{x: i for i, x in enumerate(sorted({g[c] for g in goals}))} for c in range(len(weights))]
    rank = lambda v: [ranks[c][x] for c, x in enumerate(v)]
    ev = []
    for f, ks, vs in calls:
        if mode == 'deadline' and type(f).__name__ == tname:
            ev.append(dict(f='time', inds=[dict(id=k, val=[min(int(v[0]), sched.INF)]) for k, v in zip(ks, vs)]))
        else:
            ev.append(dict(f='goal', inds=[dict(id=k, val=rank(v)) for k, v in zip(ks, vs)]))
    return dict(dl=int(mode == 'deadline'), D=D, n=n, G=G, ev=ev, res=[dict(time=int(t), val=rank(v)) for t, v, _ in res],
                single=int(len(weights) == 1), multi=int(mode == 'pareto'), pops=int(pop is not None), pop=[rank(v) for v in pop or []],
                twin=int(twin), err=''), [r[2] for r in res], [int(r[0]) for r in res], inst, mode


def batch(arg):
    seed, count = arg
    items, scheds = [], []
    for i in range(count):
        rng = random.Random(f'{seed} {i}')
        meta = dict(site='genetic', seed=f'{seed} {i}')
        try:
            tr, rows, ex, inst, mode = core.limited(run_case, 120, rng)
            meta['site'] = 'genetic ' + mode
            items.append((tr, meta))
            for r, e in zip(rows[:1], ex):
                scheds.append((dict(inst=inst, names=NAMES, rows=r, exec=e, err=''), dict(meta, site=meta['site'] + ' schedule')))
        except Exception as e:
            items.append((dict(dl=0, D=0, n=1, G=0, ev=[], res=[], single=1, multi=0, pops=0, pop=[], twin=1, err=core.error_site(e)), meta))
    return items, scheds


def check(run):
    q = run.quick
    top, g = (2, 2)
    for dl in ('TRUE', 'FALSE'):
        run.mc('EvolveMC', CFG.format(g=g if q else 3, top=top, dl=dl, m='none'), label=f'EvolveMC deadline={dl}', timeout=3000)
    for m, dl in (('comma', 'FALSE'), ('latekept', 'TRUE'), ('hofkept', 'TRUE'), ('loose', 'TRUE')):
        run.mc('EvolveMC', CFG.format(g=1, top=top, dl=dl, m=m), label=f'EvolveMC mistake {m}', expect_violation=True)
    rng = random.Random(run.seed * 1000 + 12)
    n = 160 if q else 3200
    k = 32 if q else 64
    items, scheds = [], []
    for a, b in core.pmap(batch, [(rng.randint(0, 10 ** 9), n // k) for _ in range(k)], timeout=3000):
        items += a
        scheds += b
    for t, m in items:
        run.cover(m['site'])
        run.cover('evaluated', sum(len(e['inds']) for e in t['ev']))
    run.sample(items[0][0]['res'])
    for i in range(0, len(items), 2000):
        run.check_traces('EvolveTrace', items[i:i + 2000])
    for i in range(0, len(scheds), 2000):
        run.check_traces('SchedTrace', scheds[i:i + 2000])
