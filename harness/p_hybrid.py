"""P28: population schedulers, their cycles and computational backends (spec/Hybrid.tla)."""
import json
import random

import core
import gen
import sched
from p_genome import chrom, describe, rows_of
from p_evolve import NAMES, fitness, key

CFG = '''SPECIFICATION Spec
CONSTANTS N = {n}
 K = {k}
 Top = {top}
 Size = {size}
 Elitist = {el}
 Mistake = "{m}"
INVARIANTS {inv}
'''


class Book:
    """Individuals by number, with what they are worth and stand for."""

    def __init__(self, inst, goal, sgs):
        from sampo.scheduler.genetic.schedule_builder import create_toolbox
        from sampo.scheduler.genetic.utils import prepare_optimized_data_structures
        from sampo.schemas.landscape import LandscapeConfiguration
        from sampo.schemas.time import Time
        self.inst, self.goal = inst, goal
        self.wg, self.cs, self.spec = gen.build(inst)
        s = prepare_optimized_data_structures(self.wg, self.cs, LandscapeConfiguration(), self.spec)
        self.names = s[4]
        self.G, self.idx = describe(inst, self.wg, s[1], 0, 3)
        self.tb = create_toolbox(self.wg, self.cs, selection_size=6, rand=random.Random(1), spec=self.spec, sgs_type=sgs,
                                 assigned_parent_time=Time(inst['t0']), verbose=False)
        self.ids, self.inds, self.vals, self.dec, self.damaged = {}, [], [], [], []

    def add(self, c, damaged=0):
        from sampo.schemas.schedule import Schedule
        k = key(c)
        if k not in self.ids:
            self.ids[k] = len(self.ids) + 1
            self.inds.append(chrom(c, self.inst['kinds'], self.names))
            self.damaged.append(damaged)
            rows = []

            def stands_for(c):
                if not self.tb.validate(c):
                    return None
                q = Schedule.from_scheduled_works(self.tb.chromosome_to_schedule(c)[0].values(), self.wg)
                rows.extend(sched.project_schedule(q, self.inst))
                return q
            self.vals.append(tuple(float(x) for x in self.goal.evaluate(c, stands_for)))
            self.dec.append(json.dumps(sorted(rows, key=lambda r: r['w'])))
        return self.ids[k]

    def trace(self, extra=(), **kw):
        order = {v: i for i, v in enumerate(sorted(set(self.vals) | set(extra)))}
        self.rank = lambda v: order[v]
        inf = float('inf')
        tr = dict(G=self.G, K=1, n=1, inds=self.inds, vals=[order[v] for v in self.vals], inf=[int(v[0] >= 1e9 or v[0] == inf) for v in self.vals],
                  damaged=self.damaged, dec=self.dec, calls=[], out=[], final=[], back=[], heur=[], pops=[], size=0, err='')
        tr.update(kw)
        return tr


def project(rng):
    inst = gen.topo_instance(rng, n=(3, 8), contractors=(1, 3), kinds=(1, 3), chains=rng.choice([0, 0.3]), prios=0.3,
                             spec=rng.choice([0, 0.6]), partial=0.3, edge_p=rng.choice([0.15, 0.3]), maxcap=8)
    return inst


def cycle_case(rng):
    from sampo.base import SAMPO
    from sampo.api.genetic_api import ScheduleGenerationScheme as SGS
    from sampo.backend.default import DefaultComputationalBackend
    from sampo.hybrid.cycle import CycleHybridScheduler
    from sampo.hybrid.population import PopulationScheduler, GeneticPopulationScheduler, HeuristicPopulationScheduler
    from sampo.scheduler.genetic.base import GeneticScheduler
    from sampo.schemas.time import Time
    inst = project(rng)
    fname = rng.choice(['time', 'time', 'peaks', 'time+peaks', 'two'])
    goal = fitness(fname, 0)
    whole = rng.random() < 0.7          # the schedule is asked for, or the individual
    sgs = rng.choice([SGS.Parallel, SGS.Serial]) if whole else SGS.Parallel
    book = Book(inst, goal, sgs)
    wg, cs, spec = gen.build(inst)
    SAMPO.backend = DefaultComputationalBackend()
    if rng.random() < 0.5:             # the backend still remembers another project
        other = gen.build(project(rng))
        sched.make_scheduler('gen_par', 5, number_of_generation=1, size_of_population=4).schedule(*other)
    K = rng.choice([1, 1, 2, 3])
    calls, heur = [], []
    names = ['heft', 'between', 'topo', 'rtopo', 'lft', 'rlft', 'gen_par']

    class Watched(PopulationScheduler):
        def __init__(self, who, inner):
            self.who, self.inner, self.times = who, inner, 0

        def schedule(self, initial_population, *a, **kw):
            given = [book.add(c) for c in initial_population]
            made = self.inner.schedule(initial_population, *a, **kw)
            calls.append(dict(who=self.who, given=given, made=[book.add(c) for c in made]))
            if len(calls) > 60:
                raise RuntimeError('the cycle does not end')
            return made

    class Mixer(PopulationScheduler):
        """Changes the population without regard to its values, a limited number of times."""

        def __init__(self, seed):
            self.rng, self.left = random.Random(seed), 4

        def schedule(self, pop, *a, **kw):
            tb = book.tb
            self.left -= 1
            if self.left < 0:
                return pop
            pop = [tb.copy_individual(c) for c in self.rng.sample(pop, self.rng.randint(1, len(pop)))]
            for c in pop:
                if self.rng.random() < 0.5:
                    tb.mutate_order(c)
            return pop

    class Scheduler_:
        """A heuristic whose results are written down."""

        def __init__(self, name):
            self.s = sched.make_scheduler(name, rng.randint(0, 10 ** 6))
            self.last = None

        def schedule_with_cache(self, *a, **kw):
            r = self.s.schedule_with_cache(*a, **kw)
            self.last = [(q, order) for q, _, _, order in r]
            return r

        def schedule(self, *a, **kw):
            r = self.s.schedule(*a, **kw)
            self.last = [(q, None) for q in r]
            return r

    class Heuristic(HeuristicPopulationScheduler):
        def __init__(self, ss):
            self.ss = ss
            super().__init__(ss)

        def schedule(self, *a, **kw):
            made = super().schedule(*a, **kw)
            made_of = [x for s in self.ss for x in s.last]
            for c, (q, order) in zip(made, made_of):
                num = {w['id']: i + 1 for i, w in enumerate(inst['works'])}
                i = book.add(c)
                heur.append(dict(rows=rows_of(list(q.works), inst, book.idx, gen.heads(inst)), id=i,
                                 order=[book.idx[num[n.id]] for n in order] if order else book.inds[i - 1]['order']))
            if len(made) != len(made_of):
                heur.append(dict(rows=[], id=1, order=[]))
            return made

    def heuristics(k):
        return Heuristic([Scheduler_(x) for x in rng.sample(names, k)])

    def genetic():
        return GeneticPopulationScheduler(GeneticScheduler(number_of_generation=rng.randint(0, 2), size_of_population=rng.randint(2, 6),
                                                           mutate_order=0.4, mutate_resources=0.4, seed=rng.randint(0, 10 ** 6),
                                                           fitness_constructor=fitness(fname, 0),
                                                           fitness_weights=(-1, -1) if fname == 'two' else (-1,),
                                                           sgs_type=rng.choice([sgs, sgs, SGS.Parallel, SGS.Serial])))
    n = rng.choice([1, 1, 2, 3])
    start = Watched(0, heuristics(rng.randint(1, 4)))
    cyc = [Watched(i + 1, rng.choice([genetic, genetic, lambda: Mixer(rng.randint(0, 10 ** 6)), lambda: heuristics(rng.randint(1, 2))])())
           for i in range(n)]
    h = CycleHybridScheduler(start, cyc, fitness=goal, max_plateau_size=K)
    t0 = Time(inst['t0'])
    out, final, rows, ex = [], [], [], 0
    if whole:
        q = h.schedule(wg, cs, spec, assigned_parent_time=t0, sgs_type=sgs)
        rows, ex = sched.project_schedule(q, inst), int(q.execution_time.value)
        final = [json.dumps(sorted(rows, key=lambda r: r['w']))]
    else:
        out = [book.add(h.run(wg, cs, spec, assigned_parent_time=t0))]
    return book.trace(K=K, n=n, calls=calls, out=out, final=final, heur=heur), rows, ex, inst


def backend_case(rng):
    from sampo.api.genetic_api import ScheduleGenerationScheme as SGS
    from sampo.backend.default import DefaultComputationalBackend
    from sampo.backend.multiproc import MultiprocessingComputationalBackend
    from sampo.scheduler.genetic.base import GeneticScheduler
    from sampo.schemas.time import Time
    inst = project(rng)
    fname = rng.choice(['time', 'peaks', 'time+peaks', 'two'])
    goal = fitness(fname, 0)
    sgs = rng.choice([SGS.Parallel, SGS.Serial])
    book = Book(inst, goal, sgs)
    seed, size = rng.randint(0, 10 ** 6), rng.choice([2, 5, 9, 14, 24])
    weights = rng.choice([None, None, [1, 2, 1, 3, 1, 1, 2]])
    procs = rng.choice([[1, 1], [1, 2], [1, 3], [0, 0]])            # 0: the backend without processes
    wg, cs, spec = gen.build(inst)
    init = GeneticScheduler.generate_first_population(wg, cs, spec=spec, work_estimator=book_estimator(), weights=weights)
    pops, back, todo = [], [], []
    for turn, p in enumerate(procs):
        b = MultiprocessingComputationalBackend(p) if p else DefaultComputationalBackend()
        try:
            b.cache_scheduler_info(wg, cs, spec=spec, rand=random.Random(seed), work_estimator=book_estimator())
            b.cache_genetic_info(size, 0.1, 0.1, 0.1, None, weights, init, Time(inst['t0']), (-1,), sgs)
            pop = b.generate_first_population(size)
            pops.append([book.add(c) for c in pop])
            if turn == 0:
                todo = list(pop)
                for c in rng.sample(todo, min(3, len(todo))):
                    x = book.tb.copy_individual(c)
                    if len(x[0]) > 2 and rng.random() < 0.5:
                        i, j = rng.sample(range(len(x[0])), 2)
                        x[0][[i, j]] = x[0][[j, i]]
                    else:
                        x[2][rng.randrange(x[2].shape[0]), rng.randrange(x[2].shape[1])] += 1
                    todo.append(x)
                rng.shuffle(todo)
            ids = [book.add(c, 1) for c in todo]
            vals = b.compute_chromosomes(goal, todo)
            back.append((f'{p}', ids, [tuple(float(x) for x in v) for v in vals]))
        finally:
            if getattr(b, '_pool', None) is not None:
                b._pool.terminate()
    tr = book.trace(extra=[v for _, _, vs in back for v in vs], pops=pops, size=size)
    tr['back'] = [dict(who='default' if w == '0' else 'processes', ids=i, vals=[book.rank(v) for v in vs]) for w, i, vs in back]
    return tr, [], 0, inst


def book_estimator():
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    return DefaultWorkEstimator()


def batch(arg):
    seed, count = arg
    items, scheds = [], []
    for i in range(count):
        rng = random.Random(f'{seed} {i}')
        case = cycle_case if rng.random() < 0.65 else backend_case
        meta = dict(site='cycle' if case is cycle_case else 'backend', seed=f'{seed} {i}')
        try:
            tr, rows, ex, inst = core.limited(case, 120, rng)
            items.append((tr, meta))
            if rows:
                scheds.append((dict(inst=inst, names=NAMES, rows=rows, exec=ex, err=''), dict(meta, site='cycle schedule')))
        except Exception as e:
            items.append((dict(calls=[], err=core.error_site(e)), meta))
    return items, scheds


def check(run):
    q = run.quick
    for el in ('TRUE', 'FALSE'):
        for n, k in ((1, 1), (2, 2)) if q else ((1, 1), (2, 2), (2, 3), (3, 2)):
            run.mc('HybridMC', CFG.format(n=n, k=k, top=2, size=2, el=el, m='none', inv='InvBest InvNotWorse InvEnd')
                   + ('PROPERTY Ends\n' if el == 'TRUE' else ''), label=f'HybridMC {n} schedulers, {k} looks, elitist {el}', timeout=3000)
    for m, inv in (('first', 'InvBest'), ('worst', 'InvBest'), ('start', 'InvNotWorse'), ('early', 'InvEnd')):
        run.mc('HybridMC', CFG.format(n=2, k=2, top=1, size=2, el='TRUE', m=m, inv=inv), label=f'HybridMC mistake {m}', expect_violation=True)
    rng = random.Random(run.seed * 1000 + 28)
    n, k = (224, 32) if q else (6400, 128)
    items, scheds = [], []
    for a, b in core.pmap(batch, [(rng.randint(0, 10 ** 9), n // k) for _ in range(k)], timeout=3000):
        items += a
        scheds += b
    for t, m in items:
        run.cover(m['site'])
        run.cover('calls of population schedulers', len(t['calls']))
    run.sample(items[0][0]['calls'])
    for i in range(0, len(items), 2000):
        run.check_traces('HybridTrace', items[i:i + 2000])
    for i in range(0, len(scheds), 2000):
        run.check_traces('SchedTrace', scheds[i:i + 2000])
