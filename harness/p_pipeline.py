"""P21: the scheduling pipeline (spec/Pipeline.tla)."""
import math
import random

import core
import gen
import sched

CFG = '''SPECIFICATION Spec
CONSTANT Mistake = "{m}"
{more}INVARIANT {inv}
'''
NAMES = ['known', 'once', 'predplaced', 'precedence', 'crewexists', 'capacity', 'chainhold', 't0', 'span', 'complete', 'startatt0', 'finishlast',
         'exectime', 'service', 'onecontractor', 'crewlimits', 'chaincrew', 'chaingap', 'chainprec']
USER = ['duration', 'chaintime', 'speccontractor', 'speccrew', 'spectime', 'independent']


def inst_of(wg, inst):
    """The graph that was scheduled, as an instance for the Sched machine."""
    knum = {k: i + 1 for i, k in enumerate(inst['kinds'])}
    nodes = wg.nodes
    num = {n.id: i + 1 for i, n in enumerate(nodes)}
    works = [dict(id=n.id, svc=int(n.work_unit.is_service_unit), vol=0, prio=n.work_unit.priority, chain=0,
                  reqs=[dict(k=knum[q.kind], vol=0, min=int(q.min_count), max=int(q.max_count)) for q in n.work_unit.worker_reqs]) for n in nodes]
    edges = [dict(p=num[e.start.id], c=num[n.id], lag=max(0, math.ceil(e.lag)) if e.lag else 0, t=e.type.value) for n in nodes for e in n.edges_to]
    return dict(kinds=inst['kinds'], works=works, edges=edges, contractors=inst['contractors'], t0=inst['t0'], est=inst['est'],
                spec=[dict(contractors=[], workers=[-1] * len(inst['kinds']), time=-1, indep=0) for _ in works])


class SeenOrder:
    """An order optimiser of the user that changes nothing."""

    def __init__(self, log):
        self.log = log

    def optimize(self, node_order, area):
        self.log.append([n.id for n in node_order])
        return node_order


class SeenSchedule:
    """A schedule optimiser of the user that changes nothing."""

    def __init__(self, log):
        self.log = log

    def optimize(self, scheduled_works, node_order, *a):
        self.log.append([n.id for n in node_order])
        return scheduled_works


def one(inst, rng, seed):
    from sampo.pipeline import SchedulingPipeline
    from sampo.pipeline.lag_optimization import LagOptimizationStrategy as Lag
    from sampo.scheduler.timeline.just_in_time_timeline import JustInTimeTimeline
    from sampo.scheduler.timeline.momentum_timeline import MomentumTimeline
    from sampo.scheduler.utils.local_optimization import SwapOrderLocalOptimizer, ParallelizeScheduleLocalOptimizer
    from sampo.schemas.time import Time
    from sampo.structurator import graph_restructuring
    est = gen.estimator(inst)
    name = rng.choice(['heft', 'heft', 'between', 'topo', 'rtopo', 'lft', 'rlft', 'gen_par', 'gen_ser'])
    lag = rng.choice([Lag.FALSE, Lag.FALSE, Lag.TRUE, Lag.AUTO])
    local = rng.random() < 0.7
    samename = rng.random() < 0.3
    validate = rng.random() < 0.3
    n0 = len(inst['works'])

    def objects():
        wg, cs, spec = gen.build(inst)
        if samename:
            for c in cs:
                c.name = 'Builder'
        return wg, cs, spec

    def area():
        a = rng.randint(0, n0)
        return range(*rng.choice([(0, n0), (0, n0 // 2), (n0 // 2, n0), (min(a, 2), n0 - 1), (a, rng.randint(a, n0))]))
    orders, areas, seen = [], [], []
    wg, cs, spec = objects()
    p = SchedulingPipeline.create().wg(wg).contractors(cs).spec(spec).lag_optimize(lag).time_shift(Time(inst['t0']))
    if est is not None:
        p = p.work_estimator(est)
    used = 0
    if local and name not in ('gen_par', 'gen_ser') and rng.random() < 0.8:
        p = p.optimize_local(SeenOrder(orders), range(0, 1))
        for _ in range(rng.randint(0, 3)):
            r = area()
            areas.append(dict(lo=r.start, hi=r.stop))
            p = p.optimize_local(SwapOrderLocalOptimizer(), r).optimize_local(SeenOrder(orders), range(0, 1))
            used = 1
    n_orders = len(areas) + 1
    done = p.schedule(sched.make_scheduler(name, seed, est), validate=validate)
    if local and rng.random() < 0.8:
        done = done.optimize_local(SeenSchedule(seen), range(0, 1))
        for _ in range(rng.randint(0, 2)):
            done = done.optimize_local(ParallelizeScheduleLocalOptimizer(rng.choice([JustInTimeTimeline, MomentumTimeline])), area())
            done = done.optimize_local(SeenSchedule(seen), range(0, 1))
            used = 1
    project = done.finish()[0]
    raw = project.raw_schedule
    if name in ('lft', 'rlft', 'gen_par', 'gen_ser'):
        orders, areas = [], []          # these schedulers do not take order optimisers
    if lag == Lag.AUTO:
        orders, areas = [], []          # two graphs went through the optimisers
    if name in ('gen_par', 'gen_ser'):
        seen = []
    real = inst if lag == Lag.FALSE else inst_of(project.raw_wg, inst)
    num = {w['id']: i + 1 for i, w in enumerate(real['works'])}
    num0 = {w['id']: i + 1 for i, w in enumerate(inst['works'])}
    direct, dexec = [], []
    if not used:
        s = sched.make_scheduler(name, seed, est)      # one scheduler with one stream of random numbers, as in the pipeline
        for opt in ((None,) if lag == Lag.FALSE else (True,) if lag == Lag.TRUE else (False, True)):
            wg2, cs2, spec2 = objects()
            g2 = wg2 if opt is None else graph_restructuring(wg2, opt)
            r = s.schedule_with_cache(g2, cs2, spec2, assigned_parent_time=Time(inst['t0']))[0][0]
            direct.append(named(r, inst))
            dexec.append(sched.val(r.execution_time))
    rows = sched.project_schedule(raw, real)
    tr = dict(n=len(real['works']), edges=[dict(p=e['p'], c=e['c'], t=e['t']) for e in real['edges']], n0=n0,
              orders=[[num.get(i, 0) for i in o] for o in orders], areas=areas,
              seen=[[num.get(i, 0) for i in o] for o in seen], ids=[r['w'] for r in rows],
              united=[num0.get(w.id, 0) for w in project.schedule.works],
              rows=named(raw, inst), exec=sched.val(raw.execution_time), direct=direct, dexec=dexec, local=used, err='')
    if orders and len(orders) != n_orders:
        raise AssertionError('order optimisers were not called once each')
    names = NAMES + (USER if lag == Lag.FALSE else [])
    if name == 'gen_par' and 'duration' in names:
        names.remove('duration')
    return name, tr, dict(inst=real, names=names, rows=rows, exec=sched.val(raw.execution_time), err='')


def named(schedule, inst):
    """Rows with the names of works (the graphs of the two strategies have different works), sorted."""
    rows = sched.project_schedule(schedule, inst)
    return sorted((dict(r, w=w.id) for r, w in zip(rows, schedule.works)), key=lambda r: r['w'])


def batch(arg):
    seed, count = arg
    out = []
    for i in range(count):
        sd = f'{seed} {i}'
        rng = random.Random(sd)
        inst = gen.topo_instance(rng, n=(1, 9), contractors=(1, 3), kinds=(1, 3), spec=rng.choice([0, 0, 0.4]), partial=0.3, time=rng.choice([0, 0, 0.3]),
                                 indep=rng.choice([0, 0, 0.2]), chains=rng.choice([0, 0.4]), prios=0.2, edge_p=rng.choice([0.15, 0.4]),
                                 est=rng.choice(['linear', 'default']), maxcap=rng.choice([3, 6, 9]))
        try:
            name, a, b = core.limited(one, 60, inst, rng, rng.randint(0, 10 ** 6))
        except Exception as e:
            name, a, b = 'none', dict(err=core.error_site(e)), None
        out.append((a, b, dict(site='pipeline ' + name, seed=sd)))
    return out


def check(run):
    q = run.quick
    run.mc('PipelineMC', CFG.format(m='none', inv='InvOrder InvArea', more=f'CONSTANT Links <- {"Some" if q else "All"}\n'), label='PipelineMC', timeout=3000)
    for m in ('pair', 'cand', 'node', 'stages') + ('stale',):
        run.mc('PipelineMC', CFG.format(m=m, inv='InvOrder', more='CONSTANT Links <- Few\n'), label=f'PipelineMC mistake {m}', expect_violation=True)
    run.mc('SplitMC', CFG.format(m='none', inv='InvSplit', more=''), label='SplitMC')
    for m in ('nocap', 'maxadd', 'mins'):
        run.mc('SplitMC', CFG.format(m=m, inv='InvSplit', more=''), label=f'SplitMC mistake {m}', expect_violation=True)
    rng = random.Random(run.seed * 1000 + 21)
    n = 1000 if q else 24000
    items = [x for b in core.pmap(batch, [(rng.randint(0, 10 ** 9), n // 40) for _ in range(40)], timeout=3000) for x in b]
    for _, _, m in items:
        run.cover(m['site'])
    run.sample(items[0][0])
    a = [(x, m) for x, _, m in items]
    b = [(y, m) for _, y, m in items if y]
    for i in range(0, len(a), 4000):
        run.check_traces('PipelineTrace', a[i:i + 4000])
        run.check_traces('SchedTrace', b[i:i + 4000])
