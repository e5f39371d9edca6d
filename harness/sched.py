"""Run the real schedulers on an instance and project their result to plain data."""
import random

INF = 100_000_000


def scheduler_configs(genetic=True):
    names = ['heft', 'between', 'topo', 'rtopo', 'lft', 'rlft']
    if genetic:
        names += ['gen_par', 'gen_ser']
    return names


def make_scheduler(name, seed, work_estimator=None, **kw):
    from sampo.scheduler import HEFTScheduler, HEFTBetweenScheduler, TopologicalScheduler, GeneticScheduler
    from sampo.scheduler.topological.base import RandomizedTopologicalScheduler
    from sampo.scheduler.lft.base import LFTScheduler, RandomizedLFTScheduler
    from sampo.api.genetic_api import ScheduleGenerationScheme as SGS
    a = dict(work_estimator=work_estimator) if work_estimator is not None else {}
    if name == 'heft':
        return HEFTScheduler(**a)
    if name == 'between':
        return HEFTBetweenScheduler(**a)
    if name == 'topo':
        return TopologicalScheduler(**a)
    if name == 'rtopo':
        return RandomizedTopologicalScheduler(random_seed=seed % 2 ** 31, **a)
    if name == 'lft':
        return LFTScheduler(**a)
    if name == 'rlft':
        return RandomizedLFTScheduler(rand=random.Random(seed), **a)
    g = dict(number_of_generation=3, size_of_population=6, mutate_order=0.3, mutate_resources=0.3, mutate_zones=0.2,
             seed=seed)
    g.update(kw)
    if name == 'gen_par':
        return GeneticScheduler(sgs_type=SGS.Parallel, **g, **a)
    if name == 'gen_ser':
        return GeneticScheduler(sgs_type=SGS.Serial, **g, **a)
    raise ValueError(name)


def project_schedule(sched, inst):
    """Schedule -> rows in schedule order. Unknown ids map to 0, unknown kinds/contractors to 0."""
    num = {w['id']: i + 1 for i, w in enumerate(inst['works'])}
    knum = {k: i + 1 for i, k in enumerate(inst['kinds'])}
    cnum = {f'c{i}': i + 1 for i in range(len(inst['contractors']))}
    rows = []
    for sw in sched.works:
        rows.append(project_swork(sw, num, knum, cnum))
    return rows


def val(t):
    v = int(getattr(t, 'value', t))
    return max(-INF, min(INF, v))


def project_swork(sw, num, knum, cnum):
    return dict(w=num.get(sw.id, 0), s=val(sw.start_time), f=val(sw.finish_time),
                c=cnum.get(sw.contractor_id, 0),
                team=[dict(k=knum.get(x.name, 0), n=int(x.count), c=cnum.get(x.contractor_id, 0))
                      for x in sw.workers])
