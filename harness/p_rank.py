"""P18: the order in which works are considered (spec/Rank.tla)."""
import random

import core
import gen
import sched

CFG = '''SPECIFICATION Spec
CONSTANTS Part = "{part}"
 Mistake = "{m}"
 N = {n}
 W = {w}
INVARIANTS {inv}
'''


def twice(x):
    v = 2 * float(getattr(x, 'value', x))
    if v != int(v):
        raise ValueError('not half-integral')
    return int(v)


def layered(rng):
    """A project of many layers: the number of its paths is exponential."""
    inst = gen.topo_instance(rng, n=(1, 1), prios=0, est='linear', chains=0)
    reqs = inst['works'][1]['reqs']
    width, depth = 3, rng.randint(17, 18)
    inst['works'] = [inst['works'][0]]
    inst['edges'] = []
    for i in range(width * depth):
        inst['works'].append(dict(id=f'w{rng.randint(0, 9)}_{i:02d}', svc=0 if reqs else 1, reqs=[dict(r, vol=rng.randint(1, 9)) for r in reqs], vol=1, prio=1, chain=0))
        if i >= width:
            inst['edges'] += [dict(p=(i // width - 1) * width + j + 2, c=i + 2, lag=0, t='FS') for j in range(width)]
    gen._connect(inst)
    inst['spec'] = gen.gen_spec(inst, rng, 0, inst['full'])
    return inst


def run_case(rng, inst=None):
    from sampo.scheduler.utils import get_head_nodes_with_connections_mappings
    from sampo.scheduler.utils.critical_path import critical_path_graph, critical_path_schedule, ford_bellman
    from sampo.scheduler.utils.time_computaion import work_priority, calculate_working_time_cascade
    from sampo.scheduler.heft.prioritization import prioritization
    from sampo.scheduler.lft.prioritization import (lft_prioritization, lft_prioritization_core, lft_randomized_prioritization_core, map_lft_lst)
    from sampo.schemas.project import ScheduledProject
    from sampo.utilities.priority import check_and_correct_priorities
    big = rng.random() < 0.2
    inst = inst or gen.topo_instance(rng, n=(1, 4) if rng.random() < 0.3 else (3, 14) if big else (3, 8), prios=0.5, est='linear', spec=rng.choice([0, 0.3]), partial=0.3,
                             chains=rng.choice([0, 0.3]), edge_p=rng.choice([0.2, 0.5]), contractors=(1, 4))
    wg, contractors, spec = gen.build(inst)
    est = gen.estimator(inst)
    num = {w['id']: i + 1 for i, w in enumerate(inst['works'])}
    heads, par, ch = get_head_nodes_with_connections_mappings(wg)
    ids = lambda nodes: [num[n.id] for n in nodes]
    w = {n.id: -work_priority(n, calculate_working_time_cascade, est) for n in heads}
    rank = ford_bellman(list(heads), dict(w), par)
    tr = dict(works=[dict(reqs=x['reqs'], prio=x['prio']) for x in inst['works']], e=[dict(p=e['p'], c=e['c'], t=e['t']) for e in inst['edges']],
              caps=[c['caps'] for c in inst['contractors']], spec=[dict(contractors=s['contractors'], workers=s['workers']) for s in inst['spec']],
              heads=ids(heads), par=[sorted(num[x] for x in par[n.id]) for n in heads], ch=[sorted(num[x] for x in ch[n.id]) for n in heads],
              rank2=[-twice(rank[n.id]) for n in heads], heft=ids(prioritization(list(heads), par, ch, est)))
    from sampo.scheduler import TopologicalScheduler, HEFTScheduler, HEFTBetweenScheduler
    from sampo.scheduler.topological.base import RandomizedTopologicalScheduler
    topo = TopologicalScheduler() if rng.random() < 0.5 else RandomizedTopologicalScheduler(random_seed=rng.randint(0, 10 ** 6))
    tr['topo'] = ids(topo.prioritization(list(heads), par, ch, est))
    d = {n.id: rng.randint(1, 9) for n in heads}
    lf, ls = map_lft_lst(list(heads), ch, d)
    tr.update(d=[d[n.id] for n in heads], lf=[int(lf[n.id]) for n in heads], ls=[int(ls[n.id]) for n in heads],
              lft=ids(lft_prioritization(list(heads), par, ch, d, core_f=lft_prioritization_core)),
              rlft=ids(lft_prioritization(list(heads), par, ch, d, core_f=lft_randomized_prioritization_core, rand=random.Random(rng.random()))))
    tr['cp'] = ids(critical_path_graph(wg.nodes, est))
    # two schedulers as a whole
    res = sched.make_scheduler('lft', 0, est).schedule_with_cache(wg, contractors, spec)[0]
    sw = res[0].to_schedule_work_dict
    kn = {k: i for i, k in enumerate(inst['kinds'])}
    team = []
    for n in heads:
        r = [0] * len(kn)
        for x in sw[n.id].workers:
            r[kn[x.name]] += int(x.count)
        team.append(r)
    tr['run'] = dict(order=ids(res[3]), con=[int(sw[n.id].contractor_id[1:]) + 1 for n in heads], team=team)
    h = (HEFTScheduler if rng.random() < 0.5 else HEFTBetweenScheduler)(work_estimator=est).schedule_with_cache(wg, contractors, spec)[0]
    tr['hrun'] = ids(h[3])
    sw = h[0].to_schedule_work_dict
    tr['dur'] = [int(sw[x['id']].duration) for x in inst['works']]
    tr['cps'] = ids(critical_path_schedule(wg.nodes, sw))
    tr['pcp'] = [num[n.id] for n in ScheduledProject(wg, wg, contractors, h[0]).critical_path()]
    # priorities are corrected last: they change the graph
    prio1 = [rng.randint(1, 6) for _ in inst['works']]
    for n in wg.nodes:
        n.work_unit.priority = prio1[num[n.id] - 1]
    check_and_correct_priorities(wg, verbose=False)
    tr.update(nodes=ids(wg.nodes), prio1=prio1, prio2=[int(wg[x['id']].work_unit.priority) for x in inst['works']], err='')
    return tr


NIL = dict(works=[], e=[], caps=[], spec=[], heads=[], par=[], ch=[], rank2=[], heft=[], topo=[], d=[], lf=[], ls=[], lft=[], rlft=[], cp=[],
           run=dict(order=[], con=[], team=[]), hrun=[], dur=[], cps=[], pcp=[], nodes=[], prio1=[], prio2=[])


def batch(arg):
    seed, count = arg
    out = []
    for i in range(count):
        rng = random.Random(f'{seed} {i}')
        try:
            tr = core.limited(run_case, 30, rng, layered(rng) if i == 0 and seed % 8 == 0 else None)
        except Exception as e:
            tr = dict(NIL, err=core.error_site(e))
        out.append((tr, dict(site='order', seed=f'{seed} {i}')))
    return out


def check(run):
    q = run.quick
    n = 4
    run.mc('RankMC', CFG.format(part='ford', m='none', n=n, w=2 if q else 3, inv='InvFord InvRanks'), label='RankMC ranks', timeout=3000)
    run.mc('RankMC', CFG.format(part='greedy', m='none', n=3 if q else 4, w=3 if q else 2, inv='InvGreedy'), label='RankMC random choice', timeout=3000)
    run.mc('RankMC', CFG.format(part='prio', m='none', n=3 if q else 4, w=3, inv='InvPrio'), label='RankMC priorities', timeout=3000)
    for part, m, inv in (('ford', 'nosave', 'InvFord'), ('ford', 'stop', 'InvFord'), ('prio', 'parents', 'InvPrio'), ('greedy', 'group', 'InvGreedy')):
        run.mc('RankMC', CFG.format(part=part, m=m, n=4 if m == 'stop' else 3, w=1 if m == 'stop' else 2, inv=inv), label=f'RankMC mistake {m}', expect_violation=True)
    rng = random.Random(run.seed * 1000 + 18)
    k = 1200 if q else 24000
    items = [x for b in core.pmap(batch, [(rng.randint(0, 10 ** 9), k // 40) for _ in range(40)]) for x in b]
    for t, _ in items:
        run.cover(f'heads {len(t["heads"]) // 4 * 4}+')
        run.cover('with chains' if len(t['heads']) < len(t['works']) else 'without chains')
        run.cover('several groups' if len({w['prio'] for w in t['works']}) > 1 else 'one group')
    run.sample(items[0][0])
    for i in range(0, len(items), 4000):
        run.check_traces('RankTrace', items[i:i + 4000])
