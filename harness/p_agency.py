"""P29: blocks of works shared out among agents (spec/Agency.tla).

The package of the agents imports torch, ray and sklearn, which are not installed: names of these packages stand in for them here. Nothing that the agents,
managers and block graphs do uses them; the neural networks of NeuralManager are parameters, given by the harness."""
import importlib.util
import random
import sys
import types

import core
import gen
import sched

CFG = '''SPECIFICATION Spec
CONSTANTS Mistake = "{m}"
 N = {n}
 A = {a}
 D = {d}
INVARIANTS {inv}
{prop}
'''
NAMES = ['known', 'once', 'predplaced', 'precedence', 'onecontractor', 'crewexists', 'capacity', 'crewlimits', 'chaincrew', 'chaingap', 'chainprec', 'service']


def stand_ins():
    """Modules named torch, ray and sklearn, where they are missing."""
    for names in (('torch', 'torch.nn', 'torch.nn.functional', 'torch.utils', 'torch.utils.data'), ('ray', 'ray.air'), ('sklearn', 'sklearn.model_selection')):
        if names[0] in sys.modules or importlib.util.find_spec(names[0]):
            continue
        for name in names:
            m = types.ModuleType(name)
            m.__getattr__ = anything
            sys.modules[name] = m
            if '.' in name:
                setattr(sys.modules[name.rsplit('.', 1)[0]], name.rsplit('.', 1)[1], m)


def anything(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return type(name, (), {})


DET = ['heft', 'between', 'topo', 'lft']


def random_blocks(rng, n, chains=0.25):
    """Instances of n blocks with the same kinds and contractors (every agent's first contractor can do everything), and edges between them."""
    base = gen.topo_instance(rng, n=(2, 5), contractors=(1, 1), kinds=(1, 3), maxcap=4, chains=chains, edge_p=0.3, t0=False)
    blocks = [base] + [gen.topo_instance(rng, n=(1, 5), maxcap=4, chains=chains, edge_p=0.3, t0=False, like=base) for _ in range(n - 1)]
    p = rng.choice([0.2, 0.5, 0.8])
    edges = [[i, j] for i in range(1, n + 1) for j in range(i + 1, n + 1) if rng.random() < p]
    return blocks, edges


def build_blocks(blocks, agents_caps, rng, empty):
    """Work graphs (real objects, unique ids) of blocks and the contractors of the agents; the combined plain instance."""
    from sampo.schemas.graph import GraphNode, WorkGraph
    from sampo.schemas.works import WorkUnit
    wgs = []
    for i, b in enumerate(blocks):
        if i in empty:
            s = GraphNode(WorkUnit(f'B{i}_s', ''), [])
            wgs.append(WorkGraph(s, GraphNode(WorkUnit(f'B{i}_f', ''), [s])))
        else:
            wgs.append(gen.build(dict(b, works=[dict(w, id=f'B{i}_' + w['id']) for w in b['works']]))[0])
    _, cs, _ = gen.build(dict(blocks[0], contractors=agents_caps, spec=[]))
    return wgs, cs


def inst_of_graphs(wgs, kinds, caps, edges):
    """All blocks as one instance of the Sched machine, read from the graphs themselves (obstructions change them)."""
    import math
    knum = {k: i + 1 for i, k in enumerate(kinds)}
    num, of, works, es = {}, [], [], []
    for b, wg in enumerate(wgs):
        for n in wg.nodes:
            num[n.id] = len(works) + 1
            of.append(b + 1)
            works.append(dict(id=n.id, svc=int(n.work_unit.is_service_unit), vol=0, prio=1, chain=0,
                              reqs=[dict(k=knum[q.kind], vol=0, min=int(q.min_count), max=int(q.max_count)) for q in n.work_unit.worker_reqs]))
    for wg in wgs:
        for n in wg.nodes:
            es += [dict(p=num[e.start.id], c=num[n.id], lag=max(0, math.ceil(e.lag)) if e.lag else 0, t=e.type.value) for e in n.edges_to]
    for p, c in edges:
        es.append(dict(p=num[wgs[p - 1].finish.id], c=num[wgs[c - 1].start.id], lag=1, t='FS'))
    return dict(kinds=kinds, works=works, edges=es, contractors=caps, t0=0, est='default',
                spec=[dict(contractors=[], workers=[-1] * len(kinds), time=-1, indep=0) for _ in works]), of


def inst_of_plain(blocks, empty, kinds, caps, edges):
    """The same from the plain data the graphs were made of."""
    works, es, of, ends = [], [], [], []
    for i, b in enumerate(blocks):
        off = len(works)
        if i in empty:
            ws = [dict(id=f'B{i}_{x}', svc=0, vol=0, prio=1, chain=0, reqs=[]) for x in 'sf']
            ed = [dict(p=1, c=2, lag=0, t='FS')]
        else:
            ws = [dict(w, id=f'B{i}_' + w['id']) for w in b['works']]
            ed = b['edges']
        works += ws
        of += [i + 1] * len(ws)
        es += [dict(e, p=e['p'] + off, c=e['c'] + off) for e in ed]
        ends.append((off + 1, off + len(ws)))
    es += [dict(p=ends[p - 1][1], c=ends[c - 1][0], lag=1, t='FS') for p, c in edges]
    return dict(kinds=kinds, works=works, edges=es, contractors=caps, t0=0, est='default',
                spec=[dict(contractors=[], workers=[-1] * len(kinds), time=-1, indep=0) for _ in works]), of


def scheduler(name, seed, est=None):
    if not name.endswith('_jit'):
        return sched.make_scheduler(name, seed, work_estimator=est)
    from sampo.scheduler.lft.base import LFTScheduler
    from sampo.scheduler.timeline.just_in_time_timeline import JustInTimeTimeline
    a = dict(work_estimator=est) if est is not None else {}
    if name == 'lft_jit':
        return LFTScheduler(timeline_type=JustInTimeTimeline, **a)
    s = sched.make_scheduler('topo', seed, work_estimator=est)
    s._timeline_type = JustInTimeTimeline
    return s


def times(x):
    return dict(s=sched.val(x[0]), e=sched.val(x[1]))


def run_case(rng, genetic=False, stochastic=None):
    from sampo.scheduler.multi_agency.block_graph import BlockGraph, BlockNode
    from sampo.scheduler.multi_agency.block_validation import validate_block_schedule
    from sampo.scheduler.multi_agency.multi_agency import Agent, Manager, StochasticManager, NeuralManager
    from sampo.scheduler.utils.obstruction import OneInsertObstruction
    from sampo.schemas.time import Time
    import numpy as np
    n = rng.randint(1, 6)
    obstructed = rng.random() < 0.25
    blocks, edges = random_blocks(rng, n, 0 if obstructed else 0.25)   # works put into the middle of an inseparable chain cannot be scheduled
    empty = {i for i in range(n) if rng.random() < 0.12}
    kinds = blocks[0]['kinds']
    base = blocks[0]['contractors'][0]['caps']
    mode = 'trust' if stochastic else rng.choice(['finish', 'finish', 'trust', 'pred'])
    na = rng.randint(1, 4)
    caps, cons = [], []
    for a in range(na):
        mine = []
        for j in range(rng.choice([1, 1, 2])):
            caps.append(dict(caps=[c + rng.choice([0, 0, 1, 3]) for c in base] if j == 0 else [rng.choice([0, 1, 2, 4]) for _ in base]))
            mine.append(len(caps))
        cons.append(mine)
    wgs, cs = build_blocks(blocks, caps, rng, empty)
    perm = list(range(n))
    rng.shuffle(perm)                       # the graph lists its blocks in any order
    obs = {}
    if obstructed:
        for i in range(n):
            if i not in empty and rng.random() < 0.6:
                ins = gen.topo_instance(rng, n=(1, 2), chains=0, like=blocks[0], t0=False)
                ins = dict(ins, works=[dict(w, id=f'O{i}_' + w['id']) for w in ins['works']])
                g = gen.build(ins)[0]
                obs[i] = OneInsertObstruction.from_static_graph(rng.choice([0, 0.5, 1]), random.Random(rng.random()), g)
    nodes = {i: BlockNode(wgs[i], obs.get(i)) for i in range(n)}
    bg = BlockGraph([nodes[i] for i in perm])
    es = list(edges)
    rng.shuffle(es)
    for p, c in es:
        BlockGraph.add_edge(nodes[p - 1], nodes[c - 1])
    number = {wgs[i].start.id: i + 1 for i in range(n)}
    if mode == 'trust':
        # the momentum timeline is only asked for times that do not change between two questions (see known_findings.jsonl)
        names = [rng.choice(stochastic or ['heft', 'heft', 'topo_jit', 'lft_jit']) for _ in range(na)]
    else:
        names = [rng.choice(DET + ['rtopo', 'rlft'] + (['gen_par', 'gen_ser'] if genetic else [])) for _ in range(na)]
    log = []

    class Watched(Agent):
        def offer(self, wg, parent_time):
            r = super().offer(wg, parent_time)
            log.append(('offer', self.number, number[wg.start.id], sched.val(parent_time), times(r), r))
            return r

        def confirm(self, timeline, start, end):
            log.append(('confirm', self.number, times((start, end))))
            return super().confirm(timeline, start, end)
    agents, shadows = [], []
    for a in range(na):
        ag = Watched(f'Agent {a}', scheduler(names[a], 7 + a), [cs[c - 1] for c in cons[a]])
        ag.number = a + 1
        agents.append(ag)
        shadows.append(Agent(f'Shadow {a}', scheduler(names[a], 7 + a), [cs[c - 1] for c in cons[a]]) if names[a] in DET and mode != 'trust' else None)
    order = []
    if mode == 'finish':
        m = Manager(agents)
    elif mode == 'trust':
        from sampo.schemas.time_estimator import DefaultWorkEstimator
        for a in range(na):               # agents with their own estimators
            agents[a]._scheduler = scheduler(names[a], 7 + a, DefaultWorkEstimator(rand=random.Random(rng.random())))
        m = StochasticManager(agents)
    else:
        algos = [rng.randint(0, 1) for _ in range(n + 1)]
        vec = [[rng.randint(0, 6) for _ in base] for _ in range(n + 1)]
        two = rng.sample(DET, 2)
        blist = bg.toposort()

        class Algo:
            def predict(self, x):
                return np.array([algos[x[0]]])

            def predict_proba(self, x):
                return np.array([[0.5, 0.5]])

        class Con:
            def predict(self, x):
                return np.array([vec[x[0]]], dtype=float)
        m = NeuralManager(agents, Algo(), Con(), [sched.make_scheduler(x, 1) for x in two], blist, list(range(n)))
    aucs, trust = [], [10] * na
    lasts = [0] * na
    orig = m.run_auction

    def auction(wg, *a):
        del log[:]
        k = len(aucs)
        parent = a[-1]
        rec = dict(b=number[wg.start.id], free=[], algo=[], mse=[], w=list(trust), offers=[])
        if mode == 'pred':
            rec['free'] = [int(sched.val(parent) > sched.val(x.end_time)) for x in agents]
            cls = type(m.algorithms[algos[k]])
            rec['algo'] = [int(isinstance(x.scheduler, cls)) for x in agents]
            rec['mse'] = [sum((int(u.count) - v) ** 2 for u, v in zip(x.contractors[0].workers.values(), vec[k])) for x in agents]
        res = orig(wg, *a)
        offers = [x for x in log if x[0] == 'offer']
        conf = [x for x in log if x[0] == 'confirm']
        rec['t'] = offers[0][3] if len({x[3] for x in offers}) == 1 else -1
        if mode != 'pred':
            rec['offers'] = [x[4] for x in offers[:na]] if [x[1] for x in offers[:na]] == list(range(1, na + 1)) else []
        win = conf[0][1] if len(conf) == 1 else 0
        rec.update(a=win, real=conf[0][2] if conf else dict(s=-1, e=-1), shadow=dict(s=-1, e=-1))
        if win and (offers[-1][1] != win or offers[-1][4] != rec['real']):
            rec['real'] = dict(s=-2, e=-2)
        if mode == 'trust':
            trust[:] = [round(m._confidence[x.name] * 10) for x in agents]
        rec['w2'] = list(trust)
        rec['last'] = [sched.val(x.end_time) for x in agents]
        if win and shadows[win - 1] is not None:
            sh = shadows[win - 1]
            s, e, q, tl = sh.offer(wg, Time(rec['t']))
            sh.confirm(tl, s, e)
            same = [(w.id, int(w.start_time), int(w.finish_time)) for w in q.works] == \
                [(w.id, int(w.start_time), int(w.finish_time)) for w in res[2].works]
            rec['shadow'] = times((s, e)) if same else dict(s=-3, e=-3)
        aucs.append(rec)
        return res
    m.run_auction = auction
    logger = (lambda s: None) if rng.random() < 0.5 else None
    out = m.manage_blocks(bg, logger) if mode != 'pred' else m.manage_blocks(logger)
    try:
        validate_block_schedule(bg, out, agents)
        valid = 1
    except AssertionError:
        valid = 0
    if obstructed:
        inst, of = inst_of_graphs(wgs, kinds, caps, edges)
    else:
        inst, of = inst_of_plain(blocks, empty, kinds, caps, edges)
    brs = []
    for sb in out.values():
        b = number[sb.id]
        brs.append(dict(b=b, s=sched.val(sb.start_time), e=sched.val(sb.end_time), a=sb.agent.number, rows=sched.project_schedule(sb.schedule, inst)))
    brs.sort(key=lambda y: [x['b'] for x in aucs].index(y['b']))
    return dict(kind='run', inst=inst, of=of, n=n, edges=edges, agents=[dict(cons=c) for c in cons], mode=mode, auctions=aucs, blocks=brs,
                names=NAMES, valid=valid, err='')


def graph_case(rng):
    from sampo.scheduler.multi_agency.block_graph import BlockGraph, BlockNode
    import copy
    n = rng.randint(1, 5)
    blocks, edges = random_blocks(rng, n)
    empty = {i for i in range(n) if rng.random() < 0.2}
    wgs, _ = build_blocks(blocks, blocks[0]['contractors'], rng, empty)
    perm = list(range(n))
    rng.shuffle(perm)
    if rng.random() < 0.4:
        bg = BlockGraph.pure([wgs[i] for i in perm])
        nodes = {i: bg[wgs[i].start.id] for i in range(n)}
    else:
        nodes = {i: BlockNode(wgs[i]) for i in range(n)}
        bg = BlockGraph([nodes[i] for i in perm])
    es = list(edges)
    rng.shuffle(es)
    for p, c in es:
        BlockGraph.add_edge(nodes[p - 1], nodes[c - 1])
    inst, of = inst_of_plain(blocks, empty, blocks[0]['kinds'], blocks[0]['contractors'], [])
    num = {w['id']: i + 1 for i, w in enumerate(inst['works'])}
    number = {wgs[i].start.id: i + 1 for i in range(n)}
    before = [(number[b.id], number[c.id]) for b in bg.nodes for c in b.blocks_to]
    twin = copy.copy(bg)
    wg = bg.to_work_graph()
    num[wg.start.id], num[wg.finish.id] = 0, -1
    al = sorted({(num.get(e.start.id, -2), num.get(x.id, -2)) for x in wg.nodes for e in x.edges_to})
    first = [num[wgs[i].start.id] for i in range(n)]
    last = [num[wgs[i].finish.id] for i in range(n)]
    same = [(number[b.id], number[c.id]) for b in bg.nodes for c in b.blocks_to] == before and len(bg) == n and \
        sorted((number[b.id], number[c.id]) for c in twin.nodes for b in c.blocks_from) == sorted(before) and \
        all(a is not b and a.wg is b.wg and twin[a.id] is b for a, b in zip(bg.nodes, twin.nodes))
    return dict(kind='graph', n=n, same=int(same), edges=edges, of=of, own=[[e['p'], e['c']] for e in inst['edges']], first=first, last=last, all=al, m=len(of),
                ord=[number[b.id] for b in bg.toposort()], ord2=[number[b.id] for b in twin.toposort()],
                edges2=[[number[b.id], number[c.id]] for b in twin.nodes for c in b.blocks_to], err='')


def gen_case(rng):
    from sampo.scheduler.multi_agency.block_generator import generate_block_graph, SyntheticBlockGraphType as T
    t = rng.choice(list(T))
    r = random.Random(rng.random())
    mk = dict(type_prop=[1, 1, 1], count_supplier=lambda i: (rng.choice([None, 3]), 20), edge_prob=rng.choice([0.2, 0.5, 0.9]), rand=r,
              logger=lambda s: None)
    if t is T.QUEUES:
        sizes = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
        bg = generate_block_graph(t, 0, queues_num=len(sizes), queues_blocks=sizes, queues_edges=sizes, **mk)
    else:
        n = rng.randint(1, 5)
        bg = generate_block_graph(t, n, **mk)
    idx = {id(b): i + 1 for i, b in enumerate(bg.nodes)}
    edges = [[idx[id(b)], idx[id(c)]] for b in bg.nodes for c in b.blocks_to]
    back = [[idx[id(b)], idx[id(c)]] for c in bg.nodes for b in c.blocks_from]
    tr = dict(kind='gen', type=t.name, edges=edges if sorted(edges) == sorted(back) else edges + [[0, 0]], nodes=len(bg.nodes), layers=[], sizes=[], n=0, err='')
    if t is T.QUEUES:
        layers, cur = [], []
        for b in bg.nodes:
            if b.is_service():
                layers += [cur] if cur else []
                layers.append([idx[id(b)]])
                cur = []
            else:
                cur.append(idx[id(b)])
        tr.update(layers=layers, sizes=sizes)
    else:
        tr['n'] = n
    return tr


KINDS = dict(run=run_case, gen=gen_case, graph=graph_case, genetic=lambda r: run_case(r, True),
             stochastic=lambda r: run_case(r, False, ['between', 'topo', 'lft']))


def batch(arg):
    stand_ins()
    seed, kind, count = arg
    out = []
    for i in (range(count) if isinstance(count, int) else count):
        rng = random.Random(f'{seed} {i}')
        try:
            tr = core.limited(KINDS[kind], 60, rng)
        except Exception as e:
            tr = dict(kind='run', mode='', err=core.error_site(e))
        out.append((tr, dict(site=f'agency {kind}', seed=f'{seed} {i}')))
    return out


def check(run):
    q = run.quick
    every = 'InvOrder InvPrecedence InvAlone InvPlans InvGreedy InvTrust'
    run.mc('AgencyMC', CFG.format(m='none', n=3, a=2, d=2, inv=every, prop='' if q else 'PROPERTY Ends'), label='AgencyMC')
    for m, inv in (('latest', 'InvGreedy'), ('leak', 'InvPlans'), ('noparent', 'InvPrecedence'), ('order', 'InvOrder'), ('trust', 'InvTrust')):
        run.mc('AgencyMC', CFG.format(m=m, n=2, a=2 if m in ('latest', 'leak') else 1, d=2, inv=inv, prop=''), label=f'AgencyMC mistake {m}',
               expect_violation=True)
    rng = random.Random(run.seed * 1000 + 29)
    k = 1 if q else 20
    jobs = [(rng.randint(0, 10 ** 9), 'run', 7 * k) for _ in range(32)] + [(rng.randint(0, 10 ** 9), 'graph', 30 * k) for _ in range(8)] \
        + [(rng.randint(0, 10 ** 9), 'gen', 5 * k) for _ in range(8)] + [(rng.randint(0, 10 ** 9), 'genetic', 1 * k) for _ in range(8)] \
        + [(104, 'stochastic', [1, 16]), (118, 'stochastic', [2, 8])]      # always the same four
    items = [x for b in core.pmap(batch, jobs) for x in b]
    for t, m in items:
        run.cover(m['site'] + (' by ' + t['mode'] if t['kind'] == 'run' else ''))
        run.cover('auctions', len(t.get('auctions', [])))
    run.sample(items[0][0])
    for i in range(0, len(items), 1500):
        run.check_traces('AgencyTrace', items[i:i + 1500])
