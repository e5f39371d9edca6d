"""P13: restructuring of work graphs (spec/Restruct.tla)."""
import json
import math
import random

import core

S = 1024
CFG = '''SPECIFICATION Spec
CONSTANTS S = 8
 Horizon = {h}
 Mistake = "{m}"
INVARIANTS {inv}
'''


def random_graph(rng):
    """Plain description of a graph with every edge type; volumes are powers of two, so shares are exact."""
    n = rng.randint(1, 7)
    zones = ['z0', 'z1']
    works = [dict(id='s', vol=0, prio=1, reqs=[], mats=[], eqs=[], objs=[], zones=[], group='service_works', svc=1, name='start of project')]
    multi = rng.random() < 0.5
    for i in range(n):
        works.append(dict(id=rng.choice('abcxyz') + str(i), vol=rng.choice([1, 2, 4, 8, 16, 32, 64, 128]), prio=1,
                          reqs=[dict(k=k, vol=rng.randint(0, 40), min=rng.randint(0, 3), max=rng.randint(3, 7))
                                for k in rng.sample(['driver', 'fitter', 'welder'], rng.randint(0, 3))],
                          mats=[dict(n=m, c=rng.randint(0, 30)) for m in rng.sample(['m1', 'm2'], rng.randint(0, 2))],
                          eqs=[dict(n='crane', c=rng.randint(0, 9))] if rng.random() < 0.3 else [],
                          objs=[dict(n='power', c=rng.randint(0, 9))] if rng.random() < 0.3 else [],
                          zones=rng.sample(zones, rng.randint(0, 1)), group=rng.choice(['g1', 'g2']), svc=0,
                          name=rng.choice(['dig', 'build', 'weld'])))
    works.append(dict(id='f', vol=0, prio=1, reqs=[], mats=[], eqs=[], objs=[], zones=[], group='service_works', svc=1, name='finish of project'))
    if multi:
        lv = 1
        for w in works[1:-1]:
            w['prio'] = rng.randint(1, 3) if rng.random() < 0.4 else lv
            lv = max(lv, w['prio'])
        works[-1]['prio'] = max(w['prio'] for w in works)
    edges = []
    son, par = set(), set()
    for c in range(2, n + 2):
        for p in range(2, c):
            if rng.random() < rng.choice([0.2, 0.5]):
                t = rng.choice(['FS', 'SS', 'FF', 'FFS', 'FS', 'IFS', 'SS+FF'])
                if t == 'IFS' and (c in son or p in par):
                    t = 'FS'
                if t == 'IFS':
                    son.add(c)
                    par.add(p)
                lag = lambda: rng.choice([0, 1, 2, 4, 8, rng.choice([-1, 3, 5, 16, 40, 41, 127])])
                if t == 'SS+FF':
                    edges += [dict(p=p, c=c, t='SS', lag=lag()), dict(p=p, c=c, t='FF', lag=lag())]
                else:
                    edges.append(dict(p=p, c=c, t=t, lag=0 if t == 'IFS' else lag()))
    # only exact shares: the lag must divide
    for e in edges:
        v = works[e['p'] - 1]['vol']
        if e['t'] in ('SS', 'FF', 'FFS') and 0 < e['lag'] <= v and (S * e['lag']) % v:
            e['lag'] = 0
        if e['t'] == 'FS' and rng.random() < 0.15:
            e['lag'] += 0.5
    dep = [e for e in edges if e['t'] in ('FS', 'IFS', 'FFS')]
    for i in range(2, n + 2):
        if not any(e['c'] == i for e in dep):
            edges.append(dict(p=1, c=i, t='FS', lag=0))
        if not any(e['p'] == i for e in dep):
            edges.append(dict(p=i, c=n + 2, t='FS', lag=0))
    return dict(works=works, edges=edges)


def build(g):
    from sampo.schemas.graph import GraphNode, WorkGraph, EdgeType
    from sampo.schemas.works import WorkUnit
    from sampo.schemas.time import Time
    from sampo.schemas.requirements import WorkerReq, MaterialReq, EquipmentReq, ConstructionObjectReq, ZoneReq
    nodes = []
    for i, w in enumerate(g['works']):
        wu = WorkUnit(w['id'], w['name'] if i in (0, len(g['works']) - 1) else {'granular_name': w['name'], 'measurement': 'm3', 'extra': 7},
                      worker_reqs=[WorkerReq(r['k'], Time(r['vol']), r['min'], r['max']) for r in w['reqs']],
                      material_reqs=[MaterialReq(m['n'], m['c']) for m in w['mats']],
                      equipment_reqs=[EquipmentReq(m['n'], m['c']) for m in w['eqs']],
                      object_reqs=[ConstructionObjectReq(m['n'], m['c']) for m in w['objs']],
                      zone_reqs=[ZoneReq(z, 1) for z in w['zones']], group=w['group'], priority=w['prio'], is_service_unit=bool(w['svc']),
                      volume=w['vol'], display_name='D ' + w['id'], description='about ' + w['id'])
        par = [(nodes[e['p'] - 1], e['lag'], EdgeType(e['t'])) for e in g['edges'] if e['c'] == i + 1]
        nodes.append(GraphNode(wu, par))
    return WorkGraph(nodes[0], nodes[-1])


def keep(wu):
    """Everything about a work that restructuring does not divide, as text."""
    return json.dumps([sorted((k, v) for k, v in wu.model_name.items() if k != 'granular_name'),
                       [[r.kind, int(r.min_count), int(r.max_count)] for r in wu.worker_reqs],
                       [r.name for r in wu.material_reqs], [r.kind for r in wu.equipment_reqs], [r.kind for r in wu.object_reqs],
                       [[z.kind, z.required_status] for z in wu.zone_reqs], wu.group, bool(wu.is_service_unit), wu.display_name,
                       wu.description])


def amounts(wu):
    return ([int(r.volume.value if hasattr(r.volume, 'value') else r.volume) for r in wu.worker_reqs] + [int(r.count) for r in wu.material_reqs]
            + [int(r.count) for r in wu.equipment_reqs] + [int(r.count) for r in wu.object_reqs])


def snapshot(wg):
    return [(n.id, n.work_unit.model_name.get('granular_name'), keep(n.work_unit), amounts(n.work_unit), n.work_unit.volume, n.work_unit.priority,
             [(e.start.id, e.lag, e.type.value) for e in n.edges_to], [(e.finish.id, e.lag, e.type.value) for e in n.edges_from])
            for n in wg.nodes]


def describe(g, wg):
    ws = []
    for w in g['works']:
        wu = wg[w['id']].work_unit
        ws.append(dict(vol=w['vol'], reqs=amounts(wu), keep=keep(wu), name=wu.model_name['granular_name'], prio=w['prio']))
    return dict(w=ws, e=[dict(e, lag=math.ceil(e['lag'])) for e in g['edges']])


def run_case(rng):
    from sampo.structurator import graph_restructuring
    from sampo.api.const import STAGE_SEP
    g = random_graph(rng)
    opt = rng.random() < 0.5
    wg = build(g)
    tr = dict(G=describe(g, wg), opt=int(opt))
    before = snapshot(wg)
    new = graph_restructuring(wg, opt)
    num = {w['id']: i + 1 for i, w in enumerate(g['works'])}
    stages = {}
    for n in new.nodes:
        if STAGE_SEP in n.id:
            b, i = n.id.rsplit(STAGE_SEP, 1)
            stages[b] = max(stages.get(b, 0), int(i) + 1)
    nodes, at = [], {}
    for n in new.nodes:
        if STAGE_SEP in n.id:
            b, i = n.id.rsplit(STAGE_SEP, 1)
        else:
            b, i = n.id, stages.get(n.id, 0)
        at[n.id] = len(nodes) + 1
        wu = n.work_unit
        nodes.append(dict(w=num.get(b, 0), i=int(i), vol=int(round(wu.volume * S)), reqs=amounts(wu), keep=keep(wu),
                          name=wu.model_name['granular_name'], prio=int(wu.priority)))
    es = [dict(p=at[e.start.id], c=at[n.id], t=e.type.value, lag=int(e.lag)) for n in new.nodes for e in n.edges_to]
    tr.update(nodes=nodes, e=es, ends=[at[new.start.id], at[new.finish.id]], same=int(snapshot(wg) == before), err='')
    return tr


def batch(arg):
    seed, count = arg
    out = []
    for i in range(count):
        rng = random.Random(f'{seed} {i}')
        try:
            tr = core.limited(run_case, 30, rng)
        except Exception as e:
            tr = dict(G=dict(w=[], e=[]), opt=0, nodes=[], e=[], ends=[1, 1], same=1, err=core.error_site(e))
        out.append((tr, dict(site='restructuring', seed=f'{seed} {i}')))
    return out


def check(run):
    q = run.quick
    run.mc('RestructMC', CFG.format(h=6 if q else 9, m='none', inv='InvSame InvWhole InvNodes'), label='RestructMC meaning of edges', timeout=3000)
    for m in ('ss', 'ff', 'drop'):
        run.mc('RestructMC', CFG.format(h=5, m=m, inv='InvSame'), label=f'RestructMC mistake {m}', expect_violation=True)
    rng = random.Random(run.seed * 1000 + 13)
    n = 2400 if q else 40000
    items = [x for b in core.pmap(batch, [(rng.randint(0, 10 ** 9), n // 40) for _ in range(40)]) for x in b]
    for t, _ in items:
        for e in t['G']['e']:
            run.cover(f'{e["t"]} opt={t["opt"]}')
        run.cover('stages', len(t['nodes']))
    run.sample(items[0][0])
    for i in range(0, len(items), 4000):
        run.check_traces('RestructTrace', items[i:i + 4000], consts=f'CONSTANT S = {S}\n')
