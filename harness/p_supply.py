"""P09: materials (spec/Supply.tla): schedules of all schedulers and recorded histories of the supply timeline."""
import random

import core
import gen
import sched

CFG = '''SPECIFICATION Spec
CONSTANTS Depth = {d}
 Mistake = "{mistake}"
 MaxNeed = {need}
INVARIANTS InvStock InvConserve InvOK InvVehicles
'''


def config(rng, nmat):
    P, H = rng.randint(1, 3), rng.randint(1, 2)
    carry = [rng.randint(4, 9) for _ in range(nmat)]
    veh = rng.choice([2, 3, 4, 12])
    plat = [[rng.randint(8, min(14, 2 * c)) if 2 * c > 8 else 8 for c in carry] for _ in range(P)]
    depot = [dict(stock=[rng.randint(90, 200) for _ in range(nmat)], vehicles=veh, node=P + i + 1) for i in range(H)]
    roads = []
    for i in range(2, P + H + 1):
        for j in rng.sample(range(1, i), rng.randint(1, i - 1)):
            roads.append(dict(a=i, b=j, len=rng.randint(1, 30), bw=rng.randint(veh, 2 * veh)))
    more = random.Random(str(roads))     # a stream of its own: second roads between two places, which take fewer vehicles or are shorter
    for r in list(roads):
        if more.random() < 0.3:
            roads.insert(more.randint(0, len(roads)), dict(a=r['b'], b=r['a'], len=more.choice([1, 2, r['len'], 2 * r['len']]), bw=more.randint(1, 2 * veh)))
    return dict(plat=plat, depot=depot, carry=carry, roads=roads, nodes=P + H, speed=5)


def scarce(cfg):
    """The same with depots that run out."""
    more = random.Random(str(cfg))
    for d in cfg['depot']:
        d['stock'] = [more.randint(6, 30) for _ in d['stock']]


def landscape(cfg, where):
    """where: graph node -> platform number"""
    from sampo.schemas.landscape import LandscapeConfiguration, ResourceHolder, Vehicle
    from sampo.schemas.landscape_graph import LandGraph, LandGraphNode, ResourceStorageUnit
    from sampo.schemas.resources import Material
    nodes = [LandGraphNode(f'p{i}', f'platform{i}', ResourceStorageUnit({f'm{m}': c for m, c in enumerate(p)}))
             for i, p in enumerate(cfg['plat'])]
    holders = []
    for i, d in enumerate(cfg['depot']):
        n = LandGraphNode(f'h{i}', f'depot{i}', ResourceStorageUnit({f'm{m}': c for m, c in enumerate(d['stock'])}))
        nodes.append(n)
        holders.append(ResourceHolder(f'H{i}', f'depot{i}',
                                      [Vehicle(f'v{i}_{j}', f'v{j}', [Material(f'm{m}', f'm{m}', c)
                                                                      for m, c in enumerate(cfg['carry'])])
                                       for j in range(d['vehicles'])], n))
    for r in cfg['roads']:
        nodes[r['a'] - 1].add_neighbours([(nodes[r['b'] - 1], r['len'], r['bw'])])
    for n, p in where.items():
        nodes[p].add_works(n)
    return LandscapeConfiguration(holders, LandGraph(nodes=nodes))


def deliveries(d):
    out = []
    for name, lst in (getattr(d, 'delivery', None) or {}).items():
        for n, s, f, h in lst:
            out.append(dict(m=int(name[1:]) + 1, n=int(n), s=sched.val(s), f=sched.val(f), h=int(h[5:]) + 1))
    return out


def needs(w, nmat):
    out = [0] * nmat
    for m in w.get('mats', []):
        out[int(m['m'][1:])] += m['n']
    return out


def instance(rng, chains):
    inst = gen.topo_instance(rng, n=(2, 8), contractors=(1, 2), edge_p=0.3, chains=chains, kinds=(1, 2), spec=0 if chains else rng.choice([0, 0.4]),
                             indep=0.4, time=0.2)
    nmat = rng.randint(1, 2)
    for w in inst['works']:
        w['mats'] = [] if w['svc'] else [dict(m=f'm{m}', n=rng.randint(1, 8)) for m in range(nmat) if rng.random() < 0.7]
    cfg = config(rng, nmat)
    hd = gen.heads(inst)
    asg = [rng.randrange(len(cfg['plat'])) for _ in range(len(inst['works']) + 1)]
    plat = [asg[hd[i + 1]] for i in range(len(inst['works']))]
    return inst, cfg, plat, nmat


def where_of(inst, wg, plat):
    return {wg[w['id']]: plat[i] for i, w in enumerate(inst['works']) if not w['svc']}


def schedules(arg):
    from sampo.schemas.time import Time
    from sampo.schemas.exceptions import NotEnoughMaterialsInDepots
    seed, count, short = arg
    rng = random.Random(seed)
    items = []
    for _ in range(count):
        chained = rng.random() < 0.25
        inst, cfg, plat, nmat = instance(rng, 0.4 if chained and not short else 0)
        if short:
            scarce(cfg)
        for name in sched.scheduler_configs():
            if name == 'rtopo' or rng.random() < 0.3:
                continue
            sd = rng.randint(0, 10 ** 6)
            tr = dict(cfg=cfg, rows=[], err='', refused='', works=[dict(p=plat[i] + 1, need=needs(w, nmat)) for i, w in enumerate(inst['works'])])

            def go():
                wg, cs, spec = gen.build(inst)
                land = landscape(cfg, where_of(inst, wg, plat))
                return sched.make_scheduler(name, sd).schedule(wg, cs, spec, start_time=Time(inst['t0']), landscape=land)[0]
            try:
                sc = core.limited(go, 60)
                for sw, r in zip(sc.works, sched.project_schedule(sc, inst)):
                    tr['rows'].append(dict(s=r['s'], p=plat[r['w'] - 1] + 1, need=needs(inst['works'][r['w'] - 1], nmat),
                                           dl=deliveries(sw.materials), pure=1, same=1, ask=0))
            except NotEnoughMaterialsInDepots:
                tr['refused'] = 'project'
            except Exception as e:
                tr['err'] = core.error_site(e)
            items.append((tr, dict(site=name + (' chains' if chained and not short else ''), seed=sd)))
    return items


def histories(arg):
    """find / can / deliver calls on a supply timeline alone."""
    from sampo.scheduler.timeline.hybrid_supply_timeline import HybridSupplyTimeline
    from sampo.schemas.time import Time
    from sampo.scheduler.timeline.to_start_supply_timeline import ToStartSupplyTimeline
    from sampo.schemas.exceptions import NotEnoughMaterialsInDepots
    seed, count, short, kind = arg
    rng = random.Random(seed)
    items = []
    for _ in range(count):
        inst, cfg, plat, nmat = instance(rng, 0)
        if short:
            scarce(cfg)
        tr = dict(cfg=cfg, rows=[], err='', refused='', works=[])

        def go():
            wg, cs, spec = gen.build(inst)
            tl = (HybridSupplyTimeline, ToStartSupplyTimeline)[kind](landscape(cfg, where_of(inst, wg, plat)))
            order = [i for i, w in enumerate(inst['works']) if not w['svc'] and w['mats']]
            rng.shuffle(order)
            now = 0
            for i in order:
                tr['works'] = [dict(p=plat[i] + 1, need=needs(inst['works'][i], nmat))]
                node = wg[inst['works'][i]['id']]
                mats = node.work_unit.need_materials()
                ask = rng.choice([now, now + rng.randint(0, 6), rng.randint(0, 30)])
                f1 = tl.find_min_material_time(node, Time(ask), mats)
                f2 = tl.find_min_material_time(node, Time(ask), mats)
                at = f1
                if rng.random() < 0.4:
                    late = f1 + rng.randint(1, 5)
                    if tl.can_schedule_at_the_moment(node, late, mats):
                        at = late
                d, when = tl.deliver_resources(node, at, mats)
                tr['rows'].append(dict(s=sched.val(when), p=plat[i] + 1, need=needs(inst['works'][i], nmat),
                                       dl=deliveries(d), pure=1 if f1 == f2 else 0, same=1 if when == at else 0, ask=ask))
                now = sched.val(when)
        try:
            core.limited(go, 30)
        except NotEnoughMaterialsInDepots:
            tr['refused'] = 'work'
        except Exception as e:
            tr['err'] = core.error_site(e)
        items.append((tr, dict(site=('supply timeline', 'to start supply timeline')[kind], seed=seed)))
    return items


def check(run):
    q = run.quick
    run.mc('SupplyMC', CFG.format(d=3 if q else 4, mistake='none', need=2), label='SupplyMC keeper', timeout=2000)
    for m in ('forget', 'vehicles'):
        run.mc('SupplyMC', CFG.format(d=3, mistake=m, need=2), label=f'SupplyMC mistake {m}', expect_violation=True)
    rng = random.Random(run.seed * 1000 + 9)
    n, m = (128, 480) if q else (2000, 9000)
    items = [x for b in core.pmap(schedules, [(rng.randint(0, 10 ** 9), n // 32, False) for _ in range(32)]) for x in b]
    items += [x for b in core.pmap(schedules, [(rng.randint(0, 10 ** 9), n // 64, True) for _ in range(32)]) for x in b]
    for sd in (90, 708, 3061):       # inputs of the two known findings
        items += schedules((sd, 1, False))
    run.coverage['schedules'] = len(items)
    items += [x for b in core.pmap(histories, [(rng.randint(0, 10 ** 9), m // 16, i % 3 == 0, i % 2) for i in range(16)]) for x in b]
    run.coverage['histories'] = m
    run.cover('refusals', sum(t['refused'] != '' for t, _ in items))
    run.cover('deliveries', sum(len(r['dl']) for t, _ in items for r in t['rows']))
    run.sample(items[0][0])
    for i in range(0, len(items), 4000):
        run.check_traces('SupplyTrace', items[i:i + 4000])
