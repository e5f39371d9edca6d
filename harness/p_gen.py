"""P27: synthetic projects (spec/Gen.tla). Everything is made in two processes with different hash seeds."""
import hashlib
import json
import os
import random
import sys

import core
import env
import gen
import p_pure
import p_supply
import sched

CFG = '''SPECIFICATION Spec
CONSTANTS Mistake = "{m}"
Sizes = {{2, 3, 5}}
Small = {{1, 2}}
Top = {n}
INVARIANT InvBorders
{more}
'''
PROPS = ['driver', 'fitter', 'handyman', 'electrician', 'manager', 'engineer']


def digest(x):
    return hashlib.md5(json.dumps(x, default=str).encode()).hexdigest()


def vol(q):
    return float(getattr(q.volume, 'value', q.volume))


def plain(wg):
    """A graph as data, ids included."""
    return [(n.id, n.work_unit.model_name['granular_name'], n.work_unit.volume, n.work_unit.group, [(q.kind, vol(q),
             q.min_count, q.max_count) for q in n.work_unit.worker_reqs], [(m.kind, m.count) for m in n.work_unit.material_reqs],
             [(e.start.id, e.type.value, float(e.lag)) for e in n.edges_to]) for n in wg.nodes]


def stable(wg):
    """Without the ids of start and finish, which no seed decides."""
    ends = {wg.start.id: 'start', wg.finish.id: 'finish'}
    return [
        [ends.get(x[0], x[0])] + list(x[1:6]) + [[[ends.get(e[0], e[0])] + list(e[1:]) for e in x[6]]] for x in plain(wg)]


def gname(n):
    return n.work_unit.model_name['granular_name']


def graph(rng):
    from sampo.generator import SyntheticGraphType
    from sampo.generator.base import SimpleSynthetic
    ss = SimpleSynthetic(rng.choice([rng.randint(0, 999), random.Random(rng.randint(0, 999))]))
    mode = rng.choice(list(SyntheticGraphType))
    p = dict(cc=0, bottom=0, top=0)
    small = rng.random() < 0.2
    if small:
        wg = ss.small_work_graph('C1')
    else:
        for k in rng.sample(list(p), rng.choice([1, 1, 1, 2])):
            p[k] = rng.randint(1, 3) if k == 'cc' else rng.choice([10, 50, 60, 100, 120, 200, rng.randint(20, 250)])
        if p['top'] and p['top'] < 50:
            p['top'] = 50           # no graph is smaller than a small one
        wg = ss.work_graph(mode, cluster_counts=p['cc'], bottom_border=p['bottom'], top_border=p['top'])
    ns = wg.nodes
    num = {n.id: i + 1 for i, n in enumerate(ns)}
    hand = [n for n in ns if gname(n) == 'cluster handing']
    cl = lambda n: int(n.work_unit.group.split(':')[0][1:])
    hn = {n.id: i + 1 for i, n in enumerate(hand)}
    handing = [dict(c=cl(n), after=[hn[e.start.id] for e in n.edges_to if e.start.id in hn], roads=[cl(e.start) for e in n.edges_to if gname(e.start) == 'minimal road'])
               for n in hand]
    reqs = {(q.min_count, q.max_count, round(vol(q) * 100)) for n in ns for q in n.work_unit.worker_reqs}
    return dict(kind='graph', mode=mode.name, p=p, small=int(small), works=sum(not n.work_unit.is_service_unit for n in ns), nodes=len(ns), ids=[n.id for n in ns],
                edges=[[num[e.start.id], num[n.id]] for n in ns for e in n.edges_to], handing=handing,
                reqs=[dict(lo=a, hi=b, vol=c) for a, b, c in sorted(reqs)]), stable(wg)


def staff(rng):
    from sampo.generator.environment.contractor import get_contractor, get_contractor_with_equal_proportions
    pack = rng.choice([0, 50, 100, 150, 230, 1000, rng.randint(100, 3000)])
    prop = {k: rng.randint(1, 9) for k in rng.sample(PROPS, rng.randint(1, 5))}
    some = rng.sample(list(prop), rng.randint(1, len(prop))) if rng.random() < 0.4 else None
    sigma = rng.choice([0, 10, 50])
    if rng.random() < 0.3:
        k = rng.randint(1, 3)
        packs = [rng.randint(1, 20) for _ in range(k)]
        cs = get_contractor_with_equal_proportions(packs if rng.random() < 0.6 else packs[0], k)
        if len(cs) != k or len({c.id for c in cs}) != k:
            raise AssertionError('number of contractors')
        j = rng.randrange(k)
        c, prop, some, sigma, pack = cs[j], dict(driver=6, fitter=6, handyman=8, electrician=2, manager=3, engineer=2), None, 10, 0
        got = [dict(k=w.name, n=w.count) for w in c.workers.values()]
        return dict(kind='staff', scale=packs[j] * 100 if min(packs) == max(packs) else max(packs) * 100, sigma=1, kinds=sorted(prop), ask=[dict(k=k, n=n) for k, n in prop.items()], got=got), 0
    ident = rng.choice([None, 'me'])
    c = get_contractor(pack / 100, sigma / 100, dict(prop), some, random.Random(rng.randint(0, 999)), ident, rng.choice([None, 'Me']))
    if any(w.contractor_id != c.id or n != w.name for n, w in c.workers.items()) or ident and c.id != ident:
        raise AssertionError('whose workers')
    got = [dict(k=w.name, n=int(w.count)) for w in c.workers.values()]
    return dict(kind='staff', scale=pack, sigma=sigma, kinds=sorted(some or prop), ask=[dict(k=k, n=n) for k, n in prop.items()], got=got), (got, c.id)


def small(rng, **kw):
    inst = gen.topo_instance(rng, n=(1, 7), contractors=(1, 1), kinds=(1, 3), **kw)
    return inst, gen.build(inst)[0]


def bygraph(rng):
    from sampo.generator.environment.contractor_by_wg import ContractorGenerationMethod as M, get_contractor_by_wg
    inst, wg = small(rng, chains=0.2, min0=0)
    how = rng.choice(list(M))
    scale = rng.choice([100, 100, 150, 200, 275, 50, 99])
    reqs = [dict(k=q.kind, lo=q.min_count, hi=q.max_count) for n in wg.nodes for q in n.work_unit.worker_reqs]
    tr = dict(kind='bygraph', how=how.value, scale=scale, reqs=reqs, refused=0, got=[])
    try:
        c = get_contractor_by_wg(wg, scale / 100, how)
        tr['got'] = [dict(k=n if w.name == n else '?', n=int(w.count)) for n, w in c.workers.items()]
    except ValueError:
        tr['refused'] = 1
    return tr, sorted(map(str, tr['got']))


def materials(rng):
    from sampo.generator.base import SimpleSynthetic
    inst, wg = small(rng, chains=0.2)
    names = rng.choice([None, [f'm{i}' for i in range(rng.randint(1, 5))]])
    k = len(names) if names else 6
    lo, hi = rng.choice([None, rng.randint(0, k)]), rng.choice([None, rng.randint(0, k)])
    if rng.random() < 0.1:
        hi = k + 1
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    tr = dict(kind='materials', names=names or ['stone', 'brick', 'sand', 'rubble', 'concrete', 'metal'], refused=0, works=[])
    tr['top'] = k if hi is None else hi
    tr['bottom'] = lo if lo is not None else min(2 if not names else k // 2, tr['top'])
    try:
        wg = SimpleSynthetic(rng.randint(0, 999)).set_materials_for_wg(wg, names, lo, hi)
        tr['works'] = [dict(svc=int(n.work_unit.is_service_unit), mats=[dict(k=m.kind, n=m.count) for m in n.work_unit.material_reqs]) for n in wg.nodes]
    except ValueError:
        tr['refused'] = 1
    return tr, tr['works']


def names(rng):
    from sampo.generator.base import SimpleSynthetic
    from sampo.generator.pipeline.extension import extend_names, extend_resources
    if rng.random() < 0.3:
        wg = SimpleSynthetic(rng.randint(0, 999)).small_work_graph()
    else:
        inst, wg = small(rng, chains=0.2)
        pool = ['dig', 'lay', 'roof']
        for n in wg.nodes:
            if not n.work_unit.is_service_unit:
                n.work_unit.model_name['granular_name'] = n.work_unit.display_name = rng.choice(pool)
    before = stable(wg)
    of_works = rng.random() < 0.5
    have = len({gname(n) for n in wg.nodes if n.id not in (wg.start.id, wg.finish.id)} if of_works else {q.kind for n in wg.nodes for q in n.work_unit.worker_reqs})
    want = rng.choice([0, have, have + 1, 2 * have + 1, 3 * have, have + rng.randint(0, 9)])
    big = (extend_names if of_works else extend_resources)(want, wg, random.Random(rng.randint(0, 999)))
    after = stable(big)
    rest = before == stable(wg) and len(before) == len(after)
    out = []
    for x, y in zip(before, after):
        pairs = [(x[1], y[1])] if of_works else [(a[0], b[0]) for a, b in zip(x[4], y[4])]
        strip = lambda z: [z[0]] + ([] if of_works else [z[1]]) + list(z[2:4]) + [[q if of_works else list(q)[1:] for q in z[4]]] + list(z[5:])
        rest = rest and strip(x) == strip(y) and len(x[4]) == len(y[4])
        if of_works and x[0] in ('start', 'finish'):
            rest = rest and x == y
            continue
        out += [dict(old=a, add=b[len(a):] if b.startswith(a) else '?') for a, b in pairs]
    return dict(kind='names', want=want, names=out, rest=int(rest)), after


def land(rng):
    from sampo.generator.base import SimpleSynthetic
    from sampo.schemas.requirements import MaterialReq
    from sampo.schemas.time import Time
    sd = rng.randint(0, 999)
    ss = SimpleSynthetic(sd)
    inst = None
    if rng.random() < 0.25:
        wg = ss.set_materials_for_wg(ss.small_work_graph(), *rng.choice([(), (['m0', 'm1'],)]))
    else:
        inst = gen.topo_instance(rng, n=(1, 9), contractors=(1, 1), kinds=(1, 3), chains=rng.choice([0, 0.4]))
        wg, cs, spec = gen.build(inst)
        for n in wg.nodes:
            if not n.work_unit.is_service_unit:
                n.work_unit.material_reqs = [MaterialReq(f'm{m}', rng.choice([1, 2, 3, rng.randint(1, 99)]), f'm{m}') for m in range(3) if rng.random() < 0.6]
    la = ss.synthetic_landscape(wg)
    mats = sorted({m.kind for n in wg.nodes for m in n.work_unit.material_reqs})
    ps = la.platforms
    pn = {id(p): i + 1 for i, p in enumerate(ps)}
    caps = lambda v: [v.resource_storage_unit.capacity.get(m, 0) for m in mats]
    head = {}
    for n in wg.nodes:
        for m in n.get_inseparable_chain_with_self() if not n.is_inseparable_son() else []:
            head[m.id] = n.id
    hid = {h: i for i, h in enumerate(dict.fromkeys(head.values()))}
    need = lambda n: [sum(m.count for m in n.work_unit.material_reqs if m.kind == k) for k in mats]
    where = [dict(svc=int(n.work_unit.is_service_unit), chain=hid[head[n.id]], at=[pn[id(p)] for p in ps if n in p.works], need=need(n)) for n in wg.nodes]
    tr = dict(kind='land', plat=[caps(p) for p in ps], where=where, depots=len(la.holders), places=len(ps), reach=sum(len(la.get_sorted_holders(p)) == len(la.holders) for p in ps),
              carry=int(all(v.resources.get(m, 0) > 0 for h in la.holders for v in h.vehicles for m in mats)))
    dig = (where, [caps(v) for v in la.lg.nodes], [(la.lg.node2ind[e.start], la.lg.node2ind[e.finish], e.weight, e.bandwidth) for e in la.lg.edges],
           [[sorted(v.resources.items()) for v in h.vehicles] for h in la.holders])
    second = None
    if inst is not None and not any(w['chain'] for w in inst['works']) and mats:
        nn = {id(v): i + 1 for i, v in enumerate(ps + [h.node for h in la.holders])}
        cfg = dict(plat=tr['plat'], depot=[dict(stock=caps(h.node), vehicles=len(h.vehicles), node=nn[id(h.node)]) for h in la.holders], carry=[la.holders[0].vehicles[0].resources[m] for m in mats],
                   roads=[dict(a=nn[id(e.start)], b=nn[id(e.finish)], len=e.weight, bw=e.bandwidth) for e in la.lg.edges], nodes=len(nn), speed=5)
        second = dict(cfg=cfg, rows=[], err='', refused='', works=[])
        hname = {h.name: i + 1 for i, h in enumerate(la.holders)}
        hname.update({h.id: i + 1 for i, h in enumerate(la.holders)})
        name = rng.choice([n for n in sched.scheduler_configs() if n != 'rtopo'])
        s = sched.make_scheduler(name, sd).schedule(wg, cs, spec, start_time=Time(0), landscape=la)[0]
        byid = {n.id: (w, n) for w, n in zip(where, wg.nodes)}
        for sw in s.works:
            w, n = byid[sw.id]
            dl = [dict(m=mats.index(k) + 1, n=int(c), s=sched.val(a), f=sched.val(b), h=hname[h]) for k, lst in (getattr(sw.materials, 'delivery', None) or {}).items() for c, a, b, h in lst]
            second['rows'].append(dict(s=sched.val(sw.start_time), p=(w['at'] or [1])[0], need=w['need'], dl=dl, pure=1, same=1, ask=0))
    return dict(tr, second=second), dig


def sampled(rng):
    from sampo.utilities.sampler import Sampler
    from sampo.utilities.sampler.types import MinMax
    from sampo.schemas.graph import EdgeType
    s = Sampler(rng.randint(0, 999))
    vlo, clo, wlo = rng.randint(1, 9), rng.randint(1, 9), rng.randint(0, 50)
    vhi, chi, whi = vlo + rng.choice([0, 5, 40]), clo + rng.choice([0, 3, 90]), wlo + rng.choice([0, 10, 100])
    kw = dict(group='g', work_volume=MinMax(wlo, whi), req_volume=MinMax(vlo, vhi), req_worker_count=MinMax(clo, chi))
    u = s.work_unit('dig', rng.choice(['', 'me']), **kw)
    num, den = rng.choice([(1, 1), (2, 1), (3, 1), (5, 1)])
    v = s.similar_work_unit(u, num / den)
    reqs = lambda x: [dict(k=q.kind, vol=int(q.volume), lo=q.min_count, hi=q.max_count) for q in x.worker_reqs]
    n = s.graph_node('lay', [], **kw)
    m = s.similar_graph_node(n, [(n, 0, EdgeType.FinishStart)], num / den)
    ids = {u.id, v.id, n.id, m.id}
    rest = v.group == u.group == 'g' and v.model_name == u.model_name and v.id != u.id and abs(v.volume - u.volume * num / den) < 1e-9 and n.work_unit.group == 'g' \
        and abs(m.work_unit.volume - n.work_unit.volume * num / den) < 1e-9 and '' not in ids and len(ids) == 4 and m.parents == [n] and m.work_unit.name == n.work_unit.name
    return dict(kind='sampled', vlo=vlo, vhi=vhi, clo=clo, chi=chi, wlo=wlo * 1000, whi=whi * 1000, scale=100 * num // den, rest=int(rest),
                made=[dict(reqs=reqs(a), volume=round(a.volume * 1000), like=reqs(b)) for a, b in ((u, v), (n.work_unit, m.work_unit))]), \
        (reqs(u), u.volume, u.id if u.id != 'me' else '', reqs(n.work_unit), v.id, reqs(m.work_unit), m.id)


MAKERS = [graph, staff, bygraph, materials, names, land, sampled]


def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    env.load()
    src, dst = sys.argv[1:3]
    out = []
    for sd in json.load(open(src)):
        rng = random.Random(sd)
        fn = rng.choice(MAKERS)
        try:
            tr, dig = core.limited(fn, 60, rng)
            out.append(dict(tr=tr, dig=digest(dig), site=fn.__name__, err=''))
        except Exception as e:
            out.append(dict(tr=dict(kind=fn.__name__), dig='', site=core.error_site(e), err=core.error_site(e)))
    with open(dst, 'w') as fh:
        json.dump(out, fh)


def check(run):
    q = run.quick
    run.mc('GenMC', CFG.format(m='', n=9 if q else 16, more='PROPERTY Ends'), 'clusters within borders')
    for m in ('late', 'more', 'small', 'second'):
        run.mc('GenMC', CFG.format(m=m, n=6, more=''), f'clusters, {m}', expect_violation=True)
    rng = random.Random(run.seed * 1000 + 27)
    seeds = [f'{rng.randint(0, 10 ** 9)}' for _ in range(900 if q else 8000)]
    first, other = p_pure.processes(seeds, [rng.randint(1, 1000), rng.randint(1001, 2000)], 800 if q else 6000, script=__file__)
    items, supply = [], []
    for a, b, sd in zip(first, other, seeds):
        err = a['err'] or b['err']
        tr = dict(a['tr'], both=[a['dig'], b['dig']], err=err)
        second = tr.pop('second', None)
        items.append((tr, dict(site=err or a['site'], seed=sd)))
        run.cover(a['site'])
        if second and not err:
            supply.append((second, dict(site='schedule in the landscape', seed=sd)))
    run.cover('schedules with synthetic landscapes', len(supply))
    run.sample(next(t for t, _ in items if t['kind'] == 'bygraph'))
    run.check_traces('GenTrace', items)
    run.check_traces('SupplyTrace', supply)


if __name__ == '__main__':
    main()
