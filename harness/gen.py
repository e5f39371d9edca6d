"""Random problem instances: a plain-data description (what the specification reads)
and the construction of the real SAMPO objects from it (what the code reads).

An instance is a dict:
  kinds       list of worker kind names (index = kind number - 1)
  works       list of dicts {id, svc, vol, reqs:[{k,vol,min,max}], prio, group, chain(bool: IFS son of previous)}
  edges       list of dicts {p, c, lag, t}   (1-based work numbers)
  contractors list of dicts {caps: [int per kind] (-1: kind absent)}
  t0          assigned parent time
  spec        list (per work) of dicts {contractors:[..], workers:[int per kind, -1 = free], time:-1|int, indep:0|1}
The first and last work of `works` are the start / finish service nodes.
"""
import random

KINDS = ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']


def topo_instance(rng: random.Random, *, n=(3, 9), kinds=(1, 3), contractors=(1, 3), lags=True, chains=0.25,
                  t0=True, prios=0.0, edge_p=0.3, maxcap=6, spec=0.0, hetero=True, zero_req=0.08, vol=(1, 14),
                  min0=0.1, partial=0.0, time=0.0, indep=0.0, est='default', ffs=0.0,
                  like=None):
    K = rng.randint(*kinds)
    names = rng.sample(KINDS, K)
    nw = rng.randint(*n)
    C = rng.randint(*contractors)
    caps = []
    # contractor 1 can do everything (feasible by construction)
    base = [rng.randint(2, maxcap) for _ in range(K)]
    caps.append(list(base))
    for _ in range(C - 1):
        if hetero:
            caps.append([rng.choice([-1, 0, 1, 2, 3, maxcap]) if rng.random() < 0.5 else rng.randint(1, maxcap)
                         for _ in range(K)])
        else:
            caps.append([rng.randint(2, maxcap) for _ in range(K)])
    rng.shuffle(caps)
    if like is not None:            # same worker kinds and contractors as another instance
        names, caps = list(like['kinds']), [list(c['caps']) for c in like['contractors']]
        K, C = len(names), len(caps)
        base = list(caps[like['full'][0]])
    full = [i for i, c in enumerate(caps) if all(c[k] >= base[k] for k in range(K))]

    def gen_reqs():
        if rng.random() < zero_req:
            return []
        ks = sorted(rng.sample(range(K), rng.randint(1, K)))
        rng.shuffle(ks)
        out = []
        for k in ks:
            mn = 0 if rng.random() < min0 else rng.randint(1, base[k])
            mx = rng.randint(max(mn, 1), max(mn, 1) + 4)
            out.append(dict(k=k + 1, vol=rng.randint(*vol), min=mn, max=mx))
        return out

    works = [dict(id='start', svc=1, reqs=[], vol=0, prio=1, chain=0)]
    edges = []
    prev_chain_end = None
    for i in range(nw):
        idx = i + 2
        chain = 1 if (i > 0 and rng.random() < chains and not works[-1]['svc']) else 0
        if chain:
            # same kinds and same limits as the head of the chain (what graph_restructuring builds)
            reqs = [dict(r, vol=rng.randint(0 if rng.random() < .2 else vol[0], vol[1])) for r in works[-1]['reqs']]
        else:
            reqs = gen_reqs()
        w = dict(id=f'w{i}', svc=0 if reqs else 1, reqs=reqs, vol=rng.randint(1, 20), prio=1, chain=chain)
        if chain:
            w['svc'] = works[-1]['svc']
        works.append(w)
        if chain:
            edges.append(dict(p=idx - 1, c=idx, lag=0, t='IFS'))
    nodes = len(works)
    # chain head number of each work
    head = {}
    for i in range(2, nodes + 1):
        head[i] = head[i - 1] if works[i - 1]['chain'] else i
    for c in range(2, nodes + 1):
        for p in range(2, c):
            if head[p] == head[c]:
                continue
            if rng.random() < edge_p / max(1, (c - 2) / 3):
                lag = 0
                if lags and rng.random() < 0.3:
                    lag = rng.randint(1, 6)
                edges.append(dict(p=p, c=c, lag=lag, t='FFS' if ffs and rng.random() < ffs else 'FS'))
    # ids in random (non-topological) naming
    perm = list(range(nw))
    rng.shuffle(perm)
    for i in range(nw):
        works[i + 1]['id'] = f'w{perm[i]:02d}'
    # random shuffle of priorities consistent with edges is done by the caller
    t = rng.choice([0, 0, 0, rng.randint(1, 30)]) if t0 else 0
    inst = dict(kinds=names, works=works, edges=edges, contractors=[dict(caps=c) for c in caps], t0=t)
    _connect(inst)
    if prios > 0 and rng.random() < prios:
        set_priorities(inst, rng)
    inst['spec'] = gen_spec(inst, rng, spec, full, partial, time, indep)
    inst['full'] = full
    inst['est'] = est
    return inst


def _connect(inst):
    works, edges = inst['works'], inst['edges']
    n = len(works)
    has_p = {e['c'] for e in edges}
    has_c = {e['p'] for e in edges}
    for i in range(2, n + 1):
        if i not in has_p:
            edges.append(dict(p=1, c=i, lag=0, t='FS'))
    works.append(dict(id='zfinish', svc=1, reqs=[], vol=0, prio=1, chain=0))
    for i in range(2, n + 1):
        if i not in has_c:
            edges.append(dict(p=i, c=n + 1, lag=0, t='FS'))
    if n == 1:
        edges.append(dict(p=1, c=2, lag=0, t='FS'))


def heads(inst):
    """head[i] = work number of the head of i's inseparable chain (1-based list, index 0 unused)."""
    h = [0] * (len(inst['works']) + 1)
    par = {e['c']: e['p'] for e in inst['edges'] if e['t'] == 'IFS'}
    for i in range(1, len(inst['works']) + 1):
        j = i
        while j in par:
            j = par[j]
        h[i] = j
    return h


def set_priorities(inst, rng, levels=3):
    """Priorities non-decreasing along edges, constant on a chain; finish has the maximum."""
    n = len(inst['works'])
    h = heads(inst)
    pr = {i: rng.randint(1, levels) for i in range(1, n + 1)}
    pr[1] = 1
    changed = True
    while changed:
        changed = False
        for i in range(1, n + 1):
            if pr[i] != pr[h[i]]:
                m = max(pr[i], pr[h[i]])
                pr[i] = pr[h[i]] = m
                changed = True
        for e in inst['edges']:
            if pr[e['c']] < pr[e['p']]:
                pr[e['c']] = pr[e['p']]
                changed = True
    pr[n] = max(pr.values())
    for i in range(1, n + 1):
        inst['works'][i - 1]['prio'] = pr[i]


def gen_spec(inst, rng, p, full, partial=0.0, time=0.0, indep=0.0, est='default', ffs=0.0,
                  like=None):
    K = len(inst['kinds'])
    h = heads(inst)
    out = []
    for i, w in enumerate(inst['works']):
        s = dict(contractors=[], workers=[-1] * K, time=-1, indep=0)
        if p > 0 and h[i + 1] == i + 1 and not w['svc'] and rng.random() < p:
            r = rng.random()
            able = rng.choice(full)       # the contractor that keeps the instance feasible
            if r < 0.45:
                cs = {able}
                for c in range(len(inst['contractors'])):
                    if rng.random() < 0.3:
                        cs.add(c)
                s['contractors'] = sorted(c + 1 for c in cs)
            if r > 0.3 and w['reqs']:
                cap = inst['contractors'][able]['caps']
                for q in w['reqs']:
                    if rng.random() < partial:
                        continue
                    lo, hi = max(1, q['min']), min(q['max'], cap[q['k'] - 1])
                    if lo <= hi:
                        s['workers'][q['k'] - 1] = rng.randint(lo, hi)
            if time and rng.random() < time:
                s['time'] = rng.randint(0, 12)
            if indep and rng.random() < indep:
                s['indep'] = 1
        out.append(s)
    return out


# ---------------------------------------------------------------------------------------------------------------
# real objects

def build(inst):
    from sampo.schemas.graph import GraphNode, WorkGraph, EdgeType
    from sampo.schemas.works import WorkUnit
    from sampo.schemas.requirements import WorkerReq, ZoneReq, MaterialReq
    from sampo.schemas.resources import Worker
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.schedule_spec import ScheduleSpec
    from sampo.schemas.time import Time
    et = {e.value: e for e in EdgeType}
    kinds = inst['kinds']
    nodes = []
    by_child = {}
    for e in inst['edges']:
        by_child.setdefault(e['c'], []).append(e)
    for i, w in enumerate(inst['works']):
        reqs = [WorkerReq(kinds[r['k'] - 1], Time(r['vol']), r['min'], r['max']) for r in w['reqs']]
        zr = [ZoneReq(z['z'], z['s']) for z in w.get('zones', [])]
        mr = [MaterialReq(m['m'], m['n']) for m in w.get('mats', [])]
        wu = WorkUnit(w['id'], w.get('name', w['id']), worker_reqs=reqs, zone_reqs=zr, material_reqs=mr,
                      is_service_unit=bool(w['svc']), volume=w['vol'], priority=w['prio'],
                      group=w.get('group', 'g'))
        nodes.append(GraphNode(wu, [(nodes[e['p'] - 1], e['lag'], et[e['t']]) for e in by_child.get(i + 1, [])]))
    wg = WorkGraph(nodes[0], nodes[-1])
    contractors = []
    for ci, c in enumerate(inst['contractors']):
        cid = contractor_id(ci)
        ks = list(range(len(kinds)))
        if c.get('order'):
            ks = c['order']
        workers = {kinds[k]: Worker(f'{cid}_{kinds[k]}', kinds[k], c['caps'][k], contractor_id=cid if ci % 2 else '',
                                    cost_one_unit=(c['costs'][k] if 'costs' in c else None))
                   for k in ks if c['caps'][k] >= 0}
        contractors.append(Contractor(id=cid, name=f'Contractor {ci}', workers=workers, equipments={}))
    spec = ScheduleSpec()
    for i, s in enumerate(inst.get('spec', [])):
        wid = inst['works'][i]['id']
        if s['contractors']:
            spec.assign_contractors(wid, {contractor_id(c - 1) for c in s['contractors']})
        ws = {kinds[k]: v for k, v in enumerate(s['workers']) if v >= 0}
        if ws:
            spec.assign_workers_dict(wid, ws)
        if s['time'] >= 0:
            spec.set_exec_time(wid, Time(s['time']))
        if s['indep']:
            spec.get_work_spec(wid).is_independent = True
    return wg, contractors, spec


def contractor_id(i):
    return f'c{i}'


def estimator(inst):
    """The work estimator of the instance: None (the default one) or a simple exact one defined here."""
    if inst.get('est', 'default') == 'default':
        return None
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    from sampo.schemas.time import Time

    class LinearEstimator(DefaultWorkEstimator):
        """ceil(volume / people) of the slowest kind, plus one (spec: LinDuration)."""

        def estimate_time(self, work_unit, worker_list, *a, **kw):
            if not worker_list or not work_unit.worker_reqs:
                return Time(0)
            have = {}
            for w in worker_list:
                have[w.name] = have.get(w.name, 0) + w.count
            t = 0
            for q in work_unit.worker_reqs:
                if q.min_count == 0:
                    continue
                n = have.get(q.kind, 0)
                if n < q.min_count:
                    return Time.inf()
                t = max(t, -(-int(q.volume) // int(n)))
            return Time(t + 1)
    return LinearEstimator()


def combine(a, b):
    """Both projects as one instance (works of b are renumbered); used for two projects on one timeline."""
    off = len(a['works'])
    out = dict(a)
    out['works'] = a['works'] + [dict(w, id='B_' + w['id']) for w in b['works']]
    out['edges'] = a['edges'] + [dict(e, p=e['p'] + off, c=e['c'] + off) for e in b['edges']]
    out['spec'] = a['spec'] + b['spec']
    out['t0'] = min(a['t0'], b['t0'])
    return out
