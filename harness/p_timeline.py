"""P07: the Momentum and just-in-time timelines (spec/Timeline.tla)."""
import json
import random
import re

import core
import gen

CFG = '''SPECIFICATION {spec}
CONSTANTS Caps <- {caps}
 MaxEx = {ex}
 MaxPt = {pt}
 Depth = {depth}
 Inds = {inds}
VIEW View
INVARIANTS {inv}
'''
INV = 'InvMomCapacity InvJitCapacity InvMomEarliest InvBag InvJitSound'
KIND = gen.KINDS


class Table:
    """Estimator that returns the given working time of a work, whatever the crew."""


def table_estimator(times):
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    from sampo.schemas.time import Time

    class T(DefaultWorkEstimator):
        def estimate_time(self, work_unit, worker_list, *a, **kw):
            return Time(times.get(work_unit.id, 0))
    return T()


def make_timeline(kind, contractors):
    from sampo.scheduler.timeline import MomentumTimeline, JustInTimeTimeline
    from sampo.scheduler.utils import get_worker_contractor_pool
    from sampo.schemas.landscape import LandscapeConfiguration
    pool = get_worker_contractor_pool(contractors)
    cls = MomentumTimeline if kind == 'mom' else JustInTimeTimeline
    return cls(pool, LandscapeConfiguration()), pool


def make_contractors(caps):
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.resources import Worker
    return [Contractor(id=f'c{i}', name=f'c{i}', equipments={},
                       workers={KIND[k]: Worker(f'c{i}{k}', KIND[k], n, contractor_id=f'c{i}')
                                for k, n in enumerate(row) if n >= 0}) for i, row in enumerate(caps)]


def val(t):
    import sched
    return sched.val(t)


def replay(beh, kind):
    """Step a TLC behaviour through the real timeline; returns a trace."""
    from sampo.schemas.graph import GraphNode
    from sampo.schemas.works import WorkUnit
    from sampo.schemas.requirements import WorkerReq
    from sampo.schemas.schedule_spec import WorkSpec
    from sampo.schemas.time import Time
    cap = beh['cap']
    ev = []
    tr = dict(kind=kind, cap=cap, ev=ev, err='')

    def go():
        cs = make_contractors(cap)
        tl, pool = make_timeline(kind, cs)
        est = table_estimator({f'w{i}': h['ex'] for i, h in enumerate(beh['hist'])})
        n2s = {}
        start = GraphNode(WorkUnit('start', 'start', is_service_unit=True), [])
        tl.schedule(start, n2s, [], cs[0], WorkSpec(), Time(0), None, Time(0), est)
        for i, h in enumerate(beh['hist']):
            tm = h['team']
            reqs = [WorkerReq(KIND[x['k'] - 1], Time(1), x['n'], x['n']) for x in tm]
            node = GraphNode(WorkUnit(f'w{i}', f'w{i}', worker_reqs=reqs), [])
            c = cs[tm[0]['c'] - 1]
            team = [pool[KIND[x['k'] - 1]][c.id].copy().with_count(x['n']) for x in tm]
            if i % 2:
                team.reverse()      # the order of a crew means nothing
            sp = WorkSpec(is_independent=bool(h['ind']))
            pt = Time(h['pt'])
            q1 = tl.find_min_start_time_with_additional(node, team, n2s, sp, None, pt, est)
            q2 = tl.find_min_start_time_with_additional(node, team, n2s, sp, None, pt, est)
            ev.append(dict(op='find', team=tm, pt=h['pt'], ex=h['ex'], ind=h['ind'], st=val(q1[0]), ft=val(q1[1]),
                           st2=val(q2[0]), want=h['mom'] if kind == 'mom' else h['jit']))
            at = h['mom'] if kind == 'mom' else h['js']
            tl.schedule(node, n2s, team, c, sp, Time(at) if kind == 'jit' else None, None, pt, est)
            sw = n2s[node]
            ev.append(dict(op='put', team=tm, ind=h['ind'], at=at, till=at + h['ex'],
                           rows=[dict(s=val(sw.start_time), f=val(sw.finish_time))]))
    try:
        core.limited(go, 30)
    except Exception as e:
        tr['err'] = core.error_site(e)
    return tr


def random_run(rng, kind):
    """Place the works of a random project by hand: random crews, extra probes, late starts (leaving gaps)."""
    from sampo.schemas.schedule_spec import WorkSpec
    from sampo.schemas.time import Time
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    inst = gen.topo_instance(rng, n=(4, 14), kinds=(1, 3), contractors=(1, 2), maxcap=6, chains=0.25, edge_p=0.25,
                             t0=False, min0=0.0, hetero=False)
    for w in inst['works']:
        for q in w['reqs']:
            q['min'] = min(q['min'], 2)
    ev = []
    tr = dict(kind=kind, cap=[c['caps'] for c in inst['contractors']], ev=ev, err='')
    indp = rng.choice([0, 0, 0.15])

    def go():
        wg, cs, _ = gen.build(inst)
        num = {w['id']: i + 1 for i, w in enumerate(inst['works'])}
        tl, pool = make_timeline(kind, cs)
        est = gen.estimator(dict(est='linear')) if rng.random() < 0.5 else DefaultWorkEstimator()
        n2s = {}
        done = {}
        heads = [n for n in wg.nodes if not n.is_inseparable_son()]
        chain_of = {n: n.get_inseparable_chain_with_self() for n in heads}
        left = list(heads)
        edges = inst['edges']
        while left:
            ready = [n for n in left if all(e['p'] in done or any(num[m.id] == e['p'] for m in chain_of[n])
                                            for m in chain_of[n] for e in edges if e['c'] == num[m.id])]
            node = rng.choice(ready)
            reqs = inst['works'][num[node.id] - 1]['reqs']
            ci = rng.randrange(len(cs))
            caps = inst['contractors'][ci]['caps']
            tm, team = [], []
            for q in reqs:
                n = min(caps[q['k'] - 1], max(1, rng.randint(q['min'], max(q['min'], q['max']))))
                tm.append(dict(k=q['k'], n=n, c=ci + 1))
                team.append(pool[inst['kinds'][q['k'] - 1]][cs[ci].id].copy().with_count(n))
            keep = [i for i, q in enumerate(reqs) if q['min'] > 0 or rng.random() < 0.7] or list(range(min(1, len(reqs))))
            tm, team = [tm[i] for i in keep], [team[i] for i in keep]     # kinds of no workers may be left out
            rng.shuffle(team)
            ind = 1 if tm and rng.random() < indp else 0
            sp = WorkSpec(is_independent=bool(ind))
            apt = rng.choice([0, 0, 0, rng.randint(0, 30)])
            w = num[node.id]
            pt = max([apt] + [done[e['p']] + e['lag'] for e in edges if e['c'] == w])
            q1 = tl.find_min_start_time_with_additional(node, team, n2s, sp, None, Time(apt), est)
            q2 = tl.find_min_start_time_with_additional(node, team, n2s, sp, None, Time(apt), est)
            st, ft = val(q1[0]), val(q1[1])
            chain = chain_of[node]
            if len(done) > 0:
                ev.append(dict(op='find', team=tm, pt=pt, ex=ft - st, ind=ind, st=st, ft=ft, st2=val(q2[0]), want=-1))
            # probes
            if tm and len(done) > 0:
                for _ in range(2):
                    at = max(0, st + rng.randint(-4, 6))
                    ex = max(1, rng.randint(1, 1 + max(1, ft - st)))
                    res = tl.can_schedule_at_the_moment(node, team, sp, n2s, Time(at), Time(ex))
                    ready_ = 1
                    if kind == 'jit':
                        ready_ = 1 if max([0] + [done[e['p']] + e['lag'] for e in edges if e['c'] == w]) <= at else 0
                    ev.append(dict(op='can', team=tm, at=at, ex=ex, ind=ind, ready=ready_, res=1 if res else 0))
            # commit
            at, till = st, -1
            if kind == 'mom':
                till = ft
                astart = None
                if rng.random() < 0.35 and tm and len(chain) == 1 and not ind:
                    late = st + rng.randint(1, 8)
                    if ft > st:
                        ok = tl.can_schedule_at_the_moment(node, team, sp, n2s, Time(late), Time(ft - st))
                        ev.append(dict(op='can', team=tm, at=late, ex=ft - st, ind=ind, ready=1, res=1 if ok else 0))
                        if ok:
                            astart, at, till = Time(late), late, late + ft - st
                elif len(done) == 0 or rng.random() < 0.5:
                    astart = Time(st)
                    if len(chain) > 1:
                        till = -1        # a given start makes the lags inside the chain shorter (they count from it)
                tl.schedule(node, n2s, team, cs[ci], sp, astart, None, Time(apt), est)
            else:
                at = max(pt, st) + (rng.randint(0, 5) if rng.random() < 0.3 else 0)
                tl.schedule(node, n2s, team, cs[ci], sp, Time(at), None, Time(apt), est)
            rows = [n2s[m] for m in chain]
            for m in chain:
                done[num[m.id]] = val(n2s[m].finish_time)
            ev.append(dict(op='put', team=tm, ind=ind, at=at, till=till,
                           rows=[dict(s=val(r.start_time), f=val(r.finish_time)) for r in rows]))
            left.remove(node)
    try:
        core.limited(go, 40)
    except Exception as e:
        tr['err'] = core.error_site(e)
    return tr


def batch(arg):
    seed, count, behs = arg
    rng = random.Random(seed)
    items = []
    for b in behs:
        for kind in ('mom', 'jit'):
            items.append((replay(b, kind), dict(site=kind + ' replay')))
    for _ in range(count):
        kind = rng.choice(['mom', 'mom', 'jit'])
        items.append((random_run(rng, kind), dict(site=kind + ' random')))
    return items


def behaviours(run, num, depth):
    r = run.mc('TimelineMC', CFG.format(spec='SimSpec', caps='C3', ex=4, pt=6, depth=depth, inds='{0,1}', inv='Dump'),
               label=f'TimelineMC simulated behaviours, depth {depth}', workers=1,
               extra=['-simulate', f'num={num}', '-depth', str(depth + 2), '-seed', str(run.seed)])
    out = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'<<"BEH", "(.*?)">>', r.out)]
    uniq = {json.dumps(b, sort_keys=True): b for b in out}
    return [uniq[k] for k in sorted(uniq)]


def check(run):
    run.mc('TimelineMC', CFG.format(spec='Spec', caps='C1' if run.quick else 'C2', ex=2, pt=2, depth=3 if run.quick else 2,
                                    inds='{0,1}', inv=INV), label='TimelineMC exhaustive', timeout=1500)
    if not run.quick:
        run.mc('TimelineMC', CFG.format(spec='Spec', caps='C1', ex=3, pt=3, depth=4, inds='{0,1}', inv=INV),
               label='TimelineMC exhaustive, one kind, 4 placements', timeout=3000)
    behs = behaviours(run, 250 if run.quick else 4000, 7)
    run.coverage['tlc_behaviours_replayed'] = len(behs)
    n = 600 if run.quick else 12000
    rng = random.Random(run.seed)
    jobs = [(rng.randint(0, 10 ** 9), n // 16, behs[i::16]) for i in range(16)]
    items = [x for b in core.pmap(batch, jobs) for x in b]
    for t, m in items:
        for e in t['ev']:
            run.cover('calls_' + e['op'])
    run.sample(items[-1][0])
    for i in range(0, len(items), 4000):
        run.check_traces('TimelineTrace', items[i:i + 4000])
