"""P08: access zones (spec/Zones.tla): schedules of all schedulers and recorded histories of the zone timeline."""
import random

import core
import gen
import sched

CFG = '''SPECIFICATION Spec
CONSTANTS Depth = {d}
 MaxPt = {pt}
 MaxEx = {ex}
 HoldChange = {hold}
INVARIANTS InvStatus InvSame InvCompatible InvTrans
'''


def matrix(rng, uniform):
    if uniform:
        c = rng.choice([0, 0, 1, 2, 5])
        return [[0, c, c], [c, rng.choice([0, c]), c], [c, c, rng.choice([0, c])]]
    return [[rng.choice([0, 1, 2, 4, 7]) for _ in range(3)] for _ in range(3)]


def config(rng, uniform):
    nz = rng.randint(1, 3)
    return dict(init=[rng.choice([0, 1, 2]) for _ in range(nz)],
                last=[rng.choice([0, 0, 1, 2]) for _ in range(nz)] if rng.random() < 0.5 else [0] * nz,
                cost=matrix(rng, uniform))


def landscape(cfg):
    import numpy as np
    from sampo.schemas.landscape import LandscapeConfiguration
    from sampo.schemas.zones import ZoneConfiguration
    return LandscapeConfiguration(zone_config=ZoneConfiguration(
        start_statuses={f'z{i}': s for i, s in enumerate(cfg['init'])},
        end_statuses={f'z{i}': s for i, s in enumerate(cfg['last']) if s},
        time_costs=np.array(cfg['cost'])))


def trans(lst):
    return [dict(z=int(x.name[1:]) + 1, **{'from': int(x.from_status)}, to=int(x.to_status),
                 s=sched.val(x.start_time), f=sched.val(x.end_time)) for x in lst]


def row(s, f, req, pre, ask=-1, lim=-1, pure=1, can=-1):
    return dict(s=s, f=f, req=[dict(z=z['z'] + 1, q=z['s']) for z in req], pre=pre, ask=ask, lim=lim, pure=pure, can=can)


def schedules(arg):
    from sampo.schemas.time import Time
    seed, count = arg
    rng = random.Random(seed)
    items = []
    for _ in range(count):
        uniform = rng.random() < 0.6
        inst = gen.topo_instance(rng, n=(3, 8), contractors=(1, 2), edge_p=0.3, chains=rng.choice([0, 0.4]), min0=0,
                                 kinds=(1, 2), spec=rng.choice([0, 0, 0.3]), time=rng.choice([0, 0.2]), indep=rng.choice([0, 0.4]),
                                 prios=rng.choice([0, 0.3]))
        cfg = config(rng, uniform)
        hd = gen.heads(inst)
        for i, w in enumerate(inst['works']):
            if hd[i + 1] != i + 1:
                w['zones'] = list(inst['works'][hd[i + 1] - 1].get('zones', []))
            elif w['reqs']:
                w['zones'] = [dict(z=z, s=rng.choice([0, 1, 2] if uniform else [1, 2]))
                              for z in range(len(cfg['init'])) if rng.random() < 0.7]
            for q in w['reqs']:
                q['vol'] = max(1, q['vol'])
        named = dict(inst, works=[dict(w, zones=[dict(z=f'z{z["z"]}', s=z['s']) for z in w.get('zones', [])])
                                  for w in inst['works']])
        for name in sched.scheduler_configs():
            if name == 'rtopo' or rng.random() < 0.3:
                continue
            sd = rng.randint(0, 10 ** 6)
            tr = dict(cfg=cfg, rows=[], final=[], end=-1, err='')

            def go():
                wg, cs, spec = gen.build(named)
                s = sched.make_scheduler(name, sd)
                return s.schedule(wg, cs, spec, start_time=Time(inst['t0']), landscape=landscape(cfg))[0]
            try:
                sc = core.limited(go, 40)
                works = list(sc.works)
                prj = sched.project_schedule(sc, inst)
                for sw, r in zip(works, prj):
                    w = inst['works'][r['w'] - 1]
                    last = r['w'] == len(inst['works'])
                    pre = trans(sw.zones_pre)
                    tr['rows'].append(row(r['s'], r['f'], w.get('zones', []), [] if last else pre))
                    if last:
                        tr['final'], tr['end'] = pre, r['s']
            except Exception as e:
                tr['err'] = core.error_site(e)
            items.append((tr, dict(site=name, seed=sd)))
    return items


def histories(arg):
    """find / can / place calls on a ZoneTimeline alone."""
    from sampo.scheduler.timeline.zone_timeline import ZoneTimeline
    from sampo.schemas.requirements import ZoneReq
    from sampo.schemas.time import Time
    from sampo.schemas.zones import Zone
    seed, count = arg
    rng = random.Random(seed)
    items = []
    for _ in range(count):
        uniform = rng.random() < 0.5
        cfg = config(rng, uniform)
        nz = len(cfg['init'])
        top = max(max(r) for r in cfg['cost'])
        tr = dict(cfg=cfg, rows=[], final=[], end=-1, err='')

        def go():
            zt = ZoneTimeline(landscape(cfg).zone_config)
            now = 0
            back = rng.random() < 0.5
            for i in range(rng.randint(2, 8)):
                zs = sorted(rng.sample(range(nz), rng.randint(1, nz)))
                rng.shuffle(zs)
                req = [dict(z=z, s=rng.choice([0, 1, 2] if uniform else [1, 2])) for z in zs]
                reqs = [ZoneReq(f'z{q["z"]}', q['s']) for q in req]
                ask = rng.randint(0, 25) if back else now + rng.randint(0, 4)
                ex = rng.randint(1, 6)
                st = sched.val(zt.find_min_start_time(reqs, Time(ask), Time(ex)))
                st2 = sched.val(zt.find_min_start_time(reqs, Time(ask), Time(ex)))
                busy = max([r['f'] for r in tr['rows']] + [0])
                lim = max(ask, busy + 1) + nz * (top + 1)
                at = st
                if not back and rng.random() < 0.4:
                    at2 = max(now, ask) + rng.randint(0, 3)
                    if zt.can_schedule_at_the_moment(reqs, Time(at2), Time(ex)):
                        at = at2
                pre = trans(zt.update_timeline(i, [Zone(f'z{q["z"]}', q['s']) for q in req], Time(at), Time(ex)))
                tr['rows'].append(row(at, at + ex, req, pre, ask=ask, lim=lim if at == st else -1,
                                      pure=1 if st == st2 else 0))
                now = max(now, at)
            if any(cfg['last']):
                fin, fs = zt.finish_statuses()
                tr['final'] = trans(fs)
                tr['end'] = max([sched.val(fin)] + [r['f'] for r in tr['rows']])
        try:
            core.limited(go, 20)
        except Exception as e:
            tr['err'] = core.error_site(e)
        items.append((tr, dict(site='zone timeline', seed=seed)))
    return items


def check(run):
    q = run.quick
    run.mc('ZonesMC', CFG.format(d=3 if q else 4, pt=2, ex=2, hold='TRUE'), label='ZonesMC keeper', timeout=2000)
    run.mc('ZonesMC', CFG.format(d=3, pt=2, ex=2, hold='FALSE'), label='ZonesMC without closing a zone during a change',
           expect_violation=True)
    rng = random.Random(run.seed * 1000 + 8)
    n, m = (128, 1600) if q else (2400, 30000)
    jobs = [(rng.randint(0, 10 ** 9), n // 32) for _ in range(32)]
    items = [x for b in core.pmap(schedules, jobs) for x in b]
    run.coverage['schedules'] = len(items)
    jobs = [(rng.randint(0, 10 ** 9), m // 16) for _ in range(16)]
    items += [x for b in core.pmap(histories, jobs) for x in b]
    run.coverage['histories'] = m
    run.cover('status_changes', sum(len(r['pre']) for t, _ in items for r in t['rows']) +
              sum(len(t['final']) for t, _ in items))
    run.sample(items[0][0])
    for i in range(0, len(items), 4000):
        run.check_traces('ZonesTrace', items[i:i + 4000])
