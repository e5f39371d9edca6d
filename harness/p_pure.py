"""P19: scheduling is a function of its inputs (spec/Pure.tla). Histories run in processes with different hash seeds."""
import copy
import json
import os
import random
import re
import subprocess
import sys
import tempfile

import core
import env
import gen
import sched

CFG = '''SPECIFICATION Spec
CONSTANTS Mistake = "{m}"
 Steps = {k}
INVARIANTS {inv}
'''
SLOTS = ['graph', 'spec', 'contractors', 'landscape', 'graph2', 'spec2', 'schedule']


def pub(x):
    v = getattr(x, 'value', x)
    return repr(v) if not isinstance(v, (list, tuple)) else repr([pub(y) for y in v])


def look_graph(wg):
    out = []
    for n in wg.nodes:
        u = n.work_unit
        out.append([u.id, u.name, u.display_name, sorted(u.model_name.items()), u.group, u.description, u.volume, u.priority, u.is_service_unit,
                    [[r.kind, pub(r.volume), r.min_count, r.max_count] for r in u.worker_reqs], [[z.kind, z.required_status] for z in u.zone_reqs],
                    [[m.name, m.count] for m in u.material_reqs],
                    [[e.start.id, e.finish.id, pub(e.lag), e.type.name] for e in n.edges_to],
                    [[e.start.id, e.finish.id, pub(e.lag), e.type.name] for e in n.edges_from]])
    return repr(out)


def look_spec(spec, wg):
    out = []
    for n in wg.nodes:
        s = spec.get_work_spec(n.id)
        out.append([n.id, sorted(s.contractors), sorted(s.assigned_workers.items()), pub(s.assigned_time), s.is_independent])
    return repr(out)


def look_contractors(cs):
    return repr([[c.id, c.name, [[k, w.id, w.name, w.count, w.contractor_id, w.cost_one_unit, re.sub('rand=[^,)]*', '', repr(w.productivity))] for k, w in c.workers.items()],
                  sorted(map(repr, c.equipments.items()))] for c in cs])


def look_land(land):
    if land is None:
        return ''
    z = land.zone_config
    out = [sorted(z.start_statuses.items()), sorted(z.end_statuses.items()), z.time_costs.tolist()]
    if land.lg is not None:
        out.append([[n.id, sorted(n.resource_storage_unit.capacity.items()), [w.id for w in n.works],
                     sorted([r.start.id, r.finish.id, r.weight, r.bandwidth] for r in n.roads)] for n in land.lg.nodes])
        out.append([[h.node_id, [[v.id, [[m.name, m.count] for m in v.capacity]] for v in h.vehicles]] for h in land.holders])
    return repr(out)


def look_schedule(s):
    if s is None:
        return ''
    rows = []
    for w in s.works:
        rows.append([w.id, pub(w.start_time), pub(w.finish_time), str(w.contractor_id), sorted([x.name, x.count, x.contractor_id] for x in w.workers), float(w.cost),
                     [[z.name, pub(z.start_time), pub(z.end_time), z.from_status, z.to_status] for z in (w.zones_pre or []) + (w.zones_post or [])],
                     sorted((k, [[int(a), pub(b), pub(c), d] for a, b, c, d in v]) for k, v in (getattr(w.materials, 'delivery', None) or {}).items())])
    return repr(sorted(rows))


def history(rng):
    """-> list of events with texts as contents"""
    import p_supply
    import p_zones
    from sampo.schemas.time import Time
    from sampo.utilities.validation import validate_schedule
    from sampo.structurator.prepare_wg_copy import prepare_work_graph_copy
    kind = rng.choice(['plain', 'plain', 'zones', 'materials'])
    if kind == 'materials':
        inst, lcfg, plat, _ = p_supply.instance(rng, 0)
    else:
        inst = gen.topo_instance(rng, n=(2, 10), prios=0.3, spec=0.3, indep=0.1, time=0.1, contractors=(1, 3), edge_p=0.25)
        lcfg = p_zones.config(rng, True)
        if kind == 'zones':
            hd = gen.heads(inst)
            for i, w in enumerate(inst['works']):
                if hd[i + 1] != i + 1:
                    w['zones'] = list(inst['works'][hd[i + 1] - 1].get('zones', []))
                elif w['reqs']:
                    w['zones'] = [dict(z=f'z{z}', s=rng.choice([0, 1, 2])) for z in range(len(lcfg['init'])) if rng.random() < 0.6]
                for q in w['reqs']:
                    q['vol'] = max(1, q['vol'])
    other = gen.topo_instance(rng, n=(1, 6), spec=0.3, like=inst)
    names = sched.scheduler_configs()
    reuse = {}
    state = {}

    def fresh():
        wg, cs, spec = gen.build(inst)
        wg2, _, spec2 = gen.build(other)
        land = None
        if kind == 'zones':
            land = p_zones.landscape(lcfg)
        elif kind == 'materials':
            land = p_supply.landscape(lcfg, p_supply.where_of(inst, wg, plat))
        state.update(graph=wg, spec=spec, contractors=cs, landscape=land, graph2=wg2, spec2=spec2, schedule=None)

    def look():
        return [look_graph(state['graph']), look_spec(state['spec'], state['graph']), look_contractors(state['contractors']), look_land(state['landscape']),
                look_graph(state['graph2']), look_spec(state['spec2'], state['graph2']), look_schedule(state['schedule'])]
    ev = []

    def event(op, what, fn, at=(), new=(), cfg=''):
        before = look() if op != 'reset' else [''] * len(SLOTS)
        try:
            res = fn() or ''
        except core.Hang:
            raise
        except Exception as e:
            res = 'refused: ' + type(e).__name__
        ev.append(dict(op=op, what=what, cfg=cfg, at=list(at), new=list(new), before=before, after=look(), res=res))

    def run(name, sd, second, keep):
        key = name if name in ('heft', 'between', 'topo', 'lft') and rng.random() < 0.5 else None
        s = reuse.get(key) or sched.make_scheduler(name, sd)
        if key:
            reuse[key] = s

        def go():
            if second:
                sc = s.schedule(state['graph2'], state['contractors'], state['spec2'])[0]
            else:
                a = dict(landscape=state['landscape']) if state['landscape'] is not None else {}
                sc = s.schedule(state['graph'], state['contractors'], state['spec'], start_time=Time(inst['t0']), **a)[0]
            if keep:
                state['schedule'] = sc
            return look_schedule(sc)
        event('run', name, go, at=(5, 6, 3) if second else (1, 2, 3, 4), new=(7,) if keep else (), cfg=f'{name} {sd} {second}')

    event('reset', 'build', fresh)
    runs = []
    for step in range(rng.randint(5, 8)):
        r = rng.random()
        if r < 0.3 and runs:
            run(*rng.choice(runs), keep=False)
        elif r < 0.62 or not runs:
            n = rng.choice(names)
            a = (n, rng.randint(0, 50), rng.random() < 0.3)
            runs.append(a)
            run(*a, keep=state['schedule'] is None)
        elif r < 0.7 and state['schedule'] is not None:
            event('other', 'validate', lambda: validate_schedule(state['schedule'], state['graph'], state['contractors'], state['spec']) or '')
        elif r < 0.73:
            n = rng.choice(names)

            def nobody():
                from sampo.schemas.contractor import Contractor
                sched.make_scheduler(n, 1).schedule(state['graph'], [Contractor(id='none', name='none', workers={}, equipments={})], state['spec'])
            event('run', 'nobody', nobody, at=(1, 2), cfg=f'nobody {n}')
        elif r < 0.78:
            event('other', 'copies', lambda: [copy.deepcopy(state['graph']), prepare_work_graph_copy(state['graph']), [c.copy() if hasattr(c, 'copy') else 0 for c in state['contractors']]] and '')
        elif r < 0.82 and state['schedule'] is not None:
            event('other', 'tables', lambda: [state['schedule'].unite_stages(), state['schedule'].merged_stages_datetime_df('2022-01-01'), state['schedule'].pure_schedule_df] and '')
        elif r < 0.9:
            import numpy as np
            random.seed(rng.randint(0, 99))
            np.random.seed(rng.randint(0, 99))
        else:
            event('reset', 'build', fresh)
    for a in runs[:2]:
        run(*a, keep=False)
    return ev, kind


def remote(seeds):
    """Run in a separate process: histories of the seeds as JSON."""
    out = []
    for sd in seeds:
        try:
            ev, kind = core.limited(history, 60, random.Random(sd))
            out.append(dict(ev=ev, kind=kind, err=''))
        except Exception as e:
            out.append(dict(ev=[], kind='', err=core.error_site(e)))
    return out


def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    env.load()
    src, dst = sys.argv[1:3]
    with open(dst, 'w') as fh:
        json.dump(remote(json.load(open(src))), fh)


def processes(seeds, hashseeds, timeout, script=__file__):
    """Every seed in one process per hash seed -> list (per hash seed) of lists of histories."""
    per = core.CORES // len(hashseeds)
    with tempfile.TemporaryDirectory() as d:
        jobs = []
        for h in hashseeds:
            for j in range(per):
                src, dst = f'{d}/{h}_{j}.in', f'{d}/{h}_{j}.out'
                json.dump(seeds[j::per], open(src, 'w'))
                e = dict(os.environ, PYTHONHASHSEED=str(h))
                jobs.append((h, j, dst, subprocess.Popen([sys.executable, '-B', os.path.abspath(script), src, dst], env=e, stdout=subprocess.DEVNULL,
                                                         stderr=subprocess.DEVNULL)))
        out = {h: [None] * len(seeds) for h in hashseeds}
        try:
            for h, j, dst, p in jobs:
                if p.wait(timeout=timeout) != 0:
                    raise core.MachineryError('history process failed')
                out[h][j::per] = json.load(open(dst))
        finally:
            for *_, p in jobs:
                if p.poll() is None:
                    p.kill()
        return [out[h] for h in hashseeds]


def number(segments):
    """Histories of the processes as one trace; contents and results become numbers."""
    ids = {}
    num = lambda x: ids.setdefault(x, len(ids) + 1)
    ev = []
    for g, seg in enumerate(segments):
        for e in seg['ev']:
            ev.append(dict(e, seg=g + 1, cfg=num(e['cfg']), before=[num(x) for x in e['before']], after=[num(x) for x in e['after']], res=num(e['res'])))
    return ev


def check(run):
    q = run.quick
    run.mc('PureMC', CFG.format(m='none', k=4 if q else 5, inv='InvFunctional InvKept'), label='PureMC histories', timeout=3000)
    for m, inv in (('leak', 'InvKept'), ('failleak', 'InvKept'), ('share', 'InvKept'), ('state', 'InvFunctional')):
        run.mc('PureMC', CFG.format(m=m, k=3, inv=inv), label=f'PureMC mistake {m}', expect_violation=True)
    rng = random.Random(run.seed * 1000 + 19)
    seeds = [f'{rng.randint(0, 10 ** 9)}' for _ in range(200 if q else 4000)]
    segs = processes(seeds, [rng.randint(1, 1000), rng.randint(1001, 2000)], 800 if q else 6000)
    items = []
    for i, sd in enumerate(seeds):
        both = [s[i] for s in segs]
        err = next((b['err'] for b in both if b['err']), '')
        tr = dict(ev=[] if err else number(both), err=err)
        items.append((tr, dict(site='history', seed=sd)))
        if not err:
            run.cover('histories ' + both[0]['kind'])
            for e in both[0]['ev']:
                run.cover(f'{e["op"]} {e["what"]}' + (' refused' if e['res'].startswith('refused') else ''))
    run.sample(items[0][0]['ev'][:2])
    for i in range(0, len(items), 1000):
        run.check_traces('PureTrace', items[i:i + 1000])


if __name__ == '__main__':
    main()
