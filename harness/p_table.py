"""P17: schedules as tables, uniting stages (spec/Table.tla)."""
import json
import random
from datetime import datetime, timedelta

import core
import p_restruct

V = 1024  # stages have volumes in whole 1024ths
CFG = '''SPECIFICATION Spec
CONSTANTS Mistake = "{m}"
 N = {n}
 Horizon = {h}
INVARIANTS {inv}
'''


def make_works(rng, wg):
    """ScheduledWorks of every node of a restructured graph, with random durations and slack; edges and chains are obeyed."""
    from sampo.schemas.scheduled_work import ScheduledWork
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.resources import Worker
    from sampo.schemas.time import Time
    cs = [Contractor('c0', 'First', {}), Contractor('c1', '', {})]
    crews = [[], [Worker('w1', 'driver', 2, 'c0', cost_one_unit=3)], [Worker('w2', 'fitter', 1, 'c1', cost_one_unit=5), Worker('w3', 'welder', 4, 'c1', cost_one_unit=1)]]
    slack = rng.choice([0, 0, 1, 3])
    fin, crew, works = {}, {}, []
    for n in wg.nodes:
        s = max([fin[e.start.id] + max(0, int(e.lag)) for e in n.edges_to], default=0)
        if not n.is_inseparable_son():
            s += rng.randint(0, slack)
            crew[n.id] = (rng.choice(crews), rng.choice(cs))
        else:
            crew[n.id] = crew[n.inseparable_parent.id]
            if rng.random() < 0.2:
                s += rng.randint(0, slack)
        d = 0 if n.work_unit.is_service_unit else rng.choice([0, 0, 1, 2, 5])
        fin[n.id] = s + d
        works.append(ScheduledWork(n.work_unit, (Time(s), Time(s + d)), [] if n.work_unit.is_service_unit else crew[n.id][0],
                                   None if n.work_unit.is_service_unit else crew[n.id][1]))
    # the finish ends last
    m = max(fin.values())
    works[-1].start_end_time = (Time(m), Time(m))
    return works


def num(x):
    x = float(x)
    if x != int(x):
        raise ValueError('not whole')
    return int(x)


def cols_of(df):
    return [dict(id=r['task_id'], name=r['task_name'], con=str(r['contractor']), crew=str(r['workers']), gname=r['granular_name'], cost=num(r['cost']),
                 vol=num(r['volume'] * V), s=int(r['start']), f=int(r['finish']), d=int(r['duration']),
                 ex='' if 'extra' not in df.columns or r['extra'] != r['extra'] or r['extra'] is None else str(num(r['extra']))) for _, r in df.iterrows()]


def run_case(rng):
    from sampo.schemas.schedule import Schedule
    from sampo.structurator import graph_restructuring
    from sampo.api.const import STAGE_SEP
    g = p_restruct.random_graph(rng)
    orig = p_restruct.build(g)
    wg = graph_restructuring(orig, rng.random() < 0.7)
    works = make_works(rng, wg)
    base = {w['id']: i + 1 for i, w in enumerate(g['works'])}
    at, rows, stages = {}, [], {}
    for n in wg.nodes:
        b = n.id.split(STAGE_SEP)[0]
        stages[b] = stages.get(b, -1) + 1
        rows.append(stages[b])
    out = []
    for i, (n, w) in enumerate(zip(wg.nodes, works)):
        b = n.id.split(STAGE_SEP)[0]
        k = int(n.id.split(STAGE_SEP)[1]) if STAGE_SEP in n.id else stages[b]
        ow = orig[b].work_unit
        at[n.id] = i + 1
        out.append(dict(b=base[b], k=k, s=int(w.start_time), f=int(w.finish_time), vol=num(w.volume * V), cost=num(w.cost), svc=int(w.is_service_unit),
                        id=n.id, name=w.display_name, gname=w.model_name['granular_name'], bid=b, bname=ow.display_name,
                        bgname=ow.model_name['granular_name'], crew=repr({x.name: x.count for x in w.workers}), con=str(w.contractor),
                        ex='' if w.is_service_unit else str(w.model_name['extra'])))
    par = sorted({(at[e.start.id], at[n.id]) for n in wg.nodes for e in n.edges_to})
    given = list(works)
    rng.shuffle(given)
    if rng.random() < 0.2:
        given = tuple(given)
    sc = Schedule.from_scheduled_works(given, wg)
    objs = {id(w): i + 1 for i, w in enumerate(works)}
    cols = cols_of(sc.full_schedule_df)
    tab = [objs.get(id(w), 0) for w in sc.works]
    dic = [[k, objs.get(id(w), 0)] for k, w in sc.to_schedule_work_dict.items()]

    def united(u):
        r = []
        for c, w in zip(cols_of(u.full_schedule_df), u.works):
            r.append(dict(c, b=base.get(c['id'], 0), ws=int(w.start_time), wf=int(w.finish_time), wvol=num(w.volume * V), wcost=num(w.cost), wid=w.id))
        return r
    acts = ['uni', 'mer', 'pure']
    rng.shuffle(acts)
    tr = {}
    for a in acts:
        if a == 'uni':
            u = sc.unite_stages()
            tr.update(uni=united(u), uexec=int(u.execution_time))
            tr['uni2'] = united(u.unite_stages())
        elif a == 'mer':
            day = datetime(2020, 2, 27)
            df = sc.merged_stages_datetime_df(rng.choice(['2020-02-27', day]))
            tr['mer'] = [dict(b=base.get(r['task_id'], 0), s=days(r['start'], day), f=days(r['finish'], day), vol=num(r['volume'] * V), cost=num(r['cost']),
                              id=r['task_id'], name=r['task_name'], gname=r['granular_name'], crew=str(r['workers'])) for _, r in df.iterrows()]
        else:
            tr['pure'] = [str(x) for x in sc.pure_schedule_df['task_id']]
    return dict(tr, rows=out, par=par, tab=tab, cols=cols, dict=dic, exec=int(sc.execution_time), after=cols_of(sc.full_schedule_df), err='')


def days(x, day):
    d = x.to_pydatetime() if hasattr(x, 'to_pydatetime') else x
    d = d - day
    if d % timedelta(days=1):
        raise ValueError('not whole days')
    return d.days


def batch(arg):
    seed, count = arg
    out = []
    for i in range(count):
        rng = random.Random(f'{seed} {i}')
        try:
            tr = core.limited(run_case, 30, rng)
        except Exception as e:
            tr = dict(rows=[], par=[], tab=[], cols=[], dict=[], exec=0, pure=[], uni=[], uni2=[], uexec=0, mer=[], after=[], err=core.error_site(e))
        out.append((tr, dict(site='table', seed=f'{seed} {i}')))
    return out


def check(run):
    q = run.quick
    run.mc('TableMC', CFG.format(n=3 if q else 4, h=3, m='none', inv='InvOrder InvProgress InvUnited'), label='TableMC order and uniting', timeout=3000)
    for m, inv in (('sortid', 'InvOrder'), ('lastvol', 'InvUnited'), ('mins', 'InvUnited')):
        run.mc('TableMC', CFG.format(n=3, h=2, m=m, inv=inv), label=f'TableMC mistake {m}', expect_violation=True)
    rng = random.Random(run.seed * 1000 + 17)
    n = 960 if q else 24000
    items = [x for b in core.pmap(batch, [(rng.randint(0, 10 ** 9), n // 40) for _ in range(40)]) for x in b]
    for t, _ in items:
        run.cover('tables with stages' if any(r['id'] != r['bid'] for r in t['rows']) else 'tables without stages')
        run.cover('rows', len(t['rows']))
    run.sample(items[0][0])
    for i in range(0, len(items), 4000):
        run.check_traces('TableTrace', items[i:i + 4000])
