"""P22: tables of works, history and contractors (spec/Input.tla)."""
import datetime
import json
import os
import random
import tempfile

import core

CFG = '''SPECIFICATION Spec
CONSTANTS Mistake = "{m}"
Weights = {{{w}}}
INVARIANT {inv}
'''
HCFG = '''SPECIFICATION Spec
CONSTANTS Top = {top}
Sites = {sites}
Wrong = {wrong}
INVARIANT {inv}
'''
KINDS = ['driver', 'fitter', 'welder', 'painter']
TYPES = ['FS', 'SS', 'FF', 'FFS', 'IFS']


def day(n):
    return (datetime.date(2020, 1, 1) + datetime.timedelta(n)).isoformat()


def stub():
    """An estimator whose requirements are a function of the model name and the volume."""
    from sampo.schemas.requirements import WorkerReq
    from sampo.schemas.time import Time
    from sampo.schemas.time_estimator import WorkTimeEstimator

    class Stub(WorkTimeEstimator):
        def set_estimation_mode(self, *a, **kw):
            ...

        def set_productivity_mode(self, *a, **kw):
            ...

        def get_model_name_keys(self):
            return ['granular_name', 'measurement']

        def find_work_resources(self, model_name, work_volume, resource_name=None):
            return [WorkerReq(*q[:1], Time(q[1]), q[2], q[3]) for q in needs(model_name['granular_name'] if isinstance(model_name, dict) else model_name, work_volume)]

        def estimate_time(self, work_unit, worker_list):
            return Time(1)

        def get_recreate_info(self):
            return Stub, ()
    return Stub()


def needs(name, volume):
    """Requirements of a work by its name and volume (any rule will do): [kind, volume, min, max]."""
    x = sum(map(ord, name)) + int(volume)
    return [(k, x % 7 + i + 1, 1 + (x + i) % 2, 3 + (x + i) % 3) for i, k in enumerate(KINDS) if (x >> i) & 1]


def table(rng):
    """A project in words: what the user means, from which a table is written and the expectations are made."""
    n = rng.randint(1, 7)
    style = rng.choice(['w', 'num', 'name', 'long', 'zero', 'dotted'])
    ids = [dict(w=f'w{i}', num=str(i + 1), name=f'work {i}', long=str(10 ** 17 + i), zero=f'00{i + 1}', dotted=f'{i + 1}.5')[style] for i in range(n)]
    names = [f'N{rng.randint(0, max(1, n - 1)) if rng.random() < 0.3 else i}' for i in range(n)]
    order = list(range(n))
    rng.shuffle(order)
    loops = rng.random() < 0.3
    p = rng.choice([0.15, 0.3, 0.6])
    given = []
    if rng.random() < 0.85:
        for i in range(n):
            for j in range(n):
                if (order[i] < order[j] and rng.random() < p) or (loops and order[i] >= order[j] and rng.random() < 0.12):
                    given.append(dict(p=i + 1, c=j + 1, t=rng.choice(TYPES if rng.random() < 0.4 else TYPES[:3]), lag=rng.choice([0, 0, 100, 250, 25, 1300])))
    if rng.random() < 0.3:
        for j in range(n):
            if rng.random() < 0.3:
                given.insert(rng.randint(0, len(given)), dict(p=0, c=j + 1, t=rng.choice(TYPES), lag=rng.choice([0, 100])))
    if len(set(x['t'] == 'IFS' and x['p'] for x in given)) and sum(1 for x in given if x['t'] == 'IFS'):
        ends, starts = set(), set()           # a work has at most one inseparable link in and one out, without loops
        for x in given:
            if x['t'] == 'IFS' and (loops or x['p'] in starts or x['c'] in ends):
                x['t'] = 'FS'
            elif x['t'] == 'IFS':
                starts.add(x['p'])
                ends.add(x['c'])
    hist = []
    if rng.random() < 0.75:
        for _ in range(rng.randint(0, 3)):
            site = []
            for nm in sorted(set(names)):
                for _ in range(rng.choice([0, 1, 1, 1, 2 if len(hist) == 0 else 1])):
                    s = rng.randint(0, rng.choice([3, 8, 60]))
                    site.append(dict(n=nm, s=s, f=s + rng.randint(0, rng.choice([3, 8, 40]))))
            rng.shuffle(site)
            hist.append(site)
    if rng.random() < 0.08:                   # a pair that mostly behaves alike, at many sites
        hist = []
        nm = sorted(set(names))[:3]
        usual = {x: (rng.randint(0, 30), rng.randint(30, 60)) for x in nm}
        for _ in range(rng.randint(4, 16)):
            hist.append([])
            for x in nm:
                s, f = usual[x]
                s += 0 if rng.random() < 0.85 else rng.choice([-1, 1, 5, 15, -15, 25])
                hist[-1].append(dict(n=x, s=max(0, s), f=max(0, s, f)))
    return dict(n=n, style=style, ids=ids, names=names, given=given, hist=hist,
                vol=[rng.choice([0, 1, 2, 10, 1496]) * 100 + rng.choice([0, 0, 50]) for _ in range(n)],
                prio=[rng.randint(1, 3) for _ in range(n)], group=[f'g{rng.randint(0, 1)}' for _ in range(n)],
                desc=[f'about {i}' for i in range(n)], zones=[[(f'z{k}', rng.randint(0, 2)) for k in range(rng.randint(0, 2))] for _ in range(n)],
                reqs=[[dict(k=k, v=rng.randint(0, 9), lo=rng.choice([0, 1, 1, 2, 4]), hi=rng.choice([0, 2, 3, 5])) for k in rng.sample(KINDS + ['captain'], rng.randint(0, 4))]
                      for _ in range(n)])


def frame(rng, d, cols, textual):
    """The table as the user may write it."""
    import pandas as pd
    out = []
    for i in range(d['n']):
        mine = [x for x in d['given'] if x['c'] == i + 1]
        if 'unspec' in cols:                 # types and lags are not given for this work
            lonely = (i % 2 == 0)
        else:
            lonely = False
        told = rng.randint(1, len(mine)) if 'short' in cols and mine else len(mine)     # the last ones are not specified
        row = dict(activity_id=d['ids'][i], activity_name='A' + d['names'][i] if 'mapper' in cols else d['names'][i] if 'granular' not in cols else f'Activity {i}',
                   volume=d['vol'][i] / 100 if not ('comma' in cols) else str(d['vol'][i] / 100).replace('.', ','))
        if 'model' in cols:
            row['model_name'] = str(dict(granular_name=d['names'][i], measurement='km', place='north')) if 'granular' not in cols else str(dict(measurement='km', place='north'))
        if 'granular' in cols:
            row['granular_name'] = d['names'][i]
        row['measurement'] = 'km'
        row['predecessor_ids'] = ','.join(d['ids'][x['p'] - 1] if x['p'] else 'nobody' for x in mine)
        row['connection_types'] = '' if lonely else ','.join(x['t'] for x in mine[:told])
        row['lags'] = '' if lonely else ','.join(str(x['lag'] / 100) for x in mine[:told])
        if lonely:
            told = 0
        for x in mine[told:]:
            x['t'], x['lag'] = 'FS', 0
        if 'prio' in cols:
            row['priority'] = d['prio'][i]
        if 'group' in cols:
            row['group'] = d['group'][i]
        if 'desc' in cols:
            row['description'] = d['desc'][i]
        if 'zones' in cols:
            row['required_statuses'] = str(dict(d['zones'][i]))
        if 'reqs' in cols:
            for c, f in (('min_req', 'lo'), ('max_req', 'hi'), ('req_volume', 'v')):
                x = {q['k']: q[f] for q in d['reqs'][i]}
                row[c] = str(x) if textual or rng.random() < 0.5 else x
        out.append(row)
    f = pd.DataFrame(out)
    if 'notypes' in cols:
        f = f.drop(columns=['connection_types', 'lags'])
        for x in d['given']:
            x['t'], x['lag'] = 'FS', 0
    if 'odd index' in cols:
        f.index = [f'r{i}' for i in range(len(f))]
    return f


def look(wg, ids):
    """Works (fields), links and requirements of a graph, numbered by the ids of the table."""
    num = {x: i + 1 for i, x in enumerate(ids)}
    ends = {wg.start.id, wg.finish.id}
    nodes = [n for n in wg.nodes if n.id not in ends]
    fields = {}
    for n in nodes:
        u = n.work_unit
        fields[n.id] = dict(id=num.get(n.id, 0), name=u.display_name, model=sorted(f'{k}={v}' for k, v in u.model_name.items()) if isinstance(u.model_name, dict) else [str(u.model_name)], vol=round(u.volume * 100), prio=int(u.priority))
    more = {n.id: dict(group=n.work_unit.group, desc=n.work_unit.description, zones=[f'{z.kind}={z.required_status}' for z in n.work_unit.zone_reqs],
                       service=int(n.work_unit.is_service_unit)) for n in nodes}
    links = [dict(p=num.get(e.start.id, 0), c=num.get(n.id, 0), t=e.type.value, lag=round(float(e.lag) * 100)) for n in nodes for e in n.edges_to if e.start.id not in ends]
    reqs = {n.id: [dict(k=q.kind, v=int(q.volume), lo=int(q.min_count), hi=int(q.max_count)) for q in n.work_unit.worker_reqs] for n in nodes}
    return nodes, fields, more, links, reqs


def one(rng, tmp):
    import pandas as pd
    from sampo.pipeline.preparation import PreparationPipeline
    from sampo.schemas.structure_estimator import DefaultStructureEstimator, StructureGenerationEstimator
    from sampo.userinput.parser.csv_parser import CSVParser
    from sampo.utilities.name_mapper import DictNameMapper
    d = table(rng)
    textual = rng.random() < 0.4
    if textual and d['style'] in ('zero', 'long'):
        d['ids'] = [f'x{i}' for i in range(d['n'])]
    if textual and d['style'] == 'dotted' and all('.' in x for x in d['ids']):
        d['ids'] = [x.replace('.', '-') for x in d['ids']]
    cols = {c for c in ('model', 'granular', 'prio', 'group', 'desc', 'zones', 'reqs', 'comma') if rng.random() < 0.5}
    if rng.random() < 0.2:
        cols.add(rng.choice(['unspec', 'notypes', 'short']))
    if rng.random() < 0.15 and not textual:
        cols.add('odd index')
    mapper = None
    if 'granular' not in cols and 'model' not in cols and rng.random() < 0.4:
        cols.add('mapper')
        mapper = DictNameMapper({'A' + x: x for x in d['names']})
    f = frame(rng, d, cols, textual)
    hcol = rng.choice(['granular_name', 'work_name'])
    h = pd.DataFrame([{hcol: x['n'], 'first_day': day(x['s']), 'last_day': day(x['f']), 'upper_works': f'site {k}'} for k, site in enumerate(d['hist']) for x in site],
                     columns=[hcol, 'first_day', 'last_day', 'upper_works'])
    if rng.random() < 0.5:
        h = h.sample(frac=1, random_state=rng.randint(0, 999))
    people = [dict(id=f'c{i}', name=f'Firm {i}', workers=[dict(k=k, n=rng.randint(0, 9)) for k in KINDS]) for i in range(rng.randint(1, 3))]
    withid = rng.random() < 0.6
    cf = pd.DataFrame([dict(([('contractor_id', i + 1 if textual else p['id'])] if withid else []) + [('name', p['name'])] + [(w['k'], w['n']) for w in p['workers']])
                       for i, p in enumerate(people)])
    if withid and textual:
        for i, p in enumerate(people):
            p['id'] = str(i + 1)
    if textual:
        paths = [os.path.join(tmp, x) for x in ('wg.csv', 'h.csv', 'c.csv')]
        for x, path in zip((f, h, cf), paths):
            x.to_csv(path, sep=';', index=False)
        fi, hi, ci = paths
    else:
        fi, hi, ci = f, h, cf
    all_, change = rng.choice([(1, 0), (0, 0), (0, 1), (1, 1)])
    est = stub()
    before = (f.to_dict(), h.to_dict(), cf.to_dict())
    if (all_, change) == (1, 1) or rng.random() < 0.3:
        info = CSVParser.read_graph_info(fi, hi, name_mapper=mapper, all_connections=bool(all_), change_connections_info=bool(change))
        wg, cs = CSVParser.work_graph_and_contractors(info, ci, name_mapper=mapper, work_resource_estimator=est)
    else:
        p = PreparationPipeline(fi, hi, ci).work_estimator(est)
        if mapper:
            p = p.name_mapper(mapper)
        if change:
            p = p.fix_edges_with_history()
        elif not all_:
            p = p.fill_edges_with_history()
        wg, cs = p.build_wg_and_contractors()
    nodes, fields, more, links, reqs = look(wg, d['ids'])
    order = sorted(range(d['n']))
    want, got = [], []
    for i in order:
        x = d['ids'][i]
        model = dict(granular_name=d['names'][i], measurement='km')
        if 'model' in cols:
            model['place'] = 'north'
        shown = f.iloc[i]['activity_name']
        r = [q for q in d['reqs'][i] if 0 < q['lo'] <= q['hi']] if 'reqs' in cols else [dict(k=k, v=v, lo=lo, hi=hi) for k, v, lo, hi in needs(d['names'][i], d['vol'][i] / 100)]
        want.append(dict(id=i + 1, name=shown, model=sorted(f'{k}={v}' for k, v in model.items()), vol=d['vol'][i], prio=d['prio'][i] if 'prio' in cols else 1,
                         group=d['group'][i] if 'group' in cols else 'main project', desc=d['desc'][i] if 'desc' in cols else '',
                         zones=[f'{k}={v}' for k, v in d['zones'][i]] if 'zones' in cols else [], service=int(not r)))
        got.append(dict(fields.get(x, {}), **more.get(x, {})))
    asked = [d['reqs'][i] if 'reqs' in cols else [dict(k=k, v=v, lo=lo, hi=hi) for k, v, lo, hi in needs(d['names'][i], d['vol'][i] / 100)] for i in order]
    peoplegot = [dict(id=c.id if withid else people[i]['id'] if i < len(people) else '?', name=c.name,
                      workers=[dict(k=k if k == w.name else '?', n=int(w.count)) for k, w in c.workers.items()]) for i, c in enumerate(cs)]
    ok = all(w.contractor_id == c.id for c in cs for w in c.workers.values())
    tr = dict(names=d['names'], given=d['given'], hist=d['hist'], all=all_, change=change, links=links, n=len(nodes), reqs=asked,
              reqsgot=[reqs.get(d['ids'][i], []) for i in order], want=want, got=got, people=people, peoplegot=peoplegot if ok else [], back=0, back_links=[], back_works=[],
              back_reqs=[], subs=[], subsgot=[], kept=int(before == (f.to_dict(), h.to_dict(), cf.to_dict())), err='')
    if rng.random() < 0.5 and all(q for q in tr['reqsgot']):
        wg2 = PreparationPipeline(wg.to_frame(save_req=True)).work_estimator(est).build_wg()
        _, f2, m2, l2, r2 = look(wg2, d['ids'])
        tr.update(back=1, back_links=l2, back_reqs=[r2.get(x, []) for x in d['ids']],
                  back_works=[dict(f2.get(x, {}), group=g['group'], desc=g['desc'], zones=g['zones'], service=m2.get(x, {}).get('service', -1)) for x, g in zip(d['ids'], got)])
    if rng.random() < 0.4:
        subs = [dict(p=i + 1, s=f'sub{k}', pr=rng.choice([0, 50, 100])) for i in range(d['n']) for k in range(rng.randint(0, 2))]

        class Gen(StructureGenerationEstimator):
            def generate_probabilities(self, parent):
                return {s['s']: s['pr'] / 100 for s in subs if d['ids'][s['p'] - 1] == parent.id}

            def get_volume(self, parent, target):
                return int(target[3:]) + 7
        state = (look(wg, d['ids'])[1:], len(wg.nodes))
        big = DefaultStructureEstimator(Gen(), random.Random(rng.randint(0, 999))).set_work_estimator(est).restruct(wg)
        _, f3, m3, l3, r3 = look(big, d['ids'])
        added = [n for n in big.nodes if n.id not in {x.id for x in wg.nodes}]
        num = {x: i + 1 for i, x in enumerate(d['ids'])}
        good = []
        for n in added:
            par = [(num.get(e.start.id, 0), e.type.value, float(e.lag)) for e in n.edges_to]
            u = n.work_unit
            nm = u.model_name['granular_name']
            fine = len(par) == 1 and par[0][1] == 'FS' and par[0][2] == 0 and u.volume == int(nm[3:]) + 7 and \
                [(q.kind, int(q.volume), q.min_count, q.max_count) for q in u.worker_reqs] == needs(nm, u.volume) and \
                [(z.kind, z.required_status) for z in u.zone_reqs] == [(z.kind, z.required_status) for z in n.edges_to[0].start.work_unit.zone_reqs] and \
                any(e.finish.id == big.finish.id for e in n.edges_from)
            good.append(dict(p=par[0][0] if fine else 0, s=nm))
        old = {x: f3[x] for x in fields if x in f3} == fields and {x: m3[x] for x in more if x in m3} == more and \
            {x: r3[x] for x in reqs if x in r3} == reqs and sorted(map(str, (x for x in l3 if x['c']))) == sorted(map(str, links)) and \
            state == (look(wg, d['ids'])[1:], len(wg.nodes)) and big.start.id == wg.start.id and big.finish.id == wg.finish.id
        live = [s for s in subs if not more[d['ids'][s['p'] - 1]]['service']]
        tr.update(subs=live, subsgot=good, kept=int(tr['kept'] and old))
    return tr, cols


def batch(arg):
    seed, count = arg
    out = []
    with tempfile.TemporaryDirectory() as tmp:
        for i in range(count):
            sd = f'{seed} {i}'
            rng = random.Random(sd)
            site, cols = '', ()
            try:
                tr, cols = core.limited(one, 60, rng, tmp)
            except Exception as e:
                site = core.error_site(e)
                tr = dict(names=[], given=[], err=site)
            for k in ('want', 'got', 'people', 'peoplegot', 'back_works'):      # compared as a whole
                tr[k] = [json.dumps(x, sort_keys=True, default=str, ensure_ascii=False) for x in tr.get(k, [])]
            out.append((tr, dict(site=site, seed=sd, cols=sorted(cols))))
    return out


def check(run):
    q = run.quick
    for m, inv in (('', 'InvDone\nINVARIANT InvDropped\nINVARIANT InvNoLoop\nINVARIANT InvGiven'), ('strong', 'InvDropped'), ('any', 'InvDropped'), ('one', 'InvDone')):
        run.mc('InputMC', CFG.format(m=m, w='1, 2' if not m and not q else '1, 2' if m else '1, 2', inv=inv), f'loops {m or "correct"}', expect_violation=bool(m))
    h = 'InvRespected\nINVARIANT InvMirror\nINVARIANT InvUnanimous'
    run.mc('InputHistMC', HCFG.format(top=3 if q else 4, sites=2, wrong='FALSE', inv=h), 'history')
    run.mc('InputHistMC', HCFG.format(top=2, sites=1, wrong='TRUE', inv='InvRespected'), 'history read backwards', expect_violation=True)
    n, per = (32, 30) if q else (160, 60)
    items = [x for b in core.pmap(batch, [(f'{run.seed} input {i}', per) for i in range(n)]) for x in b]
    for tr, meta in items:
        for c in meta['cols']:
            run.cover('with ' + c)
        if not tr['err']:
            run.cover('links', len(tr['links']))
            run.cover('written and read again', tr['back'])
            run.cover('added works', len(tr['subsgot']))
            run.cover(f'mode all={tr["all"]} change={tr["change"]}')
            run.cover('with history', bool(tr['hist']) + 0)
    run.sample({k: v for k, v in items[1][0].items() if k in ('names', 'given', 'hist', 'links')})
    run.check_traces('InputTrace', items)
