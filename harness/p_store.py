"""P16: saving, loading and copying of every kind of object (spec/Store.tla)."""
import copy
import json
import pickle
import random
import shutil
import tempfile

import core
import gen
import sched
from p_graph import Maker, abstract

CFG = '''SPECIFICATION Spec
CONSTANTS Mistake = "{m}"
 Steps = {k}
INVARIANTS {inv}
'''
HIDE = {'productivity'}      # never saved, wherever it occurs


def text(v):
    """A value with the types of its parts, as text."""
    if v is None:
        return 'None'
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, (int, float)) or type(v).__module__ == 'numpy':
        return str(v) if abs(v) == float('inf') else repr(int(v)) if v == int(v) else repr(float(v))
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(text(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ', '.join(f'{k}: {text(v[k])}' for k in v) + '}'
    return type(v).__name__ + '{' + ', '.join(f'{k}: {text(x)}' for k, x in sorted(vars(v).items()) if k not in HIDE) + '}'


def fields_of(o):
    """Class -> ordered names and readers of everything a user sees of an object."""
    from sampo.schemas.schedule import Schedule
    from sampo.schemas.project import ScheduledProject
    from sampo.schemas.scheduled_work import ScheduledWork
    from sampo.schemas.graph import WorkGraph
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.resources import Worker, Resource
    from sampo.schemas.works import WorkUnit
    from sampo.schemas.time import Time
    n = type(o).__name__
    g = lambda *names: [(x, (lambda y, x=x: text(getattr(y, x)))) for x in names]
    table = lambda y: text([[str(c) for c in y.full_schedule_df.columns if c not in ('scheduled_work_object', 'idx')]]
                           + [[r[c] for c in y.full_schedule_df.columns if c not in ('scheduled_work_object', 'idx')] for _, r in y.full_schedule_df.iterrows()])
    if isinstance(o, Schedule):
        return [('works', lambda y: text([works_text(w) for w in y.works])), ('table', table), ('end', lambda y: text(y.execution_time)),
                ('index', lambda y: text({k: works_text(w) for k, w in y.to_schedule_work_dict.items()}))], []
    if isinstance(o, ScheduledProject):
        return [('schedule', lambda y: table(y.schedule)), ('wg', lambda y: graph_text(y.wg)), ('contractors', lambda y: text(y.contractors))], []
    if isinstance(o, ScheduledWork):
        return g('id', 'model_name', 'display_name', 'is_service_unit', 'volume', 'priority', 'start_end_time', 'workers', 'zones_pre', 'zones_post',
                 'contractor', 'contractor_id', 'cost', 'duration', 'start_time', 'finish_time', 'equipments', 'materials', 'object'), ['equipments', 'materials', 'object']
    if isinstance(o, WorkGraph):
        return [('graph', lambda y: graph_text(y))], []
    if isinstance(o, Contractor):
        return g('id', 'name', 'workers', 'equipments') + [('costs', lambda y: text({k: w.get_cost() for k, w in y.workers.items()}))], []
    if isinstance(o, Worker):
        return g('id', 'name', 'count', 'contractor_id', 'cost_one_unit') + [('cost', lambda y: text(y.get_cost())), ('agent', lambda y: text(y.get_agent_id()))], []
    if isinstance(o, WorkUnit):
        return g('id', 'model_name', 'worker_reqs', 'equipment_reqs', 'material_reqs', 'object_reqs', 'zone_reqs', 'description', 'group', 'priority',
                 'is_service_unit', 'volume', 'display_name'), []
    if n == 'IntervalGaussian':
        return g('mean', 'sigma', 'min_val', 'max_val') + [('draw', lambda y: text(y.rand_float(random.Random(5))))], []
    if n == 'IntervalUniform':
        return g('min_val', 'max_val') + [('draw', lambda y: text(y.rand_float(random.Random(5))))], []
    if n == 'Material':
        return g('id', 'name', 'count', 'cost_one_unit'), []
    if isinstance(o, Resource):
        return g('id', 'name', 'count', 'contractor_id'), []
    if isinstance(o, Time):
        return g('value') + [('inf', lambda y: text(y.is_inf()))], []
    if n == 'ZoneTransition':
        return g('name', 'from_status', 'to_status', 'start_time', 'end_time'), []
    return g(*[k for k in vars(o)]), []


def graph_text(wg):
    a = abstract(wg)
    return json.dumps([sorted(zip(a['n'], a['k'], a['id'])), sorted((e['p'], e['c'], e['t'], e['lag']) for e in a['e']), a['s'], a['f']])


def works_text(w):
    return [text(getattr(w, x)) for x in ('id', 'model_name', 'display_name', 'is_service_unit', 'volume', 'priority', 'start_end_time', 'workers',
                                          'zones_pre', 'zones_post', 'contractor', 'contractor_id', 'cost')]


def name(rng):
    return rng.choice(['a', 'b c', 'é', '"q"', '', 'works', 'None', '_x', 'id']) + str(rng.randint(0, 9))


def make_worker(rng, contractor=''):
    from sampo.schemas.resources import Worker
    from sampo.schemas.interval import IntervalGaussian
    return Worker(name(rng), name(rng), rng.randint(0, 50), contractor, IntervalGaussian(rng.choice([1, 2]), 0, 1, 3),
                  rng.choice([None, 0, 3, 7.5, 12]))


def make_zone(rng):
    from sampo.schemas.zones import ZoneTransition
    from sampo.schemas.time import Time
    s = rng.randint(0, 9)
    return ZoneTransition(name(rng), rng.randint(0, 2), rng.randint(0, 2), Time(s), Time(s + rng.randint(0, 3)))


def make_swork(rng):
    from sampo.schemas.scheduled_work import ScheduledWork
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.time import Time
    from sampo.schemas.resources import Equipment
    from sampo.schemas.landscape import MaterialDelivery
    s = rng.randint(0, 100)
    c = Contractor(name(rng), rng.choice(['', 'C']), {}) if rng.random() < 0.8 else None
    return ScheduledWork(Maker(rng).unit(name(rng)), (Time(s), Time(s + rng.randint(0, 50))), [make_worker(rng, c.id if c else '') for _ in range(rng.randint(0, 3))],
                         c, equipments=[Equipment('e', 'e', 1)] if rng.random() < 0.3 else None,
                         zones_pre=[make_zone(rng) for _ in range(rng.randint(0, 2))], zones_post=[make_zone(rng) for _ in range(rng.randint(0, 1))],
                         materials=MaterialDelivery('w') if rng.random() < 0.3 else None)


def make_schedule(rng):
    from sampo.structurator import graph_restructuring
    inst = gen.topo_instance(rng, n=(2, 5))
    wg, contractors = gen.build(inst)[:2]
    s = sched.make_scheduler(rng.choice(['heft', 'topo', 'lft']), rng.randint(0, 99))
    res = s.schedule(wg, contractors, **({}))
    return (res[0] if isinstance(res, list) else res), wg, contractors


def make(rng, cls):
    from sampo.schemas import resources as R, requirements as Q, interval as I, time as T
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.project import ScheduledProject
    if cls == 'WorkUnit':
        return Maker(rng).unit(name(rng))
    if cls == 'Worker':
        return make_worker(rng, name(rng))
    if cls == 'Contractor':
        ws = [make_worker(rng) for _ in range(rng.randint(0, 3))]
        return Contractor(name(rng), name(rng), {w.name: w for w in ws}, {n: R.Equipment(n, n, rng.randint(1, 4)) for n in [name(rng) for _ in range(rng.randint(0, 2))]})
    if cls in ('Equipment', 'ConstructionObject'):
        return getattr(R, cls)(name(rng), name(rng), rng.randint(0, 9), name(rng))
    if cls == 'Material':
        return R.Material(name(rng), name(rng), rng.randint(0, 9), rng.choice([1, 2, 0.5]))
    if cls == 'WorkerReq':
        return Q.WorkerReq(name(rng), T.Time(rng.randint(0, 99)), rng.randint(0, 3), rng.randint(3, 9), name(rng))
    if cls == 'ZoneReq':
        return Q.ZoneReq(name(rng), rng.randint(0, 2), rng.choice([None, name(rng)]))
    if cls in ('EquipmentReq', 'MaterialReq', 'ConstructionObjectReq'):
        return getattr(Q, cls)(name(rng), rng.randint(0, 99), rng.choice([None, name(rng)]))
    if cls == 'Time':
        return T.Time(rng.choice([0, 1, -5, 10 ** 9, 3 * 10 ** 9, -3 * 10 ** 9, rng.randint(0, 10 ** 6)]))
    if cls == 'ZoneTransition':
        return make_zone(rng)
    if cls == 'IntervalGaussian':
        return I.IntervalGaussian(rng.choice([0, 1.5]), rng.choice([0.5, 2])) if rng.random() < 0.5 else I.IntervalGaussian(1, 2, 0, 3)
    if cls == 'IntervalUniform':
        return I.IntervalUniform(rng.choice([0, 1.5]), rng.choice([2.5, 2]))
    if cls == 'ScheduledWork':
        return make_swork(rng)
    if cls == 'WorkGraph':
        return Maker(rng).graph('w')[0]
    if cls == 'Schedule':
        return make_schedule(rng)[0]
    if cls == 'ScheduledProject':
        s, wg, cs = make_schedule(rng)
        return ScheduledProject(wg, wg, cs, s)
    raise ValueError(cls)


SMALL = ['WorkUnit', 'Worker', 'Contractor', 'Equipment', 'ConstructionObject', 'Material', 'WorkerReq', 'ZoneReq', 'EquipmentReq', 'MaterialReq',
         'ConstructionObjectReq', 'Time', 'ZoneTransition', 'IntervalGaussian', 'IntervalUniform', 'ScheduledWork', 'ScheduledWork', 'Contractor', 'WorkUnit']
BIG = ['WorkGraph', 'Schedule', 'Schedule', 'ScheduledProject']
SETS = {'WorkUnit': [('description', lambda r: name(r)), ('priority', lambda r: r.randint(1, 5)), ('volume', lambda r: float(r.randint(0, 9)))],
        'Contractor': [('name', lambda r: name(r))], 'Equipment': [('count', lambda r: r.randint(0, 9)), ('id', lambda r: name(r))],
        'Material': [('count', lambda r: r.randint(0, 9))], 'ConstructionObject': [('count', lambda r: r.randint(0, 9))],
        'ScheduledWork': [('display_name', lambda r: name(r)), ('volume', lambda r: float(r.randint(0, 9))), ('contractor', lambda r: name(r))],
        'ZoneTransition': [('to_status', lambda r: r.randint(0, 2))]}


def run_history(rng, cls, tr):
    import dill
    first = make(rng, cls)
    readers, ign = fields_of(first)
    live, forms = {1: first}, {}
    tr.update(c=cls, ign=ign, fields=[n for n, _ in readers], first=[f(first) for _, f in readers])
    kind = {}

    def snap(e):
        e['all'] = [[f(live[o]) for _, f in readers] if o in live else [''] * len(readers) for o in range(1, 5)]
        e['out'] = [json.dumps(forms[s]) if s in forms and kind[s] == 'dict' else forms.get(s, '') for s in range(1, 4)]
        tr['steps'].append(e)

    tmp = tempfile.mkdtemp()
    try:
        for _ in range(rng.randint(3, 7)):
            op = rng.choice(['save', 'save', 'load', 'load', 'copy', 'set'])
            e = dict(op=op, o=1, b=1, s=0, f=1, x='')
            if op == 'save' or not forms:
                e['op'] = 'save'
                e['o'] = rng.choice(sorted(live))
                s = e['s'] = rng.randint(1, 3)
                how = rng.choice(['dict', 'text', 'file'])
                o = live[e['o']]
                if how == 'dict':
                    forms[s] = o.dumpd()
                elif how == 'text':
                    forms[s] = o.dumps()
                else:
                    o.dump(tmp, f'f{s}')
                    forms[s] = open(o.get_full_file_name(tmp, f'f{s}'), encoding='utf-8').read()
                kind[s] = how
            elif op == 'load':
                s = e['s'] = rng.choice(sorted(forms))
                e['o'] = rng.randint(1, 4)
                t = type(first)
                live[e['o']] = t.loadd(forms[s]) if kind[s] == 'dict' else t.loads(forms[s]) if kind[s] == 'text' or rng.random() < 0.5 else t.loadf(tmp, f'f{s}')
            elif op == 'copy':
                e['o'], e['b'] = rng.choice(sorted(live)), rng.randint(1, 4)
                o = live[e['o']]
                how = rng.choice(['deep', 'pickle', 'dill', 'own'])
                live[e['b']] = (o.copy() if how == 'own' and hasattr(o, 'copy') else pickle.loads(pickle.dumps(o)) if how == 'pickle'
                                else dill.loads(dill.dumps(o)) if how == 'dill' else copy.deepcopy(o))
            else:
                if cls not in SETS:
                    continue
                f, val = rng.choice(SETS[cls])
                e['o'] = rng.choice(sorted(live))
                x = val(rng)
                setattr(live[e['o']], f, x)
                e['f'], e['x'] = tr['fields'].index(f) + 1, text(x)
            snap(e)
    finally:
        shutil.rmtree(tmp)


def batch(arg):
    seed, count, classes = arg
    out = []
    for i in range(count):
        rng = random.Random(f'{seed} {i}')
        cls = rng.choice(classes)
        tr = dict(c=cls, ign=[], fields=['x'], first=['x'], steps=[], err='')
        try:
            core.limited(run_history, 30, rng, cls, tr)
        except Exception as e:
            tr['err'] = core.error_site(e)
        out.append((tr, dict(site=cls, seed=f'{seed} {i}', classes=classes)))
    return out


def check(run):
    q = run.quick
    run.mc('StoreMC', CFG.format(m='none', k=5 if q else 7, inv='InvSaved InvIgnored'), label='StoreMC histories', timeout=3000)
    for m in ('consume', 'alias'):
        run.mc('StoreMC', CFG.format(m=m, k=4, inv='InvSaved'), label=f'StoreMC mistake {m}', expect_violation=True)
    rng = random.Random(run.seed * 1000 + 16)
    n, b = (2400, 400) if q else (40000, 6000)
    jobs = [(rng.randint(0, 10 ** 9), n // 40, SMALL) for _ in range(40)] + [(rng.randint(0, 10 ** 9), b // 40, BIG) for _ in range(40)]
    items = [x for part in core.pmap(batch, jobs) for x in part]
    for t, _ in items:
        run.cover(t['c'])
        for e in t['steps']:
            run.cover('op ' + e['op'])
    run.sample(items[0][0])
    for i in range(0, len(items), 8000):
        run.check_traces('StoreTrace', items[i:i + 8000])
