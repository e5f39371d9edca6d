"""P10: the schedule validator (spec/Validate.tla): plans of schedulers, and plans damaged at random, are judged by the
validator and by the specification."""
import copy
import random

import core
import gen
import sched

CFG = '''SPECIFICATION Spec
CONSTANTS N = {n}
 H = {h}
 Cap1 = 2
 Mistake = "{m}"
INVARIANTS InvSweep InvRule
'''


def damage(rng, inst, rows):
    """One small change of a plan."""
    rows = copy.deepcopy(rows)
    r = rng.choice(rows)
    op = rng.choice(['start', 'finish', 'shift', 'count', 'contractor', 'kind', 'drop', 'teamc', 'extra', 'empty', 'swap', 'meet',
                     'both', 'parent', 'limit', 'limit', 'clash', 'clash', 'clash'])
    if op == 'start':
        r['s'] = min(r['f'], max(0, r['s'] + rng.choice([-2, -1, 1])))
    elif op == 'finish':
        r['f'] = max(r['s'], r['f'] + rng.choice([-1, 1, 2]))
    elif op == 'shift':
        d = rng.choice([-2, -1, 1, 2])
        if r['s'] + d >= 0:
            r['s'] += d
            r['f'] += d
    elif op == 'count' and r['team']:
        rng.choice(r['team'])['n'] += rng.choice([-1, 1])
    elif op == 'limit' and r['team']:
        m = rng.choice(r['team'])
        for q in inst['works'][r['w'] - 1]['reqs']:
            if q['k'] == m['k']:
                m['n'] = rng.choice([q['min'], q['max'], q['max'] + 1, q['min'] - 1])
    elif op == 'contractor':
        c = rng.randint(1, len(inst['contractors']))
        r['c'] = c
        for m in r['team']:
            m['c'] = c
    elif op == 'teamc' and r['c']:
        r['c'] = rng.randint(1, len(inst['contractors']))
        for m in r['team']:
            m['c'] = r['c']
    elif op == 'kind' and r['team']:
        rng.choice(r['team'])['k'] = rng.randint(1, len(inst['kinds']))
    elif op == 'drop' and len(rows) > 2:
        rows.remove(r)
    elif op == 'extra':
        rows.append(dict(r, w=0, team=[]))
    elif op == 'empty':
        r['team'] = []
    elif op == 'swap':
        q = rng.choice(rows)
        r['s'], r['f'], q['s'], q['f'] = q['s'], q['f'], r['s'], r['f']
    elif op in ('meet', 'both'):
        q = rng.choice(rows)          # r starts exactly at (or one before / after) the start or the finish of q
        d = r['f'] - r['s']
        r['s'] = max(0, rng.choice([q['s'], q['f'], q['f'] - 1, q['f'] + 1, q['f'] - d]))
        r['f'] = r['s'] + d
        if op == 'both':              # same crew as q
            r['c'] = q['c']
            for m in r['team']:
                m['c'] = q['c']
    elif op == 'clash':               # two crews that do not fit together overlap by one hour
        def clash(x, y):
            return x is not y and x['c'] == y['c'] and x['f'] > x['s'] and y['f'] > y['s'] and \
                any(m['k'] == o['k'] and m['n'] + o['n'] > inst['contractors'][x['c'] - 1]['caps'][m['k'] - 1] for m in x['team'] for o in y['team'])
        ps = [(x, y) for x in rows for y in rows if x['c'] and clash(x, y) and x['s'] >= y['f']
              and not any(e['c'] == x['w'] and e['p'] == y['w'] for e in inst['edges'])]
        if ps:
            x, y = rng.choice(ps)
            d = x['f'] - x['s']
            x['s'] = y['f'] - 1
            x['f'] = x['s'] + d
    elif op == 'parent':
        es = [e for e in inst['edges'] if e['c'] == r['w']]
        if es:
            e = rng.choice(es)
            ps = [x for x in rows if x['w'] == e['p']]
            if ps:
                d = r['f'] - r['s']
                r['s'] = max(0, ps[0]['f'] - rng.choice([0, 0, 1, d]))
                r['f'] = r['s'] + d
    for x in rows:
        for m in x['team']:
            m['n'] = max(0, m['n'])
    return rows


def to_schedule(inst, rows, wg, contractors):
    from sampo.schemas.resources import Worker
    from sampo.schemas.schedule import Schedule
    from sampo.schemas.scheduled_work import ScheduledWork
    from sampo.schemas.time import Time
    from sampo.schemas.works import WorkUnit
    out = []
    for r in rows:
        wu = wg[inst['works'][r['w'] - 1]['id']].work_unit if r['w'] else WorkUnit('alien', 'alien')
        ws = [Worker(f'x{i}', inst['kinds'][m['k'] - 1], m['n'], contractor_id=contractors[m['c'] - 1].id)
              for i, m in enumerate(r['team'])]
        out.append(ScheduledWork(wu, (Time(r['s']), Time(r['f'])), ws, contractors[r['c'] - 1] if r['c'] else None))
    return Schedule.from_scheduled_works(out)


def batch(arg):
    from sampo.schemas.time import Time
    from sampo.utilities.validation import validate_schedule
    seed, count = arg
    rng = random.Random(seed)
    items = []
    for _ in range(count):
        inst = gen.topo_instance(rng, n=(2, 7), contractors=(1, 3), kinds=(1, 3), maxcap=rng.choice([2, 3, 6]),
                                 spec=rng.choice([0, 0.6]), edge_p=rng.choice([0.1, 0.4]), chains=0.2)
        for s in inst['spec']:
            s['workers'] = [-1] * len(inst['kinds'])
        h = gen.heads(inst)
        inst['spec'] = [dict(inst['spec'][h[i + 1] - 1]) for i in range(len(inst['works']))]
        wg, cs, spec = gen.build(inst)
        name = rng.choice(['heft', 'between', 'topo', 'rtopo', 'lft', 'rlft'])
        sd = rng.randint(0, 10 ** 6)
        plans = []
        try:
            q = core.limited(lambda: sched.make_scheduler(name, sd).schedule(wg, cs, spec, start_time=Time(inst['t0']))[0], 60)
            rows = sched.project_schedule(q, inst)
            plans.append((rows, q, name))
        except Exception:
            continue                       # what a scheduler must do is P01..P06 / P21
        for _ in range(12):
            d = rows
            for _ in range(rng.choice([1, 1, 2, 3])):
                d = damage(rng, inst, d)
            d = [x for x in d]
            rng.shuffle(d)
            plans.append((d, None, 'plan'))
        for rows_, q, site in plans:
            err = ''
            try:
                if q is None:
                    q = to_schedule(inst, rows_, wg, cs)
            except Exception as e:
                raise RuntimeError('cannot build a plan') from e
            try:
                core.limited(validate_schedule, 20, q, wg, cs, spec)
                ok = 1
            except (AssertionError, LookupError):
                ok = 0
            items.append((dict(inst=inst, rows=rows_, ok=ok), dict(site='validate ' + site, seed=seed)))
    return items


def check(run):
    q = run.quick
    run.mc('ValidateMC', CFG.format(n=3, h=2 if q else 4, m='none'), label='ValidateMC sweep', timeout=2000)
    for m in ('startsfirst', 'lateclass'):
        run.mc('ValidateMC', CFG.format(n=3, h=2, m=m), label=f'ValidateMC mistake {m}', expect_violation=True)
    rng = random.Random(run.seed * 1000 + 10)
    n = 320 if q else 6000
    items = [x for b in core.pmap(batch, [(rng.randint(0, 10 ** 9), n // 40) for _ in range(40)]) for x in b]
    run.coverage['accepted'] = sum(t['ok'] for t, _ in items)
    run.coverage['rejected'] = sum(1 - t['ok'] for t, _ in items)
    run.sample(items[0][0])
    for i in range(0, len(items), 6000):
        run.check_traces('ValidateTrace', items[i:i + 6000])
