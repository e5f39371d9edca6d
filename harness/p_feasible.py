"""P20: projects are refused exactly when they cannot be done (spec/Feasible.tla)."""
import random

import core
import gen
import sched

CFG = '''SPECIFICATION Spec
CONSTANT Mistake = "{m}"
CONSTANT Full = {full}
INVARIANT {inv}
'''


def spoil(inst, rng):
    """Make some projects infeasible, in one particular respect each."""
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        c = rng.choice(inst['contractors'])
        k = rng.randrange(len(inst['kinds']))
        what = rng.choice(['less', 'none', 'one', 'only', 'gone', 'want', 'alien'])
        heads = [i for i, h in enumerate(gen.heads(inst)[1:]) if h == i + 1 and not inst['works'][i]['svc']]
        if what == 'less':
            for c in inst['contractors']:
                c['caps'][k] = min(c['caps'][k], rng.randint(0, 2))
        elif what == 'none':
            c['caps'][k] = -1
        elif what == 'one':
            for x in inst['contractors']:
                if x is not c and x['caps'][k] > 0:
                    x['caps'][k] -= 1
        elif what == 'gone' and len(inst['contractors']) > 1 and not any(s['contractors'] for s in inst['spec']):
            inst['contractors'].remove(c)
        elif what == 'only' and heads:
            inst['spec'][rng.choice(heads)]['contractors'] = [rng.randint(1, len(inst['contractors']))]
        elif what == 'alien' and rng.random() < 0.3:
            inst['spec'][rng.choice(heads) if heads else 0]['contractors'] = [len(inst['contractors']) + 5]
        elif what == 'want' and heads:
            h = rng.choice(heads)
            for q in inst['works'][h]['reqs']:
                if rng.random() < 0.7:
                    inst['spec'][h]['workers'][q['k'] - 1] = rng.randint(max(1, q['min']), q['max'])


def runs(inst, rng, empty):
    from sampo.scheduler import HEFTScheduler, HEFTBetweenScheduler
    from sampo.scheduler.resources_in_time.average_binary_search import AverageBinarySearchResourceOptimizingScheduler
    from sampo.pipeline import SchedulingPipeline
    from sampo.schemas.time import Time
    est = gen.estimator(inst)
    out = []

    def one(name, fn):
        wg, cs, spec = gen.build(inst)
        if empty:
            cs = []
        try:
            core.limited(fn, 30, wg, cs, spec)
            r = 'ok'
        except Exception as e:
            r = type(e).__name__
            if r not in ('NoSufficientContractorError', 'ValueError'):
                r = core.error_site(e)
        out.append(dict(name=name, out=r))
    names = sched.scheduler_configs()
    rng.shuffle(names)
    for n in names[:4]:
        one(n, lambda wg, cs, spec: sched.make_scheduler(n, 1, est).schedule(wg, cs, spec, validate=rng.random() < 0.5))
    if rng.random() < 0.4 and not empty:
        d = rng.choice([1, 10, 40, 1000])
        n = rng.choice(['gen_par', 'gen_ser'])

        def evolve(wg, cs, spec):
            g = sched.make_scheduler(n, 1, est, optimize_resources=rng.random() < 0.5)
            g.set_deadline(Time(d))
            g.schedule(wg, cs, spec)
        one(n + ' deadline', evolve)
        k = rng.choice([HEFTScheduler, HEFTBetweenScheduler])
        one('resource search', lambda wg, cs, spec: AverageBinarySearchResourceOptimizingScheduler(k(**({} if est is None else dict(work_estimator=est))))
            .schedule_with_cache(wg, cs, Time(d), spec))
    if rng.random() < 0.4 and not empty:
        n2 = names[0]
        one('pipeline ' + n2, lambda wg, cs, spec: SchedulingPipeline.create().wg(wg).contractors(cs).spec(spec).schedule(sched.make_scheduler(n2, 1, est)).finish())
    return out


def batch(arg):
    seed, count = arg
    items = []
    for i in range(count):
        sd = f'{seed} {i}'
        rng = random.Random(sd)
        inst = gen.topo_instance(rng, n=(1, 6), spec=rng.choice([0, 0.3]), partial=0.3, contractors=(1, 4), kinds=(1, 4), est=rng.choice(['linear', 'default']),
                                 prios=0.2, zero_req=0.15)
        spoil(inst, rng)
        empty = rng.random() < 0.02
        tr = dict(tasks=[dict(reqs=[dict(k=q['k'], min=q['min'], max=q['max']) for q in w['reqs']], want=s['workers'], only=s['contractors'])
                         for w, s, h, j in zip(inst['works'], inst['spec'], gen.heads(inst)[1:], range(1, 99)) if h == j],
                  caps=[c['caps'] for c in inst['contractors']], runs=[], empty=int(empty), err='')
        try:
            tr['runs'] = runs(inst, rng, empty)
        except Exception as e:
            tr['err'] = core.error_site(e)
        items.append((tr, dict(site='project', seed=sd)))
    return items


def check(run):
    q = run.quick
    run.mc('FeasibleMC', CFG.format(m='none', full='FALSE' if q else 'TRUE', inv='InvFinish InvNever'), label='FeasibleMC', timeout=3000)
    for m, inv in (('total', 'InvFinish'), ('any', 'InvFinish'), ('noreturn', 'InvFinish')):
        run.mc('FeasibleMC', CFG.format(m=m, full='FALSE', inv=inv), label=f'FeasibleMC mistake {m}', expect_violation=True)
    rng = random.Random(run.seed * 1000 + 20)
    n = 800 if q else 16000
    items = [x for b in core.pmap(batch, [(rng.randint(0, 10 ** 9), n // 40) for _ in range(40)], timeout=3000) for x in b]
    for t, _ in items:
        for r in t['runs']:
            run.cover(r['out'])
            run.cover('runs of ' + r['name'])
    run.sample(items[0][0])
    for i in range(0, len(items), 4000):
        run.check_traces('FeasibleTrace', items[i:i + 4000])
