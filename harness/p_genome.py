"""P11: chromosomes (spec/Genome.tla): conversion from and to schedules, and all the genetic operators."""
import copy
import random

import core
import gen
import sched

CFG = '''SPECIFICATION Spec
CONSTANTS Mistake = "{m}"
 MaxSteps = {n}
VIEW View
INVARIANTS InvValid InvCorrect
'''


def chrom(ind, kinds, names):
    """Individual -> plain data, columns in the order of inst kinds (names: worker_name2index)."""
    col = [names[k] if k in names else None for k in kinds]
    pick = lambda row: [int(row[c]) if c is not None else 0 for c in col]
    return dict(order=[int(x) + 1 for x in ind[0]], res=[pick(r) for r in ind[1]], con=[int(r[-1]) + 1 for r in ind[1]],
                brd=[pick(r) for r in ind[2]], zone=[[int(x) for x in r] for r in ind[4]])


def describe(inst, wg, index2node, landscape_zones, ns):
    """The project as Genome sees it (from the instance, not from the library's own tables)."""
    num = {w['id']: i + 1 for i, w in enumerate(inst['works'])}
    hd = gen.heads(inst)
    H = len(index2node)
    idx = {num[index2node[i].id]: i + 1 for i in range(H)}       # work number of a head -> head index
    par = [set() for _ in range(H)]
    for e in inst['edges']:
        p, c = hd[e['p']], hd[e['c']]
        if p != c:
            par[idx[c] - 1].add(idx[p])
    K, C = len(inst['kinds']), len(inst['contractors'])
    lo, hi, spec, prio = [], [], [], []
    for i in range(H):
        w = inst['works'][num[index2node[i].id] - 1]
        s = inst['spec'][num[index2node[i].id] - 1]
        l, h = [0] * K, [0] * K
        for r in w['reqs']:
            k = r['k'] - 1
            a = s['workers'][k]
            l[k], h[k] = (r['min'], r['max']) if a < 0 else (a, a)
        lo.append(l)
        hi.append(h)
        spec.append([1 if not s['contractors'] or c + 1 in s['contractors'] else 0 for c in range(C)])
        prio.append(w['prio'])
    caps = [[max(0, c['caps'][k]) for k in range(K)] for c in inst['contractors']]
    has = [[1 if c['caps'][k] >= 0 else 0 for k in range(K)] for c in inst['contractors']]
    return dict(H=H, par=[sorted(p) for p in par], prio=prio, lo=lo, hi=hi, spec=spec, caps=caps, has=has,
                nz=landscape_zones, ns=ns), idx


def rows_of(works, inst, idx, hd):
    """works of heads -> rows [h, s, f, c, team]; s/f span the whole chain."""
    out = {}
    for r in sched.project_schedule(type('S', (), dict(works=works)), inst):
        h = idx[hd[r['w']]]
        q = out.setdefault(h, dict(h=h, s=r['s'], f=r['f'], c=r['c'], team=[dict(k=m['k'], n=m['n']) for m in r['team']]))
        q['s'], q['f'] = min(q['s'], r['s']), max(q['f'], r['f'])
    return [out[h] for h in sorted(out)]


def history(rng):
    import numpy as np
    from sampo.scheduler.genetic.schedule_builder import create_toolbox
    from sampo.scheduler.genetic.utils import prepare_optimized_data_structures
    from sampo.api.genetic_api import ScheduleGenerationScheme as SGS
    from sampo.schemas.landscape import LandscapeConfiguration
    from sampo.schemas.zones import ZoneConfiguration
    from sampo.schemas.time import Time
    inst = gen.topo_instance(rng, n=(3, 9), contractors=(1, 3), kinds=(1, 3), chains=rng.choice([0, 0.3]), prios=0.6,
                             spec=rng.choice([0, 0.6]), partial=0.4, min0=0.15, edge_p=rng.choice([0.2, 0.5]))
    inst['t0'] = 0
    for c in inst['contractors']:
        order = list(range(len(inst['kinds'])))
        rng.shuffle(order)
        c['order'] = order
    nz = rng.choice([0, 0, 1, 2])
    land = LandscapeConfiguration() if not nz else LandscapeConfiguration(
        zone_config=ZoneConfiguration(start_statuses={f'z{i}': 1 for i in range(nz)}, time_costs=np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]])))
    wg, cs, spec = gen.build(inst)
    s = prepare_optimized_data_structures(wg, cs, land, spec)
    index2node, names = s[1], s[4]
    ns = land.zone_config.statuses.statuses_available()
    G, idx = describe(inst, wg, index2node, nz, ns)
    hd = gen.heads(inst)
    rand = random.Random(rng.randint(0, 10 ** 9))
    sgs = rng.choice([SGS.Serial, SGS.Parallel])
    tb = create_toolbox(wg, cs, selection_size=6, mutate_order=rng.choice([0.2, 0.7]), mutate_resources=rng.choice([0.2, 0.7]),
                        mutate_zones=0.5, rand=rand, spec=spec, sgs_type=sgs, landscape=land, verbose=False)
    ch = lambda ind: chrom(ind, inst['kinds'], names)
    ev, pop = [], []
    for _ in range(4):
        name = rng.choice(['rtopo', 'rlft', 'heft', 'topo', 'lft', 'between'])
        q, _, _, order = sched.make_scheduler(name, rng.randint(0, 10 ** 6)).schedule_with_cache(wg, cs, spec, landscape=land)[0]
        ind = tb.Individual(tb.schedule_to_chromosome(schedule=q, order=order))
        ev.append(dict(op='encode', c=ch(ind), rows=rows_of(list(q.works), inst, idx, hd)))
        pop.append(ind)

    def damaged(ind):
        x = tb.copy_individual(ind)
        kind = rng.choice(['swap', 'res', 'con', 'brd', 'brdup', 'none'])
        h = rng.randrange(G['H'])
        if kind == 'swap' and G['H'] > 2:
            i, j = rng.sample(range(G['H']), 2)
            x[0][[i, j]] = x[0][[j, i]]
        elif kind == 'res':
            k = rng.randrange(len(names))
            x[1][h, k] = x[2][x[1][h, -1], k] + rng.choice([0, 1])
        elif kind == 'con':
            x[1][h, -1] = rng.randrange(len(cs))
        elif kind == 'brd':
            c, k = rng.randrange(len(cs)), rng.randrange(len(names))
            x[2][c, k] = max(0, x[2][c, k] - rng.randint(1, 3))
        elif kind == 'brdup':
            x[2][rng.randrange(len(cs)), rng.randrange(len(names))] += 1
        return x

    borders_changed = False
    for _ in range(rng.randint(6, 12)):
        op = rng.choice(['mate', 'mate_order', 'mate_resources', 'mutate', 'mutate_order', 'mutate_resources', 'mutate_borders',
                         'zones', 'judge', 'decode', 'decode', 'copy'])
        a, b = rng.sample(pop, 2)
        if op in ('mate', 'mate_order', 'mate_resources'):
            opt = 1 if borders_changed or rng.random() < 0.4 else 0
            before = [ch(a), ch(b)]
            res = {'mate': lambda: tb.mate(a, b, bool(opt)), 'mate_order': lambda: tb.mate_order(a, b),
                   'mate_resources': lambda: tb.mate_resources(a, b, optimize_resources=bool(opt))}[op]()
            ev.append(dict(op=op, opt=opt, before=before, after=[ch(x) for x in res], kept=int([ch(a), ch(b)] == before)))
            pop += list(res)
        elif op in ('mutate', 'mutate_order', 'mutate_resources', 'mutate_borders'):
            x = tb.copy_individual(a)
            before = ch(x)
            f = dict(mutate=tb.mutate, mutate_order=tb.mutate_order, mutate_resources=tb.mutate_resources,
                     mutate_borders=tb.mutate_resource_borders)[op]
            res = f(x)
            ev.append(dict(op=op, opt=0, before=[before], after=[ch(res)], kept=int(ch(a) == before)))
            borders_changed |= op == 'mutate_borders'
            pop.append(res)
        elif op == 'copy':
            x = tb.copy_individual(a)
            before = ch(a)
            x[0][:] = 0
            x[1][:] = 0
            x[2][:] = 0
            ev.append(dict(op=op, opt=0, before=[before], after=[ch(a)], kept=int(ch(a) == before)))
        elif op == 'zones':
            x, y = tb.copy_individual(a), tb.copy_individual(b)
            tb.mutate_post_zones(x)
            ev.append(dict(op=op, opt=0, before=[], after=[ch(z) for z in tb.mate_post_zones(x, y)], kept=1))
        elif op == 'judge':
            x = damaged(a)
            ev.append(dict(op=op, c=ch(x), ok=int(bool(tb.validate(x)))))
            ev.append(dict(op=op, c=ch(a), ok=int(bool(tb.validate(a)))))
        else:
            for _ in range(rng.choice([0, 2, 5])):       # narrow the borders first
                x = tb.copy_individual(a)
                before = ch(x)
                a = tb.mutate_resource_borders(x)
                ev.append(dict(op='mutate_borders', opt=0, before=[before], after=[ch(a)], kept=1))
                borders_changed = True
            before = ch(a)
            works, _, _, _ = tb.chromosome_to_schedule(a)
            ev.append(dict(op='decode', c=before, rows=rows_of(list(works.values()), inst, idx, hd)))
            from sampo.schemas.schedule import Schedule
            back = tb.schedule_to_chromosome(schedule=Schedule.from_scheduled_works(list(works.values()), wg),
                                             order=[index2node[int(i)] for i in a[0]])
            ev.append(dict(op='roundtrip', c=before, d=ch(back)))
            if ch(a) != before:
                ev[-2]['op'] = 'mutate_order'
    return G, ev


def batch(arg):
    seed, count = arg
    items = []
    for i in range(count):
        rng = random.Random(f'{seed} {i}')
        ev, G, err = [], dict(H=0), ''
        try:
            G, ev = core.limited(history, 60, rng)
        except Exception as e:
            err = core.error_site(e)
        items.append((dict(G=G, ev=ev, err=err), dict(site='genome', seed=f'{seed} {i}')))
    return items


def check(run):
    q = run.quick
    run.mc('GenomeMC', CFG.format(n=2 if q else 4, m='none'), label='GenomeMC operators', timeout=2000)
    for m in ('nochild', 'middle', 'rows', 'borders'):
        run.mc('GenomeMC', CFG.format(n=2, m=m), label=f'GenomeMC mistake {m}', expect_violation=True)
    rng = random.Random(run.seed * 1000 + 11)
    n = 640 if q else 12000
    items = [x for b in core.pmap(batch, [(rng.randint(0, 10 ** 9), n // 32) for _ in range(32)]) for x in b]
    for t, _ in items:
        for e in t['ev']:
            run.cover(e['op'])
    run.sample(items[0][0]['ev'][-1:])
    for i in range(0, len(items), 3000):
        run.check_traces('GenomeTrace', items[i:i + 3000])
