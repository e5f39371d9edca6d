"""P26: landscapes: roads, depots and places of works (spec/Roads.tla)."""
import random

import core

CFG = '''SPECIFICATION Spec
CONSTANTS Mistake = "{m}"
N = {n}
NRoads = {r}
Lens = {{{lens}}}
INVARIANT InvDist
INVARIANT InvWay
'''


def plan(rng):
    n = rng.randint(2, 6)
    roads = []
    for x in range(2, n + 1):        # every place has a road; sometimes in two parts
        if rng.random() < 0.12 and x > 2 and x < n:
            roads.append(dict(a=x, b=x + 1))
        else:
            roads.append(dict(a=x, b=rng.randint(1, x - 1)))
    for _ in range(rng.choice([0, 1, 2, 5])):
        a, b = rng.sample(range(1, n + 1), 2)
        roads.append(dict(a=a, b=b))
    if rng.random() < 0.5:
        r = rng.choice(roads)
        roads.append(dict(a=r['b'], b=r['a']))
    short = rng.random() < 0.4
    for r in roads:
        r.update(len=rng.choice([0, 1, 2, 3]) if short else rng.randint(1, 60), bw=rng.randint(1, 9))
    rng.shuffle(roads)
    holders = sorted(rng.sample(range(1, n + 1), rng.randint(0, n - 1)))
    stock = [[rng.randint(0, 50) for _ in range(2)] for _ in range(n)]
    cars = [rng.randint(0, 4) if x + 1 in holders else 0 for x in range(n)]
    return n, roads, holders, stock, cars


def by_hand(rng, n, roads, holders, stock, cars, works):
    from sampo.schemas.landscape import LandscapeConfiguration, ResourceHolder, Vehicle
    from sampo.schemas.landscape_graph import LandGraph, LandGraphNode, ResourceStorageUnit
    from sampo.schemas.resources import Material
    nodes = {}
    told = rng.random() < 0.5
    done = set()
    own = rng.random() < 0.7
    for x in rng.sample(range(1, n + 1), n):
        kw = dict(id=f'p{x}') if own else {}
        first = [i for i, r in enumerate(roads) if i not in done and ((r['a'] == x and r['b'] in nodes) or (r['b'] == x and r['a'] in nodes))] if told else []
        done.update(first)
        if first:
            kw['neighbour_nodes'] = [(nodes[roads[i]['b'] if roads[i]['a'] == x else roads[i]['a']], roads[i]['len'], roads[i]['bw']) for i in first]
        w = [g for g, p in works if p == x]
        if w and rng.random() < 0.5:
            kw['works'] = w if len(w) > 1 or rng.random() < 0.5 else w[0]
            w = []
        nodes[x] = LandGraphNode(name=f'place {x}', resource_storage_unit=ResourceStorageUnit({f'm{i}': c for i, c in enumerate(stock[x - 1])}), **kw)
        if w:
            nodes[x].add_works(w if len(w) > 1 or rng.random() < 0.5 else w[0])
    for i, r in enumerate(roads):
        if i not in done:
            nb = (nodes[r['b']], r['len'], r['bw'])
            if rng.random() < 0.3:
                _ = nodes[r['a']].neighbours, nodes[r['b']].neighbours
            nodes[r['a']].add_neighbours([nb] if rng.random() < 0.5 else nb)
    hs = [ResourceHolder(f'H{x}', f'depot {x}', [Vehicle(f'v{x}_{j}', f'v{j}', [Material('m0', 'm0', 5)]) for j in range(cars[x - 1])], nodes[x]) for x in holders]
    order = list(nodes)
    rng.shuffle(order)
    rng.shuffle(hs)
    return LandscapeConfiguration(hs, LandGraph(nodes=[nodes[x] for x in order])), nodes, {x: h for h in hs for x in holders if h.node is nodes[x]}


def by_names(rng, n, roads, holders, stock, cars, works):
    from sampo.generator.environment.landscape import setup_landscape
    mats = lambda x: {f'm{i}': c for i, c in enumerate(stock[x - 1])}
    info = {}
    for r in roads:
        a, b = (r['a'], r['b']) if rng.random() < 0.5 else (r['b'], r['a'])
        info.setdefault(f'place {a}', []).append((f'place {b}', r['len'], r['bw']))
    land = setup_landscape({f'place {x}': mats(x) for x in range(1, n + 1) if x not in holders},
                           {f'place {x}': [mats(x), [(f'v{j}', {'m0': 5}) for j in range(cars[x - 1])]] for x in holders}, info)
    nodes = {int(v.name.split()[1]): v for v in land.lg.nodes}
    for g, p in works:
        nodes[p].add_works(g)
    # the places of works are known when the landscape is put together
    from sampo.schemas.landscape import LandscapeConfiguration
    land = LandscapeConfiguration(land.holders, land.lg)
    return land, nodes, {int(h.name.split()[1]): h for h in land.holders}


def one(rng):
    from sampo.schemas.graph import GraphNode
    from sampo.schemas.landscape_graph import LandGraphNode
    from sampo.schemas.works import WorkUnit
    n, roads, holders, stock, cars = plan(rng)
    free = [x for x in range(1, n + 1) if x not in holders]
    works = [(GraphNode(WorkUnit(f'w{i}', {'granular_name': 'w', 'measurement': 'u'}), []), rng.choice(free)) for i in range(rng.randint(0, 4))]
    how = rng.choice([by_hand, by_hand, by_names])
    land, nodes, hs = how(rng, n, roads, holders, stock, cars, works)
    num = {id(v): x for x, v in nodes.items()}
    byid = {v.id: x for x, v in nodes.items()}
    es = land.lg.edges
    got = []
    left = dict(enumerate(roads, 1))
    roadno = {}
    for e in es:
        x, y = sorted((num[id(e.start)], num[id(e.finish)]))
        got.append(dict(x=x, y=y, len=e.weight, bw=e.bandwidth))
        i = next((i for i, r in left.items() if sorted((r['a'], r['b'])) == [x, y] and (r['len'], r['bw']) == (e.weight, e.bandwidth)), 0)
        left.pop(i, None)
        roadno[e.id] = i
    names = {r.id: r for r in land.roads}
    for i, no in roadno.items():
        r = names[i]
        if no and (r.length, r.vehicles, r.speed * r.overcome_time >= r.length, r.speed * (r.overcome_time - 1) < r.length) != (roads[no - 1]['len'], roads[no - 1]['bw'], True, True):
            raise AssertionError('road and its edge differ')
    near = [[dict(d=int(d), h=byid[h]) for d, h in land.get_sorted_holders(nodes[x])] if x not in holders else [] for x in range(1, n + 1)]
    routes, built = [], []
    comp = {x: x for x in nodes}
    for _ in nodes:
        for r in roads:
            comp[r['a']] = comp[r['b']] = min(comp[r['a']], comp[r['b']])
    for x in nodes:
        for y in nodes:
            if x != y and comp[x] == comp[y]:
                routes.append(dict(x=x, y=y, way=[roadno.get(i, 0) for i in land.get_route(nodes[x], nodes[y])]))
            if x != y and rng.random() < 0.6:
                use = [r for r in land.roads if rng.random() < 0.7]
                built.append(dict(x=x, y=y, use=[roadno[r.id] for r in use], way=[roadno.get(i, 0) for i in land.construct_route(nodes[x], nodes[y], use)]))
    res = land.get_all_resources()
    plat = land.get_platforms_resources()
    stockgot = [[(res[0][hs[x].id] if x in holders else plat[nodes[x].id]).get(f'm{i}', -1) for i in range(2)] for x in range(1, n + 1)]
    carsgot = [res[0][hs[x].id]['vehicles'] if x in holders else 0 for x in range(1, n + 1)]
    for r in land.roads:
        if res[1][r.id] != {'vehicles': r.vehicles}:
            raise AssertionError('resources of a road')
    return dict(n=n, roads=roads, holders=holders, near=near, routes=routes, built=built, got=got, platforms=[num[id(v)] for v in land.platforms],
                stock=stock, stockgot=stockgot, cars=cars, carsgot=carsgot, works=[p for _, p in works], worksgot=[num[id(land.works2platform[g])] for g, _ in works],
                ids=[v.id for v in land.lg.nodes] + [LandGraphNode().id for _ in range(2)], others=[[num[id(v)] for v in nodes[x].neighbours] for x in range(1, n + 1)], err=''), how.__name__


def batch(arg):
    seed, count = arg
    out = []
    for i in range(count):
        sd = f'{seed} {i}'
        rng = random.Random(sd)
        site = 'landscape'
        try:
            tr, site = core.limited(one, 30, rng)
        except Exception as e:
            site = core.error_site(e)
            tr = dict(err=site)
        out.append((tr, dict(site=site, seed=sd)))
    return out


def check(run):
    q = run.quick
    run.mc('RoadsMC', CFG.format(m='', n=3, r=4 if q else 5, lens='0, 1, 3' if q else '0, 1, 2, 4'), 'shortest ways')
    run.mc('RoadsMC', CFG.format(m='', n=4, r=3 if q else 5, lens='1, 3'), 'shortest ways, four places')
    for m in ('last', 'inner', 'oneway', 'zero', 'step'):
        run.mc('RoadsMC', CFG.format(m=m, n=4 if m in ('inner', 'step') else 3, r=3, lens='0, 1, 3' if m not in ('inner', 'step') else '1'), f'shortest ways, {m}', expect_violation=True)
    k, per = (24, 40) if q else (64, 200)
    items = [x for b in core.pmap(batch, [(f'{run.seed} roads {i}', per) for i in range(k)]) for x in b]
    for tr, meta in items:
        run.cover(meta['site'])
        if not tr['err']:
            run.cover('several roads between two places', int(len({tuple(sorted((r['a'], r['b']))) for r in tr['roads']}) < len(tr['roads'])))
            run.cover('no way', sum(not b['way'] for b in tr['built']))
    run.sample(items[0][0])
    run.check_traces('RoadsTrace', items)
