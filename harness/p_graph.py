"""P14 / P15: histories of edits over work graphs (spec/Graph.tla)."""
import copy
import json
import os
import pickle
import random
import shutil
import tempfile

import core

CFG = '''SPECIFICATION Spec
CONSTANTS Mistake = "{m}"
 Steps = {k}
 Mid = {n}
INVARIANTS {inv}
'''
ATTRS = ('model_name', 'worker_reqs', 'equipment_reqs', 'material_reqs', 'object_reqs', 'zone_reqs', 'description', 'group', 'priority',
         'is_service_unit', 'volume', 'display_name', 'workground_size')


def text(v):
    if isinstance(v, (list, tuple)):
        return [text(x) for x in v]
    if isinstance(v, dict):
        return {str(k): text(v[k]) for k in sorted(v)}
    if isinstance(v, bool):
        return bool(v)
    if hasattr(v, '__dict__'):
        return {k: text(x) for k, x in sorted(vars(v).items()) if k != '_name'}
    if hasattr(v, 'value'):
        return int(v.value)
    if isinstance(v, (int, float)) and v == int(v):
        return int(v)
    return v if isinstance(v, (str, float, type(None))) else str(v)


def keep(wu):
    return json.dumps({a: text(getattr(wu, a)) for a in ATTRS if hasattr(wu, a)}, sort_keys=True)


def project(wg):
    """Everything a user can observe about the structure of a graph; other objects are seen by identity."""
    at = {id(n): i + 1 for i, n in enumerate(wg.nodes)}
    ix = lambda n: 0 if n is None else at.get(id(n), 0)
    nodes = []
    for n in wg.nodes:
        ch = n.get_inseparable_chain()
        nodes.append(dict(tag=int(round(n.work_unit.volume)), id=str(n.id), keep=keep(n.work_unit),
                          par=[dict(o=ix(e.start) if e.finish is n else 0, t=e.type.value, lag=int(e.lag)) for e in n.edges_to],
                          chi=[dict(o=ix(e.finish) if e.start is n else 0, t=e.type.value, lag=int(e.lag)) for e in n.edges_from],
                          parents=[ix(p) for p in n.parents], children=[ix(c) for c in n.children], neigh=[ix(c) for c in n.neighbors],
                          son=ix(n.inseparable_son), father=ix(n.inseparable_parent), chain=[ix(c) for c in ch or []],
                          chainself=[ix(c) for c in n.get_inseparable_chain_with_self()],
                          w=max((int(r.volume.value) for r in n.work_unit.worker_reqs), default=0)))
    m = wg.adj_matrix.tocoo()
    return dict(nodes=nodes, s=ix(wg.start), f=ix(wg.finish), count=int(wg.vertex_count),
                dict=[dict(id=str(k), o=ix(v)) for k, v in wg.dict_nodes.items()],
                adj=[dict(i=int(i) + 1, j=int(j) + 1, w=int(w)) for i, j, w in zip(m.row, m.col, m.data)])


def abstract(wg):
    tag = lambda n: int(round(n.work_unit.volume))
    return dict(n=[tag(n) for n in wg.nodes], k=[keep(n.work_unit) for n in wg.nodes], id=[str(n.id) for n in wg.nodes],
                e=[dict(p=tag(e.start), c=tag(n), t=e.type.value, lag=int(e.lag)) for n in wg.nodes for e in n.edges_to],
                s=tag(wg.start), f=tag(wg.finish))


class Maker:
    """Builds random graphs; every work has a number of its own (its volume), by which it is recognised after any change of ids."""

    def __init__(self, rng):
        self.rng = rng
        self.tag = 0

    def unit(self, ident, service=False):
        from sampo.schemas.works import WorkUnit
        from sampo.schemas.time import Time
        from sampo.schemas.requirements import WorkerReq, MaterialReq, EquipmentReq, ConstructionObjectReq, ZoneReq
        r = self.rng
        self.tag += 1
        kw = {}
        if not service:
            kw = dict(worker_reqs=[WorkerReq(k, Time(r.randint(0, 30)), r.randint(0, 3), r.randint(3, 9)) for k in r.sample(['driver', 'fitter'], r.randint(0, 2))],
                      material_reqs=[MaterialReq('sand', r.randint(1, 9))] if r.random() < 0.3 else [],
                      equipment_reqs=[EquipmentReq('crane', r.randint(1, 9))] if r.random() < 0.3 else [],
                      object_reqs=[ConstructionObjectReq('power', r.randint(1, 9))] if r.random() < 0.3 else [],
                      zone_reqs=[ZoneReq('z', r.randint(1, 2))] if r.random() < 0.3 else [])
        return WorkUnit(ident, {'granular_name': r.choice(['dig', 'build']), 'measurement': 'm3', 'extra': r.randint(1, 9)},
                        group=r.choice(['g1', 'g2']), priority=1 if r.random() < 0.7 else 2, is_service_unit=service, volume=self.tag,
                        description=r.choice(['', 'text']), display_name=r.choice(['', 'Work']) or '', **kw)

    def lag(self):
        return self.rng.choice([0, 0, 0, 1, 3, 7])

    def graph(self, prefix, size=5):
        """Returns (work graph, its description): constructors and add_parents in a random order, with queries in between."""
        from sampo.schemas.graph import GraphNode, WorkGraph, EdgeType
        r = self.rng
        n = r.randint(1, size)
        names = [f'{prefix}{i}' for i in range(n)]
        edges, son, par = [], set(), set()
        for c in range(n):
            for p in range(c):
                while r.random() < 0.35:
                    t = r.choice(['FS', 'FS', 'FS', 'IFS', 'IFS', 'SS', 'FF', 'FFS'])
                    if t == 'IFS' and (c in son or p in par):
                        t = 'FS'
                    if t == 'IFS':
                        son.add(c)
                        par.add(p)
                    edges.append((p, c, t, 0 if t == 'IFS' else self.lag()))
        dep = [e for e in edges if e[2] in ('FS', 'IFS', 'FFS')]
        units = [self.unit(x) for x in names]
        late = [e for e in edges if r.random() < 0.4]
        nodes = []
        for i in range(n):
            mine = [e for e in edges if e[1] == i and e not in late]
            if mine and all(e[2:] == ('FS', 0) for e in mine) and r.random() < 0.5:
                nodes.append(GraphNode(units[i], [nodes[e[0]] for e in mine]))
            else:
                nodes.append(GraphNode(units[i], [(nodes[e[0]], e[3], EdgeType(e[2])) for e in mine]))
        r.shuffle(late)
        for p, c, t, lag in late:
            for x in (nodes[p], nodes[c]):        # queries before the change
                x.parents, x.children, x.inseparable_son, x.inseparable_parent, x.get_inseparable_chain(), x.neighbors, x.children_set
            nodes[c].add_parents([(nodes[p], lag, EdgeType(t))])
        roots = [i for i in range(n) if not any(e[1] == i for e in dep)]
        leaves = [i for i in range(n) if not any(e[0] == i for e in dep)]
        tags = [int(u.volume) for u in units]
        keeps = [keep(u) for u in units]
        if r.random() < 0.3:
            for x in nodes:
                x.parents, x.children
            wg = WorkGraph.from_nodes(nodes, rand=random.Random(r.random()))
            self.tag += 2
            wg.start.work_unit.volume, wg.finish.work_unit.volume = float(self.tag - 1), float(self.tag)
            su, fu = wg.start.work_unit, wg.finish.work_unit
            lags = {}
        else:
            su, fu = self.unit(f'{prefix}s', True), self.unit(f'{prefix}f', True)
            s = GraphNode(su, [])
            lags = {i: self.lag() for i in range(n)}
            for i in roots:
                nodes[i].add_parents([(s, lags[i], EdgeType.FinishStart)])
            f = GraphNode(fu, [(nodes[i], lags[i], EdgeType.FinishStart) for i in leaves])
            wg = WorkGraph(s, f)
        st, ft = int(su.volume), int(fu.volume)
        d = dict(n=[st] + tags + [ft], k=[keep(su)] + keeps + [keep(fu)], id=[str(su.id)] + names + [str(fu.id)],
                 e=[dict(p=tags[p], c=tags[c], t=t, lag=lag) for p, c, t, lag in edges]
                 + [dict(p=st, c=tags[i], t='FS', lag=lags.get(i, 0)) for i in roots]
                 + [dict(p=tags[i], c=ft, t='FS', lag=lags.get(i, 0)) for i in leaves], s=st, f=ft)
        return wg, d


def after(d, x):
    out, todo = set(), [x]
    while todo:
        y = todo.pop()
        for e in d['e']:
            if e['p'] == y and e['t'] in ('FS', 'IFS', 'FFS') and e['c'] not in out:
                out.add(e['c'])
                todo.append(e['c'])
    return out


BLANK = dict(x=0, xk='', xid='', a=0, b=0, ins=[], change=0, off=0, same=1, err='')
EMPTY = dict(nodes=[], s=0, f=0, count=0, dict=[], adj=[])


def run_history(rng, steps=5):
    """Yields one record per operation."""
    import dill
    from sampo.schemas.graph import WorkGraph, GraphNode, EdgeType
    from sampo.structurator import graph_in_graph_insertion, work_graph_ids_simplification
    from sampo.structurator.delete_graph_node import delete_graph_node
    from sampo.structurator.insert_wu import insert_work_unit
    from sampo.structurator.prepare_wg_copy import prepare_work_graph_copy, new_start_finish
    from sampo.scheduler.utils.obstruction import OneInsertObstruction
    mk = Maker(rng)
    pool = []

    def new(prefix):
        tr = dict(BLANK, op='build', pre=[], R=EMPTY)
        try:
            wg, d = mk.graph(prefix)
            tr['pre'] = [d]
            tr['R'] = project(wg)
            pool.append(wg)
        except Exception as e:
            tr['err'] = core.error_site(e)
        return tr

    tr = new('w')
    yield tr
    if tr['err']:
        return
    for k in range(steps):
        g = pool[rng.randrange(len(pool))] if rng.random() < 0.3 else pool[-1]
        if len(g.nodes) > 14:
            g = pool[0]
        op = rng.choice(['delete', 'delete', 'insert', 'union', 'union', 'simplify', 'copy', 'obstruct', 'addedges', 'json', 'file', 'dill', 'pickle', 'deepcopy'])
        pre = [abstract(g)]
        tr = dict(BLANK, op=op, pre=pre, R=EMPTY)
        before = [project(g)]
        touched = [g]
        by = {int(round(n.work_unit.volume)): n for n in g.nodes}
        inner = [x for x in pre[0]['n'] if x not in (pre[0]['s'], pre[0]['f'])]
        change = rng.random() < 0.5
        tr['change'] = int(change)
        try:
            if op == 'delete':
                if not inner:
                    continue
                x = rng.choice(inner)
                tr['x'] = x
                res = core.limited(delete_graph_node, 10, g, by[x].id, change_id=change)
            elif op in ('insert', 'addedges'):
                a = rng.choice([x for x in pre[0]['n'] if x != pre[0]['f']])
                b = rng.choice(sorted(after(pre[0], a)))
                if op == 'insert':
                    wu = mk.unit(f'i{k}' + rng.choice('abc') + str(mk.tag))
                    x = int(wu.volume)
                    tr.update(x=x, xk=keep(wu), xid=wu.id)
                    more = [y for y in pre[0]['n'] if y not in (a, pre[0]['f']) and b in after(pre[0], y)]
                    ups = [a] + rng.sample(more, min(len(more), rng.randint(0, 1)))
                    # every outgoing edge must lead to a work that follows all the incoming ones
                    ends = [y for y in pre[0]['n'] if all(y in after(pre[0], u) for u in ups)]
                    downs = rng.sample(ends, min(len(ends), rng.randint(1, 2)))
                    if rng.random() < 0.5:
                        tr['ins'] = [dict(p=u, c=x, t='FS', lag=0) for u in ups] + [dict(p=x, c=v, t='FS', lag=0) for v in downs]
                        res = core.limited(insert_work_unit, 10, g, wu, [by[u] for u in ups], [by[v] for v in downs], change_id=change)
                    else:
                        pe = [(by[u], mk.lag(), rng.choice(['FS', 'FFS']) if i == 0 else rng.choice(['FS', 'SS', 'FF'])) for i, u in enumerate(ups)]
                        ce = [(by[v], mk.lag(), rng.choice(['FS', 'FFS']) if i == 0 else rng.choice(['FS', 'SS', 'FF'])) for i, v in enumerate(downs)]
                        tr['ins'] = [dict(p=u, c=x, t=e[2], lag=e[1]) for u, e in zip(ups, pe)] + [dict(p=x, c=v, t=e[2], lag=e[1]) for v, e in zip(downs, ce)]
                        res = core.limited(insert_work_unit, 10, g, wu, [(n, l, EdgeType(t)) for n, l, t in pe], [(n, l, EdgeType(t)) for n, l, t in ce],
                                           change_id=change)
                else:
                    tr['change'] = 0
                    t = rng.choice(['FS', 'SS', 'FF', 'FFS'])
                    lag = mk.lag()
                    tr['ins'] = [dict(p=a, c=b, t=t, lag=lag)]
                    by[b].add_parents([(by[a], lag, EdgeType(t))])
                    g.reinit()
                    res, touched, before = g, [], []
            elif op in ('union', 'obstruct'):
                yield new('w' if change and op == 'union' else f'u{k}{rng.randint(0, 9)}_')
                h = pool[-1]
                pre.append(abstract(h))
                if op == 'union':
                    a = rng.choice([x for x in pre[0]['n'] if x != pre[0]['f']])
                    b = rng.choice(sorted(after(pre[0], a)))
                    tr.update(a=a, b=b)
                    touched.append(h)
                    before.append(project(h))
                    res = core.limited(graph_in_graph_insertion, 10, g, by[a], by[b], h, change_id=change)
                else:
                    tr['change'] = 0
                    ob = OneInsertObstruction.from_static_graph(1, random.Random(rng.random()), h)
                    core.limited(ob.generate, 10, g)
                    touched, before = [h], [project(h)]
                    res = g
                pool.pop()
            elif op == 'simplify':
                tr['off'] = rng.choice([0, 0, 5, 1000])
                res = core.limited(work_graph_ids_simplification, 10, g, tr['off'], change)
            elif op == 'copy':
                nodes, ids = core.limited(prepare_work_graph_copy, 10, g, change_id=change)
                res = WorkGraph(*new_start_finish(g, nodes, ids))
            else:
                tr['change'] = 0
                if op == 'json':
                    res = WorkGraph._deserialize(json.loads(json.dumps(g._serialize())))
                elif op == 'file':
                    d = tempfile.mkdtemp()
                    try:
                        g.dump(d, 'graph')
                        res = WorkGraph.load(d, 'graph')
                    finally:
                        shutil.rmtree(d)
                elif op == 'dill':
                    res = dill.loads(dill.dumps(g))
                elif op == 'pickle':
                    res = pickle.loads(pickle.dumps(g))
                else:
                    res = copy.deepcopy(g)
            tr['R'] = project(res)
            tr['same'] = int([project(x) for x in touched] == before)
            pool.append(res) if res is not g else None
        except Exception as e:
            tr['err'] = core.error_site(e)
            if op in ('obstruct', 'addedges'):
                yield tr
                return
        yield tr
        if op == 'obstruct' and g.finish.edges_from:
            return


def batch(arg):
    seed, count = arg
    out = []
    for i in range(count):
        rng = random.Random(f'{seed} {i}')
        for k, tr in enumerate(run_history(rng)):
            out.append((tr, dict(site=tr['op'], seed=f'{seed} {i}', step=k)))
    return out


def check(run):
    q = run.quick
    part = 'edit' if run.pid == 'P14' else 'shape'
    inv = 'InvWF InvOrder InvTask'
    run.mc('GraphMC', CFG.format(m='none', k=2, n=2, inv=inv), label='GraphMC two edits of 2 works')
    if part == 'edit':
        run.mc('GraphMC', CFG.format(m='none', k=1, n=4, inv=inv), label='GraphMC one edit of 4 works')
    if not q:
        run.mc('GraphMC', CFG.format(m='none', k=2, n=3, inv=inv), label='GraphMC two edits of 3 works', timeout=3000)
    for m, inv in (('nobypass', 'InvOrder'), ('one', 'InvTask'), ('roots', 'InvWF')):
        run.mc('GraphMC', CFG.format(m=m, k=1, n=3, inv=inv), label=f'GraphMC mistake {m}', expect_violation=True)
    rng = random.Random(run.seed * 1000 + int(run.pid[1:]))
    n = 800 if q else 12000
    items = [x for b in core.pmap(batch, [(rng.randint(0, 10 ** 9), n // 40) for _ in range(40)]) for x in b]
    for t, _ in items:
        run.cover(t['op'])
        run.cover('works', len(t['R']['nodes']))
    run.sample(items[0][0])
    for i in range(0, len(items), 8000):
        run.check_traces('GraphTrace', items[i:i + 8000], consts=f'CONSTANT Part = "{part}"\n')
