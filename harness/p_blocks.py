"""P23: containers, times and intervals (spec/Blocks.tla)."""
import math
import random

import core

CFG = '''SPECIFICATION Spec
CONSTANTS Mistake = "{m}"
Size = {n}
INVARIANT {inv}
'''
INF = 2_000_000_000


def linked(rng):
    from sampo.utilities.linked_list import LinkedList
    ops = []
    first = [rng.randint(0, 5) for _ in range(rng.choice([0, 0, 3]))]
    if rng.random() < 0.05:                 # a long list of equal values, of which one other is left
        lst = LinkedList([1] * 1500 + [0] + [1] * 2)
        lst.remove_if(lambda v: v == 1)
        first = [0]
    else:
        lst = LinkedList(first) if first or rng.random() < 0.5 else LinkedList()

    def seen():
        if rng.random() < 0.5:
            return [x for x in lst]
        out, it = [], lst.iterator()
        if rng.random() < 0.5:
            return [n.value for n in it]
        while it.has_next():
            out.append(it.get().value)
            it.next()
        return out
    for j, v in enumerate(first):           # nothing is observed in between
        ops.append(dict(o='append', k=0, v=v, all=first[:j + 1], len=j + 1))
    ops.append(dict(o='start', k=0, v=0, all=seen(), len=len(lst)))
    for _ in range(rng.randint(1, 12)):
        if rng.random() < 0.55:
            v = rng.randint(0, 9)
            lst.append(v)
            ops.append(dict(o='append', k=0, v=v, all=seen(), len=len(lst)))
        else:
            m = rng.choice([1, 2, 3, 5])
            r = rng.randint(0, m - 1)
            calls = []
            lst.remove_if(lambda v: (calls.append(v), v % m == r)[1])
            if calls != ops[-1]['all']:
                ops.append(dict(o='ask each once', k=0, v=0, all=[-1], len=len(lst)))
            ops.append(dict(o='remove_if', k=m, v=r, all=seen(), len=len(lst)))
        if lst.is_empty() != (len(lst) == 0):
            ops.append(dict(o='is_empty', k=0, v=0, all=[-1], len=-1))
    return dict(kind='list', ops=ops, err='')


def sortedlist(rng):
    from sampo.schemas.sorted_list import ExtendedSortedList
    keys = rng.choice([4, 12, 40])
    if rng.random() < 0.2:
        lst = ExtendedSortedList(key=lambda x: x[0])
        lst._reset(4) if rng.random() < 0.7 else None
    else:
        lst = ExtendedSortedList(key=lambda x: x[0])
    ops = []

    def note(o, **kw):
        ops.append(dict(dict(o=o, k=0, v=0, i=0), **kw, all=[dict(k=x[0], v=x[1]) for x in lst], len=len(lst)))
    for _ in range(rng.randint(1, 25)):
        x = rng.random()
        n = len(lst)
        k, v = rng.randint(0, keys), rng.randint(0, 99)
        if x < 0.45 or not n:
            if rng.random() < 0.5:
                lst.add((k, v))
                note('add', k=k, v=v)
            else:
                lst.merge((k, 0), (k, v), lambda a, b: (a[0], a[1] + b[1]))
                note('merge', k=k, v=v)
        elif x < 0.7:
            i = rng.randrange(n)
            k = lst[i][0]
            lst.merge(lst[i], (k, v), lambda a, b: (a[0], a[1] + b[1]))
            note('merge', k=k, v=v)
        elif x < 0.88:
            i = rng.randrange(n)
            lst[i if rng.random() < 0.5 else i - n] = (lst[i][0], v)
            note('set', i=i + 1, v=v)
        else:
            i = rng.randrange(n)
            del lst[i]
            note('remove', i=i + 1)
    return dict(kind='sorted', ops=ops, err='')


def queue(rng):
    from sampo.utilities.priority_queue import PriorityQueue
    desc = rng.random() < 0.5
    key = lambda x: x[0]
    start = [(rng.randint(0, 6), i) for i in range(rng.choice([0, 0, 4]))]
    q = PriorityQueue(list(start), desc, key) if start else PriorityQueue.empty(desc, key)
    have, ops = list(start), []
    for j in range(rng.randint(1, 15)):
        x = rng.random()
        if x < 0.5 or not have:
            e = (rng.randint(0, 6), 100 + j)
            q.add(e)
            have.append(e)
            ops.append(dict(o='add', k=e[0], v=e[1], i=0, len=len(q)))
        elif x < 0.8:
            e = q.extract_extremum()
            if e in have:
                have.remove(e)
            ops.append(dict(o='extract', k=e[0], v=e[1], i=0, len=len(q)))
        else:
            i = rng.randrange(len(have))
            e = (rng.randint(0, 6), 200 + j)
            q.replace(have[i], e)
            have = have[:i] + have[i + 1:] + [e]
            ops.append(dict(o='replace', k=e[0], v=e[1], i=i + 1, len=len(q)))
    return dict(kind='queue', desc=int(desc), start=[dict(k=a, v=b) for a, b in start], ops=ops, err='')


def times(rng):
    from sampo.schemas.time import Time
    pick = lambda: rng.choice([0, 1, -1, 2, 7, 60000, INF, -INF, INF - 1, 1 - INF, rng.randint(-50, 50), rng.randint(-50, 50), rng.randint(-INF, INF)])
    ops = []
    for _ in range(40):
        o = rng.choice(['add', 'sub', 'mul', 'div', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'max', 'min', 'inf', 'bool', 'int', 'hash', 'radd', 'rsub', 'rmul', 'iadd', 'float', 'sum'])
        a, b = pick(), pick()
        if rng.random() < 0.2:
            b = a
        A, B = Time(a), rng.choice([Time(b), Time(b), b])
        if o == 'div' and b == 0:
            continue
        if o in ('radd', 'rsub', 'rmul', 'sum'):
            if o == 'sum':
                r = sum([Time(a), Time(b)])
                o = 'add'
                if abs(a) == INF or abs(b) == INF:
                    continue
            else:
                r = {'radd': lambda: a + Time(b), 'rsub': lambda: a - Time(b), 'rmul': lambda: a * Time(b)}[o]()
                o = o[1:]
        elif o == 'iadd':
            C = A
            C += B
            r, o = C, 'add'
            if A.value != a:
                r = Time(-77)
        elif o == 'float':
            r, o = Time(a + (0.5 if a >= 0 else -0.5)), 'int'
            if abs(a) >= INF:
                continue
        elif o == 'hash':
            r, o = (1 if len({Time(a), Time(b)}) == 1 else 0), 'eq'
        else:
            r = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B, 'div': lambda: A // B, 'lt': lambda: A < B, 'le': lambda: A <= B, 'gt': lambda: A > B,
                 'ge': lambda: A >= B, 'eq': lambda: A == B, 'ne': lambda: A != B, 'max': lambda: max(A, Time(b)), 'min': lambda: min(A, Time(b)), 'inf': lambda: A.is_inf(),
                 'bool': lambda: bool(A), 'int': lambda: A}[o]()
        good = isinstance(r, Time) if o in ('add', 'sub', 'mul', 'div', 'max', 'min') else True
        ops.append(dict(o=o, a=a, b=b, res=int(r) if good else 123456789))
        if o == 'div' and abs(a) < 2 ** 20 and b not in (0,) and A / B != a / b:
            ops.append(dict(o='div', a=a, b=b, res=-123456789))
    return dict(kind='time', ops=ops, err='')


def interval(rng):
    from sampo.schemas.interval import IntervalGaussian, IntervalUniform
    lo = rng.choice([0, 100, 50, -250, rng.randint(-500, 2000)])
    hi = lo + rng.choice([0, 50, 100, 300, 1000, 33])
    if rng.random() < 0.5:
        make = lambda r: IntervalUniform(lo / 100, hi / 100, r)
        bounds = lo, hi
    else:
        free = rng.choice(['', '', 'lo', 'hi', 'both'])
        mean, sigma = rng.randint(lo - 100, hi + 100) / 100, rng.choice([0, 0.2, 3, 50])
        kw = dict(([('min_val', lo / 100)] if free not in ('lo', 'both') else []) + ([('max_val', hi / 100)] if free not in ('hi', 'both') else []))
        make = lambda r: IntervalGaussian(mean, sigma, rand=r, **kw)
        bounds = lo if 'min_val' in kw else -10 ** 7, hi if 'max_val' in kw else 10 ** 7
    s = rng.randint(0, 10 ** 6)
    own = rng.random() < 0.5

    def draw():
        r = random.Random(s)
        x = make(r if own else None)
        arg = () if own else (r,)
        return [x.rand_int(*arg) for _ in range(12)], [x.rand_float(*arg) for _ in range(8)]
    a, b = draw(), draw()
    return dict(kind='interval', lo=bounds[0], hi=bounds[1], ints=[int(x) if x == int(x) and isinstance(x, int) else 10 ** 8 for x in a[0]],
                floats=[[math.floor(x * 100 - 1e-6), math.ceil(x * 100 + 1e-6)] for x in a[1]], again=int(a == b), err='')


def applied(rng):
    from sampo.schemas.apply_queue import ApplyQueue
    q = ApplyQueue()
    fs = [rng.randint(0, 99) for _ in range(rng.randint(0, 6))]
    rest = tuple(rng.randint(0, 9) for _ in range(rng.randint(0, 2)))
    good = [q.empty()]
    for i, f in enumerate(fs):
        extra = tuple(rng.randint(0, 9) for _ in range(rng.randint(0, 2)))

        def fun(x, *args, _f=f, _extra=extra):
            good.append(args == rest + _extra)
            return (3 * x + _f) % 9973
        q2 = q.add(fun, *extra)
        good.append(q2 is q and not q.empty())
    x = rng.randint(0, 99)
    r = q.apply(x, *rest)
    if rng.random() < 0.5:
        r = q.apply(x, *rest)
    return dict(kind='apply', x=x, fs=fs, res=r, others=int(all(good)), err='')


DRIVERS = [linked, linked, sortedlist, sortedlist, queue, times, interval, applied]


def batch(arg):
    seed, count = arg
    out = []
    for i in range(count):
        sd = f'{seed} {i}'
        rng = random.Random(sd)
        fn = rng.choice(DRIVERS)
        site = ''
        try:
            tr = core.limited(fn, 30, rng)
        except Exception as e:
            site = core.error_site(e)
            tr = dict(kind=fn.__name__, err=site)
        out.append((tr, dict(site=site or fn.__name__, seed=sd)))
    return out


def check(run):
    q = run.quick
    n = 4 if q else 5
    run.mc('BlocksMC', CFG.format(m='', n=n, inv='InvSeq\nINVARIANT InvLen\nINVARIANT InvWalked'), 'linked list')
    for m, inv in (('tail', 'InvSeq'), ('length', 'InvLen'), ('skip', 'InvSeq')):
        run.mc('BlocksMC', CFG.format(m=m, n=4, inv=inv), f'linked list, {m}', expect_violation=True)
    k, per = (24, 60) if q else (64, 200)
    items = [x for b in core.pmap(batch, [(f'{run.seed} blocks {i}', per) for i in range(k)]) for x in b]
    for tr, meta in items:
        run.cover(tr['kind'])
    run.sample(items[0][0])
    run.check_traces('BlocksTrace', items)
