"""P01..P06: every scheduler is a machine that places works (spec/Sched.tla).

Instances come from two sources: all tiny instances enumerated by TLC from SchedMC (sampled in the quick tier) and
random larger ones (gen.topo_instance).  Each instance goes through the real schedulers; the returned schedule is
replayed row by row on the Sched machine by TLC (SchedTrace), which names every guard that does not hold."""
import json
import random
import re

import core
import gen
import sched
import tlc

MC_CFG = '''SPECIFICATION {spec}
CONSTANTS Horizon = {h}
 Vols = {vols}
 Limits <- {limits}
 CapSets <- {caps}
 EdgeKinds = {{"none","FS0","FS1","IFS"}}
 SpecKinds = {{"none","contractor","crew","time","indep"}}
 T0s = {t0s}
VIEW SymP
INVARIANTS {inv}
'''
INVS = {'P01': 'InvPrecedence InvPrefix', 'P02': 'InvCapacityAlways InvHold', 'P03': 'InvOnce InvT0 InvFinish InvProgress',
        'P04': 'InvLimits InvOnce', 'P05': 'InvSpec InvLimits', 'P06': 'InvChain InvHold InvPrecedence'}

NAMES = {
    'P01': ['known', 'predplaced', 'precedence'],
    'P02': ['known', 'crewexists', 'capacity', 'chainhold'],
    'P03': ['known', 'once', 't0', 'span', 'complete', 'startatt0', 'finishlast', 'exectime'],
    'P04': ['known', 'service', 'onecontractor', 'crewexists', 'crewlimits', 'duration', 'chaintime'],
    'P05': ['known', 'speccontractor', 'speccrew', 'spectime', 'independent'],
    'P06': ['known', 'chaincrew', 'chaingap', 'chainhold', 'chainprec'],
}
# instance distributions, (weight, generator arguments)
DIST = {
    'P01': [(3, dict(n=(4, 10), edge_p=0.7, contractors=(1, 3), prios=0.3)),
            (2, dict(n=(4, 12), edge_p=0.5, chains=0.5, spec=0.4, time=0.4)),
            (1, dict(n=(3, 8), edge_p=0.8, lags=True, spec=0.5, indep=0.3)),
            (1, dict(n=(4, 9), edge_p=0.5, ffs=0.4))],
    'P02': [(3, dict(n=(5, 13), edge_p=0.15, contractors=(1, 2), maxcap=4, kinds=(1, 3))),
            (2, dict(n=(5, 12), edge_p=0.25, contractors=(1, 3), chains=0.5, maxcap=3)),
            (2, dict(n=(5, 10), edge_p=0.2, contractors=(1, 3), spec=0.6, partial=0.4, time=0.3, indep=0.15))],
    'P03': [(2, dict(n=(3, 10), zero_req=0.3, t0=True)), (1, dict(n=(1, 3), contractors=(1, 2))),
            (2, dict(n=(4, 11), chains=0.5, prios=0.6)), (1, dict(n=(3, 9), spec=0.5, time=0.5, indep=0.2))],
    'P04': [(3, dict(n=(3, 9), contractors=(1, 4), kinds=(1, 4), min0=0.2)),
            (2, dict(n=(3, 9), contractors=(2, 4), kinds=(2, 5), zero_req=0.2, vol=(1, 60))),
            (2, dict(n=(3, 8), contractors=(1, 3), kinds=(1, 3), est='linear', spec=0.3, partial=0.4)),
            (1, dict(n=(4, 9), chains=0.5))],
    'P05': [(3, dict(n=(3, 9), contractors=(2, 4), spec=0.9, partial=0.4)),
            (2, dict(n=(3, 9), contractors=(1, 3), spec=0.9, time=0.6)),
            (2, dict(n=(4, 10), contractors=(1, 2), spec=0.6, indep=0.5, edge_p=0.15)),
            (2, dict(n=(4, 10), contractors=(1, 3), spec=0.7, partial=0.4, time=0.3, indep=0.2, chains=0.4))],
    'P06': [(3, dict(n=(5, 12), chains=0.65, edge_p=0.35)), (2, dict(n=(5, 12), chains=0.6, edge_p=0.2, maxcap=3,
                                                                     contractors=(1, 2))),
            (1, dict(n=(5, 10), chains=0.6, spec=0.5, time=0.3, partial=0.3, indep=0.1))],
}
QUICK_N = 200
THOROUGH_N = 2600


def run_one(inst, name, seed, names, t0_arg=True):
    """One (instance, scheduler) run -> list of traces."""
    from sampo.schemas.time import Time
    out = []
    base = dict(inst=inst, names=names, rows=[], exec=0, err='')

    def go():
        wg, cs, spec = gen.build(inst)
        est = gen.estimator(inst)
        s = sched.make_scheduler(name, seed, work_estimator=est)
        return s.schedule(wg, cs, spec, start_time=Time(inst['t0']))
    try:
        res = core.limited(go, 60)
        for q in res[:2]:
            out.append(dict(base, rows=sched.project_schedule(q, inst), exec=sched.val(q.execution_time)))
        if not res:
            out.append(dict(base, err='no schedule'))
    except Exception as e:
        out.append(dict(base, err=core.error_site(e)))
    return out


def batch(arg):
    pid, seed, count, cfgs, insts = arg
    rng = random.Random(seed)
    names = NAMES[pid]
    items = []
    for i in range(count if insts is None else len(insts)):
        if insts is None:
            ds = DIST[pid]
            kw = rng.choices([d for _, d in ds], weights=[w for w, _ in ds])[0]
            inst = gen.topo_instance(rng, **kw)
            use = cfgs if cfgs else sched.scheduler_configs()
        else:
            inst = insts[i]
            use = cfgs if cfgs else sched.scheduler_configs()
        for name in use:
            sd = rng.randint(0, 10 ** 6)
            nm = list(names)
            if name == 'gen_par' and 'duration' in nm:
                nm.remove('duration')     # parallel SGS keeps the estimated time of a chain as a whole only
            for tr in run_one(inst, name, sd, nm):
                items.append((tr, dict(site=name, scheduler=name, seed=sd)))
    return items


def batch_two(arg):
    """Two projects scheduled one after the other on the same timeline: together they obey the machine."""
    seed, count = arg
    rng = random.Random(seed)
    items = []
    from sampo.schemas.time import Time
    for _ in range(count):
        a = gen.topo_instance(rng, n=(3, 7), edge_p=0.2, contractors=(1, 2), maxcap=4, kinds=(1, 2), chains=0.3)
        b = gen.topo_instance(rng, n=(3, 7), edge_p=0.2, maxcap=4, chains=0.3, like=a)
        c = gen.combine(a, b)
        for name in ('heft', 'between', 'topo', 'rtopo', 'lft', 'rlft', 'gen_par', 'gen_ser'):
            sd = rng.randint(0, 10 ** 6)
            base = dict(inst=c, names=['known', 'once', 'precedence', 'crewexists', 'capacity', 'chainhold', 'crewlimits',
                                       'complete', 'chaincrew'], rows=[], exec=0, err='')

            def go():
                wa, cs, sa = gen.build(a)
                b2 = dict(b, works=[dict(w, id='B_' + w['id']) for w in b['works']])
                wb, _, sb = gen.build(b2)
                s = sched.make_scheduler(name, sd)
                qa, _, tl, _ = s.schedule_with_cache(wa, cs, sa, assigned_parent_time=Time(a['t0']))[0]
                s2 = sched.make_scheduler(name, sd + 1)
                qb, _, _, _ = s2.schedule_with_cache(wb, cs, sb, assigned_parent_time=Time(b['t0']), timeline=tl)[0]
                return qa, qb
            try:
                qa, qb = core.limited(go, 60)
                tr = dict(base, rows=sched.project_schedule(qa, c) + sched.project_schedule(qb, c))
            except Exception as e:
                tr = dict(base, err=core.error_site(e))
            items.append((tr, dict(site=name + ' two projects', scheduler=name + '+', seed=sd)))
    return items


def enumerated_instances(run, limits='LimitsQ', caps='CapsQ', vols='{2}', t0s='{0}'):
    """All tiny instances of SchedMC, as enumerated by TLC."""
    r = run.mc('SchedMC', MC_CFG.format(spec='DumpSpec', h=4, vols=vols, limits=limits, caps=caps, t0s=t0s, inv='DumpInv'),
               label='SchedMC instances')
    out = []
    for m in re.finditer(r'<<"INST", "(.*?)">>', r.out):
        out.append(json.loads(m.group(1).replace('\\"', '"')))
    out.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return out


def check(run):
    pid = run.pid
    inv = INVS[pid]
    if run.quick:
        run.mc('SchedMC', MC_CFG.format(spec='Spec', h=4, vols='{2}', limits='LimitsQ', caps='CapsQ', t0s='{0}', inv=inv),
               label='SchedMC horizon 4')
        insts = enumerated_instances(run, 'LimitsT', 'CapsT', '{1, 3}', '{0, 2}')
        total = len(insts)
        insts = random.Random(run.seed).sample(insts, min(total, 60))
        n = QUICK_N
    else:
        run.mc('SchedMC', MC_CFG.format(spec='Spec', h=5, vols='{1, 2}', limits='LimitsQ', caps='CapsT', t0s='{0, 1}',
                                        inv=inv), label='SchedMC horizon 5', timeout=3000)
        run.mc('SchedMC', MC_CFG.format(spec='WideSpec', h=3, vols='{2}', limits='LimitsQ', caps='CapsQ', t0s='{0}',
                                        inv=inv.replace('InvProgress', '')), label='SchedMC any crew, any work',
               timeout=3000)
        insts = enumerated_instances(run, 'LimitsT', 'CapsT', '{1, 3}', '{0, 2}')
        total = len(insts)
        insts = random.Random(run.seed).sample(insts, min(total, 3000))
        n = THOROUGH_N
    rng = random.Random(run.seed * 1000 + int(pid[1:]))
    jobs = [(pid, rng.randint(0, 10 ** 9), max(1, n // 40), None, None) for _ in range(40)]
    step = max(1, len(insts) // 24)
    jobs += [(pid, rng.randint(0, 10 ** 9), 0, None, insts[i:i + step]) for i in range(0, len(insts), step)]
    items = [x for b in core.pmap(batch, jobs) for x in b]
    if pid == 'P02':
        m = 40 if run.quick else 400
        items += [x for b in core.pmap(batch_two, [(rng.randint(0, 10 ** 9), m // 8) for _ in range(8)]) for x in b]
        run.coverage['two_project_instances'] = m
    run.coverage.update(instances_random=n, instances_enumerated_by_tlc=total, instances_enumerated_run=len(insts),
                        schedulers=sched.scheduler_configs(), guards=NAMES[pid])
    if items:
        run.sample(items[0][0])
    CH = 2500
    for i in range(0, len(items), CH):
        run.check_traces('SchedTrace', items[i:i + CH])
    for t, m in items:
        run.cover('schedules_' + m['scheduler'])
        run.cover('placements', len(t['rows']))
