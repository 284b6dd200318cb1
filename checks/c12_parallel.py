"""C12: the parallel limit and the waiting functions of SimRunner, under every schedule within a deviation bound."""
import itertools

from mc import sched  # noqa: F401  (patches time and threading before spicelib is imported)
from mc import scenario
from mc.core import Violation

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = ('all schedules with at most D deviations from the run-until-blocked schedule (scheduling points: every executed line of '
        'sim_runner.py and run_task.py and every blocking call; deviations: pre-empt, resume another thread first, let the '
        'earliest sleeper wake although others can run), on the real SimRunner with real threads and virtual time. '
        'D=0 over the full product limit 1..3 x 1..5 simulations x durations x way of waiting; D=1 (quick) / D=2 (thorough) on '
        'chosen scenarios. Non-trivial: distinct (scenario, number of context switches, end time).')
ASSUMPTIONS = ['one user thread drives the runner (the server threads are covered by C16)',
               'preemption inside a source line is not explored',
               'simulator replaced by a planned fake that writes files in two halves']

DUR = [0, 0.35, 2.5]
WAYS = ['wait', 'iter', 'waititer', 'handle', 'tasks']


def judge(sc, o):
    p = sc['p']
    w = o.world
    slack = 1.2 + o.deviations * 12
    limited = [j for j in sc['jobs'] if j.get('wait', True)]
    if len(limited) == len(sc['jobs']) and sc['collect'] != 'now' and w.max_running > p:
        raise Violation('too-many', f'{w.max_running} simulations at once, {p} allowed')
    done_at = {x['job']: x['task']._mc.done_at for x in o.launch if x['task'] is not None}
    for k, x in enumerate(o.launch):
        job = o.plan[x['job']]
        tmo = job.get('timeout', sc.get('timeout', 10))
        spent = x['returned'] - x['called']
        if sc['collect'] == 'now' and k == len(o.launch) - 1:
            continue
        if x['task'] is None:
            if tmo is None or spent < tmo:
                raise Violation('refused', f"launch of {x['job']} refused after {spent} s, timeout {tmo}")
            continue
        if not job.get('wait', True):
            if spent > slack - 1:
                raise Violation('not-immediate', f"wait_resource=False launch took {spent} s")
            continue
        # a slot is free as soon as fewer than p of the earlier launches are not over
        ends = sorted(done_at[y['job']] for y in o.launch[:k] if y['task'] is not None)
        free = ends[len(ends) - p] if len(ends) >= p else 0
        if x['returned'] - max(x['called'], free) > slack:
            raise Violation('late-launch', f"launch of {x['job']} returned at {x['returned']}, slot free since "
                                           f"{max(x['called'], free)}")
        if tmo is not None and spent > tmo + slack + 1:
            raise Violation('waited-too-long', f"launch of {x['job']} waited {spent} s, timeout {tmo}")
    over = max(done_at.values(), default=0)
    if sc['collect'] in ('wait', 'waititer', 'waitto', 'now'):
        x = o.waits[0]
        allok = all(t['task'] is None or t['task'].retcode == 0 for t in o.launch)
        tmo = x.get('timeout')
        if x['value'] not in (True, False):
            raise Violation('wait-value', repr(x['value']))
        if x['pending'] == 0:
            if x['value'] is not allok and tmo is None and not o.deviations:
                raise Violation('wait-answer', f"wait_completion={x['value']}, all succeeded={allok}")
            if x['returned'] - max(x['called'], over) > slack + 1:
                raise Violation('late-return', f"wait_completion returned at {x['returned']}, last end {over}")
            if x['value'] and not allok:
                raise Violation('wait-answer', 'True although a simulation failed')
        else:
            # gave up: only legitimate after a timeout
            if x['value'] is not False:
                raise Violation('returned-early', f"wait_completion returned {x['value']} with simulations running")
            ends = [d for d in done_at.values() if d < x['returned'] - 1.3 - o.deviations * 12]
            ref = max(ends + [x['called']])
            if tmo is not None:
                if x['returned'] - max([d for d in done_at.values() if d <= x['returned']] + [x['called']]) > tmo + slack + 2:
                    raise Violation('timeout-late', f"gave up {x['returned'] - ref} s after the last completion, timeout {tmo}")
                if x['returned'] - ref < tmo:
                    raise Violation('timeout-early', f"gave up {x['returned'] - ref} s after the last completion, timeout {tmo}")
            else:
                limits = [x_['task'].start_time - sched.EPOCH + x_['task'].timeout for x_ in o.launch
                          if x_['task'] is not None and x_['task'].timeout is not None and done_at[x_['job']] > x['returned']]
                if not limits or x['returned'] < max(limits):
                    raise Violation('gave-up', f"wait_completion gave up at {x['returned']}")
    elif sc['collect'] in ('iter', 'tasks', 'handle', 'mid'):
        if o.end - max(over, max(x['returned'] for x in o.launch)) > slack:
            raise Violation('late-return', f"results complete at {o.end}, last simulation ended at {over}")
        if over - o.end > 0:
            raise Violation('returned-early', f"collecting ended at {o.end}, last simulation ends at {over}")


def scenarios0(tier):
    """Default schedule only."""
    out = []
    top = 5 if tier == 'thorough' else 4
    for p in (1, 2, 3):
        for n in range(1, top + 1):
            for durs in itertools.product(DUR, repeat=n):
                ways = WAYS if n <= 3 or tier == 'thorough' else ['wait', 'iter']
                for way in ways:
                    out.append(dict(p=p, jobs=[dict(dur=d) for d in durs], collect=way))
    # time limits
    for p in (1, 2):
        for tmo in (None, 1, 5, 10):
            for d in itertools.product((0.35, 3, 30), repeat=2):
                for way in ('wait', 'handle'):
                    out.append(dict(p=p, timeout=tmo, jobs=[dict(dur=x) for x in d + (0,)], collect=way))
    for wto in (0.5, 2, 4):
        for d in itertools.product((0.35, 3, 6.2, 30), repeat=3):
            for p in (1, 3):
                out.append(dict(p=p, timeout=100, jobs=[dict(dur=x) for x in d], collect='waitto', wto=wto))
    # callbacks occupy the slot as well: the resource timeout must fire
    for tmo in (1, 2):
        for way in ('wait', 'handle'):
            out.append(dict(p=1, timeout=tmo, jobs=[dict(dur=0.3, cb='slow'), dict(dur=0), dict(dur=0)], collect=way))
            out.append(dict(p=2, timeout=tmo, jobs=[dict(dur=0.3, cb='slow')] * 3, collect=way))
    for way in ('wait', 'iter'):
        for modes in itertools.product(('ok', 'fail', 'neg', 'crash'), repeat=3):
            out.append(dict(p=2, jobs=[dict(dur=d, mode=m) for d, m in zip((0.35, 0, 1), modes)], collect=way))
            out.append(dict(p=1, jobs=[dict(dur=d, mode=m) for d, m in zip((0.35, 0, 1), modes)], collect='handle'))
    for flags in itertools.product((True, False), repeat=4):
        out.append(dict(p=1, jobs=[dict(dur=1.2, wait=f) for f in flags], collect='wait'))
    for own in itertools.product((None, 0.5, 9), repeat=3):
        for p in (1, 3):
            out.append(dict(p=p, timeout=1, jobs=[dict(dur=d, **({} if t is None else {'timeout': t})) for t, d in zip(own, (4, 0.2, 6))],
                            collect='wait'))
    for own in ((None, None, 3), (0.5, None, None), (3, 0.5, 0.5)):
        out.append(dict(p=1, timeout=6, jobs=[dict(dur=2, **({} if t is None else {'timeout': t})) for t in own],
                        collect='wait'))
    # a callback keeps its task active past its own time limit while others with longer limits run
    for own in itertools.product((1, 20, 60), repeat=2):
        for slow in ((0,), (1,), (0, 1)):
            for durs in ((0.3, 6), (6, 0.3), (0.3, 0.3)):
                for p in (1, 2):
                    out.append(dict(p=p, timeout=9, jobs=[dict(dur=d, timeout=t, **({'cb': 'slow'} if i in slow else {}))
                                                          for i, (t, d) in enumerate(zip(own, durs))], collect='wait'))
    for d in itertools.product((0, 0.35, 2.5), repeat=2):
        out.append(dict(p=2, jobs=[dict(dur=x) for x in d] + [dict(dur=0.2)], collect='mid'))
        out.append(dict(p=2, jobs=[dict(dur=x) for x in d] + [dict(dur=0.2)], collect='now'))
    return out


def scenarios1(tier):
    out = [dict(p=1, jobs=[dict(dur=0.35), dict(dur=0)], collect='wait'),
           dict(p=2, jobs=[dict(dur=0.35), dict(dur=0), dict(dur=0.35)], collect='wait'),
           dict(p=2, jobs=[dict(dur=0), dict(dur=0), dict(dur=0)], collect='iter'),
           dict(p=1, jobs=[dict(dur=0.35), dict(dur=0, mode='fail')], collect='iter'),
           dict(p=2, jobs=[dict(dur=0.35), dict(dur=0, mode='neg')], collect='handle'),
           dict(p=2, jobs=[dict(dur=0.9), dict(dur=0.9)], collect='waitto', wto=2)]
    if tier == 'thorough':
        out += [dict(p=p, jobs=[dict(dur=d) for d in ds], collect=way) for p in (1, 2, 3)
                for ds in ((0, 0.35, 0), (0.35, 0.35, 0.35, 0)) for way in ('wait', 'iter', 'handle')]
    return out


def scenarios2(tier):
    if tier != 'thorough':
        return []
    return [dict(p=1, jobs=[dict(dur=0.35), dict(dur=0)], collect='wait'),
            dict(p=1, jobs=[dict(dur=0), dict(dur=0)], collect='iter'),
            dict(p=2, jobs=[dict(dur=0.35), dict(dur=0), dict(dur=0)], collect='wait'),
            dict(p=2, jobs=[dict(dur=0.35), dict(dur=0.35), dict(dur=0)], collect='handle'),
            dict(p=1, jobs=[dict(dur=0.35, mode='fail'), dict(dur=0)], collect='tasks'),
            dict(p=1, jobs=[dict(dur=1.2), dict(dur=1.2)], collect='waitto', wto=2),
            dict(p=1, timeout=1, jobs=[dict(dur=0.3, cb='slow'), dict(dur=0)], collect='wait')]


def jobs(tier):
    out = []
    s2 = scenarios2(tier)
    for sc in s2:
        out += [dict(sc=sc, bound=2, shard=i, of=24) for i in range(24)]
    for sc in scenarios1(tier):
        out += [dict(sc=sc, bound=1, shard=i, of=2) for i in range(2)]
    s0 = scenarios0(tier)
    out += [dict(scs=s0[i:i + 60]) for i in range(0, len(s0), 60)]
    return out


def run_job(job, rec):
    if 'scs' in job:
        for sc in job['scs']:
            scenario.explore(sc, rec, judge, 0)
            rec.count('scenarios with the default schedule')
    else:
        n = scenario.explore(job['sc'], rec, judge, job['bound'], job['shard'], job['of'])
        rec.count(f"schedules with at most {job['bound']} deviations", n)


def replay(case, rec):
    scenario.replay(case, rec, judge)
