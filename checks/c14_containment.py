"""C14: failing simulations and callbacks stay contained."""
import itertools
import multiprocessing

from mc import sched  # noqa: F401
from mc import scenario
from mc import simharness as H
from mc.core import Violation

PROPERTY = 'C14'
LEVEL = 'fault_enumeration'
RULE = ('every combination of outcome (ok, exit 1, exit -1, exit 139 after partial output, launcher crash, timeout, missing raw, '
        'missing log, no output at all) x callback kind (none, function, keyword and tuple arguments, callable object, partial, '
        'lambda, raising, slow, separate process, dying process) x callback_on_error x console log, alone and beside healthy '
        'neighbours, under all schedules with at most D deviations (see C12; D=0 full product, D=1 quick / D=2 thorough chosen). '
        'Non-trivial: distinct (scenario, context switches, end time).')
ASSUMPTIONS = ['one user thread drives the runner', 'preemption inside a source line is not explored',
               'process callbacks run as real processes, under the default schedule only']
MODES = ['ok', 'fail', 'neg', 'partial', 'crash', 'noraw', 'nolog', 'noout', 'timeout', 'failnolog']
CBS = [None, 'func', 'kw', 'tuple', 'object', 'partial', 'lambda', 'raise', 'slow']


def J(mode, cb=None, on_error=False, dur=0.2, exe=False):
    j = dict(mode=mode, cb=cb, on_error=on_error, dur=dur, exe_log=exe)
    if mode == 'timeout':
        j.update(mode='ok', dur=50)
    return j


def judge(sc, o):
    tmo = sc.get('timeout', 10)
    w = o.world
    stems = {}
    for x in o.launch:
        t = x['task']
        if t is None:
            raise Violation('refused', f"{x['job']} was refused")
        stems[t.netlist_file.stem] = x['job']
    seen = {}
    for name, rok, lok in w.callbacks:
        seen.setdefault(stems.get(name, name), []).append((rok, lok))
    for x in o.launch:
        t, n = x['task'], x['job']
        job = o.plan[n]
        succ, outputs, called = scenario.expected(job, tmo)
        code = scenario.retcode_of(job, tmo)
        if t.is_alive():
            raise Violation('still-alive', f'{n} never ends')
        if t.retcode != code:
            raise Violation('retcode', f'{n}: {t.retcode}, expected {code}')
        if (t.exception_text is not None) != (code == -2):
            raise Violation('exception-text', f'{n}: {t.exception_text}, return code {code}')
        if t.start_time is None or t.stop_time is None or t.stop_time < t.start_time:
            raise Violation('times', f'{n}: {t.start_time} {t.stop_time}')
        base = t.netlist_file
        haslog = job.get('mode', 'ok') not in ('crash', 'nolog', 'noout', 'failnolog')
        fail, log = base.with_suffix('.fail'), base.with_suffix('.log')
        if succ:
            if haslog and (not log.exists() or log.read_text() != H.LOG_HEAD + n + H.LOG_TAIL or t.log_file != log):
                raise Violation('log', f'{n}: log of a successful simulation is not in place ({t.log_file})')
            if fail.exists():
                raise Violation('fail-file', f'{n} succeeded but {fail.name} exists')
            if t.raw_file != base.with_suffix('.raw'):
                raise Violation('raw', f'{n}: {t.raw_file}')
        else:
            if haslog:
                if not fail.exists() or not fail.read_text().startswith(H.LOG_HEAD + n) or t.log_file != fail:
                    raise Violation('fail-file', f'{n} failed, its log is not in {fail.name} (log_file={t.log_file})')
                if log.exists():
                    raise Violation('log', f'{n} failed but {log.name} is still there')
            if t.raw_file is not None:
                raise Violation('raw', f'{n} failed but has raw_file {t.raw_file}')
        if job.get('exe_log') and job.get('mode') != 'crash' and not base.with_suffix('.exe.log').exists():
            raise Violation('exe-log', n)
        cb = job.get('cb')
        calls = seen.pop(n, [])
        if cb in ('process', 'procdie'):
            pass
        elif len(calls) != (1 if called else 0):
            raise Violation('callback-count', f'{n}: callback called {len(calls)} times, expected {int(called)}')
        elif calls and outputs and calls[0] != (True, True):
            raise Violation('callback-files', f'{n}: callback called before its files were complete {calls}')
        r = t.get_results()
        if cb is None:
            if r != (t.raw_file, t.log_file):
                raise Violation('result', f'{n}: {r}')
            if outputs and not H.complete(*r, n):
                raise Violation('result', f'{n}: files not complete')
        elif not called or cb in ('raise', 'procdie'):
            if r is not None:
                raise Violation('result', f'{n}: {r} instead of None')
        else:
            want = ('cb', scenario.CB_TAG[cb], (t.log_file or t.raw_file).stem, outputs, outputs and t.log_file.exists())
            if r[:3] != want[:3] or (outputs and r != want):
                raise Violation('result', f'{n}: {r} instead of {want}')
        if n in o.handles and o.handles[n] != r:
            raise Violation('handle', f'{n}: wait_results gave {o.handles[n]}, results are {r}')
    if seen:
        raise Violation('callback-unknown', str(seen))
    nok, nfail, runno = o.counts
    good = sum(1 for x in o.launch if scenario.expected(o.plan[x['job']], tmo)[0])
    if (nok, nfail, runno) != (good, len(o.launch) - good, len(o.launch)):
        raise Violation('counters', f'{o.counts}, {good} of {len(o.launch)} succeeded')


def scenarios0(tier):
    out = []
    for m, cb, oe in itertools.product(MODES, CBS, (False, True)):
        if cb is None and oe:
            continue
        for exe in ((False, True) if cb is None else (False,)):
            out.append(dict(p=1, jobs=[J(m, cb, oe, exe=exe)], collect='handle'))
            for nb in ('func', None):
                out.append(dict(p=2, jobs=[J('ok', nb), J(m, cb, oe, exe=exe), J('ok', nb, dur=0)], collect='handle'))
        if (m, cb, oe) != ('timeout', 'slow', True):  # (the iteration gives up when a callback makes it late)
            out.append(dict(p=1, jobs=[J(m, cb, oe), J('ok', 'func')], collect='iter', timeout=60 if m != 'timeout' else 10))
    three = itertools.product(MODES[:-1], repeat=3)
    for ms in three:
        for cb, oe in ((None, False), ('func', False), ('func', True)):
            if tier != 'thorough' and cb is None:
                continue
            out.append(dict(p=3, jobs=[J(m, cb, oe, dur=d) for m, d in zip(ms, (0, 0.2, 0.1))], collect='handle'))
    return out


def procs():
    out = []
    for cb, oe, m in itertools.product(('process', 'procdie'), (False, True), ('ok', 'fail', 'noout')):
        if oe and m != 'ok':
            continue
        out.append(dict(p=2, jobs=[J(m, cb, oe), J('ok', 'func')], collect='handle'))
    return out


def scenarios1(tier):
    out = [dict(p=2, jobs=[J('fail', 'func', True), J('ok', 'func')], collect='handle'),
           dict(p=2, jobs=[J('crash', None), J('ok', 'raise'), J('ok', 'func')], collect='handle'),
           dict(p=2, jobs=[J('noraw', 'func'), J('ok', 'func', dur=0)], collect='iter'),
           dict(p=2, jobs=[J('timeout', 'func', True), J('ok', 'kw')], collect='waititer')]
    if tier == 'thorough':
        out += [dict(p=2, jobs=[J(m, cb, oe), J('ok', 'func', dur=0.1)], collect=way) for m in MODES[1:-1]
                for cb, oe in ((None, False), ('func', True), ('raise', True)) for way in ('handle',)]
    return out


def scenarios2(tier):
    if tier != 'thorough':
        return []
    return [dict(p=2, jobs=[J('fail', 'func', True, dur=0), J('ok', 'func', dur=0)], collect='handle'),
            dict(p=2, jobs=[J('crash', 'func', True), J('ok', 'raise', dur=0)], collect='handle'),
            dict(p=1, jobs=[J('neg', None, dur=0), J('ok', None, dur=0)], collect='waititer')]


def jobs(tier):
    out = []
    for sc in scenarios2(tier):
        out += [dict(sc=sc, bound=2, shard=i, of=24) for i in range(24)]
    for sc in scenarios1(tier):
        out += [dict(sc=sc, bound=1, shard=i, of=2) for i in range(2)]
    out += [dict(proc=sc) for sc in procs()]
    s0 = scenarios0(tier)
    out += [dict(scs=s0[i:i + 40]) for i in range(0, len(s0), 40)]
    return out


def run_job(job, rec):
    if 'scs' in job:
        for sc in job['scs']:
            scenario.explore(sc, rec, judge, 0)
            rec.count('scenarios with the default schedule')
    elif 'proc' in job:
        multiprocessing.current_process()._config['daemon'] = False  # process callbacks need children
        scenario.explore(job['proc'], rec, judge, 0)
        rec.count('scenarios with process callbacks')
    else:
        n = scenario.explore(job['sc'], rec, judge, job['bound'], job['shard'], job['of'])
        rec.count(f"schedules with at most {job['bound']} deviations", n)


def replay(case, rec):
    scenario.replay(case, rec, judge)
