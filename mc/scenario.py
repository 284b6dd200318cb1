"""One runner scenario = launches of planned simulations + a way of collecting the results; executed under mc.sched.

The judges of C12, C13 and C14 evaluate the same observation from the point of view of their property."""
import functools
import itertools
import shutil
import subprocess
from pathlib import Path

from . import sched
from . import simharness as H
from .core import Violation, fresh_dir
import time
from spicelib.sim.process_callback import ProcessCallback


def cb_record(raw, log, tag='f'):
    """What a callback sees: recorded with the job found in the log (or raw) file name."""
    w = H.WORLD
    name = Path(log if log is not None else raw).stem
    r, l_ = Path(raw) if raw else None, Path(log) if log else None
    seen = (name, r is not None and r.exists() and r.read_text().endswith(H.RAW_TAIL),
            l_ is not None and l_.exists() and l_.read_text().endswith(H.LOG_TAIL))
    w.callbacks.append(seen)
    return ('cb', tag) + seen


def cb_func(raw, log):
    return cb_record(raw, log)


def cb_args(raw, log, alpha, beta):
    return cb_record(raw, log, f'{alpha}/{beta}')


def cb_tag(tag, raw, log):
    return cb_record(raw, log, tag)


def cb_raise(raw, log):
    cb_record(raw, log)
    raise ValueError('callback failed')


def cb_slow(raw, log):
    r = cb_record(raw, log)
    time.sleep(3.7)
    return r


class CbObject:
    def __call__(self, raw, log):
        return cb_record(raw, log)


class CbProcess(ProcessCallback):
    @staticmethod
    def callback(raw_file, log_file):
        return ('cb', 'p') + (Path(log_file).stem, Path(raw_file).read_text().endswith(H.RAW_TAIL),
                              Path(log_file).read_text().endswith(H.LOG_TAIL))


class CbProcessDies(ProcessCallback):
    @staticmethod
    def callback(raw_file, log_file):
        import os
        os._exit(3)


CALLBACKS = {
    None: (None, None), 'func': (cb_func, None), 'kw': (cb_args, {'alpha': 1, 'beta': 'x'}),
    'tuple': (cb_args, (1, 'x')), 'raise': (cb_raise, None), 'slow': (cb_slow, None),
    'object': (CbObject(), None), 'partial': (functools.partial(cb_tag, '1/x'), None),
    'lambda': (lambda raw, log: cb_record(raw, log), None),
    'process': (CbProcess, None), 'procdie': (CbProcessDies, None),
}
CB_TAG = {'func': 'f', 'kw': '1/x', 'tuple': '1/x', 'slow': 'f', 'object': 'f', 'partial': '1/x', 'lambda': 'f',
          'process': 'p'}


class Obs:
    def __init__(self):
        self.launch = []  # dict(job, called, returned, task)
        self.collected = []  # (job or None, value, complete)
        self.handles = {}
        self.waits = []  # (called, returned, value, running at return, active at return)
        self.error = None
        self.end = None


def expected(job, timeout):
    """(simulation succeeded, outputs present, callback called, callback result kind)"""
    mode, dur = job.get('mode', 'ok'), job.get('dur', 0)
    timed = timeout is not None and dur > timeout
    if mode == 'crash':
        timed = False
    succ = H.good(mode) and not timed
    outputs = mode == 'ok' and not timed
    called = job.get('cb') is not None and (outputs or job.get('on_error', False))
    return succ, outputs, called


def retcode_of(job, timeout):
    mode, dur = job.get('mode', 'ok'), job.get('dur', 0)
    if mode == 'crash' or (timeout is not None and dur > timeout):
        return -2
    return {'fail': 1, 'failnolog': 2, 'neg': -1, 'partial': 139}.get(mode, 0)


_counter = itertools.count()


def make(sc):
    """A fresh instance of the scenario: returns its main function (the observation is its value)."""
    folder = Path(fresh_dir('scn'))
    names = [f"j{i}" for i in range(len(sc['jobs']))]
    plan = dict(zip(names, sc['jobs']))
    nets = {n: H.netlist(folder, n) for n in names}
    w = H.new_world(plan, folder / 'out')
    o = Obs()
    o.world = w
    o.folder = folder
    o.plan = plan

    def job_of(path):
        stem = Path(path).stem  # circj0_1
        return next((n for n in names if stem.startswith('circ' + n + '_')), None)

    def take(value):
        """A result was handed out: look at it right now."""
        if isinstance(value, tuple) and value and value[0] == 'cb':
            o.collected.append((job_of(value[2]), value, value[3] and value[4]))
        elif isinstance(value, tuple) and len(value) == 2 and value[0] is not None:
            j = job_of(value[0])
            ok = Path(value[0]).exists() and Path(value[1]).exists() and j is not None and H.complete(*value, j)
            o.collected.append((j, value, ok))
        else:
            o.collected.append((None, value, False))

    def launch(r, n):
        job = plan[n]
        cb, args = CALLBACKS[job.get('cb')]
        args = dict(args) if isinstance(args, dict) else args
        t0 = H.now()
        t = r.run(nets[n], callback=cb, callback_args=args, callback_on_error=job.get('on_error', False),
                  exe_log=job.get('exe_log', False), wait_resource=job.get('wait', True),
                  **({'timeout': job['timeout']} if 'timeout' in job else {}))
        o.launch.append(dict(job=n, called=t0, returned=H.now(), task=t))
        if isinstance(args, dict):
            args.update(dict.fromkeys(args, 'later'))   # it belongs to the caller
        return t

    def wait(r, **k):
        t0 = H.now()
        v = r.wait_completion(**k)
        o.waits.append(dict(called=t0, returned=H.now(), value=v, running=len(w.running),
                            pending=sum(1 for x in o.launch if x['task'] is not None and x['task'].is_alive()), **k))

    def body():
        r = H.SimRunner(simulator=H.FakeSim, parallel_sims=sc['p'], timeout=sc.get('timeout', 10),
                        output_folder=str(folder / 'out'))
        o.runner = r
        c = sc['collect']
        if c == 'mid':  # launches between results
            it = iter(r)
            first = True
            for n in names:
                launch(r, n)
                if first:
                    first = False
                    v = next(it, o)
                    if v is not o:
                        take(v)
            while True:
                v = next(it, o)
                if v is o:
                    break
                take(v)
        elif c == 'now':  # a blocking run after the others
            for n in names[:-1]:
                launch(r, n)
            t0 = H.now()
            o.now_result = r.run_now(nets[names[-1]])
            o.launch.append(dict(job=names[-1], called=t0, returned=H.now(), task=r.completed_tasks[-1]))
            wait(r)
            for v in r.tasks():
                take((v.raw_file, v.log_file))
        elif c == 'poll':  # the handles are asked again and again, from the moment they exist
            o.polled = []

            def poll():
                for x in o.launch:
                    if x['task'] is not None:
                        o.polled.append((x['job'], x['task'].get_results()))
            for n in names:
                launch(r, n)
                poll()
            for _ in range(400):
                poll()
                if all(x['task'] is None or not x['task'].is_alive() for x in o.launch):
                    break
                time.sleep(0.1)
            poll()
            for x in o.launch:
                if x['task'] is not None:
                    o.handles[x['job']] = x['task'].wait_results()
        else:
            for n in names:
                launch(r, n)
            if c == 'iter':
                for v in r:
                    take(v)
            elif c == 'tasks':
                for t in r.tasks():
                    take(t.get_results())
            elif c == 'waititer':
                wait(r)
                for v in r:
                    take(v)
            elif c == 'handle':
                for x in o.launch:
                    if x['task'] is not None:
                        v = x['task'].wait_results()
                        o.handles[x['job']] = v
                        if v is not None and v != (None, None) and not (isinstance(v, tuple) and v[0] is None):
                            take(v)
            elif c == 'wait':
                wait(r)
            elif c == 'waitto':
                wait(r, timeout=sc['wto'])
            else:
                raise AssertionError(c)
        o.end = H.now()
        o.max_active = w.max_running
        if sc.get('settle', True):  # afterwards everything completes
            o.settled = r.wait_completion(timeout=1000)
            for t in [x['task'] for x in o.launch if x['task'] is not None]:
                t.join()
            r.update_completed()
        o.counts = (r.okSim, r.failSim, r.runno)
        o.completed = [t.runno for t in r.completed_tasks]
        o.info = r.sim_info()
        return o
    return body


def explore(sc, rec, judge, bound, shard=0, nshards=1):
    def judged(s, v, choices):
        rec.case()
        rec.step(s.points)
        rec.count('schedules')
        rec.maximum('scheduling points in one schedule', s.points)
        rec.maximum('threads in one schedule', len(s.threads))
        rec.state([sc, s.switches, round(s.now, 3)])
        dev = sum(1 for c in choices if c)
        while choices and choices[-1] == 0:
            choices = choices[:-1]
        case = dict(sc=sc, choices=choices, traced=bool(bound))

        def check():
            if isinstance(v, sched.Stuck):
                raise Violation(v.kind, v.msg)
            if isinstance(v, Exception):
                raise v
            for name, e in s.deaths:
                raise Violation('thread-death', f'{name} ended with {type(e).__name__}: {e}')
            v.deviations = dev
            v.sched = s
            judge(sc, v)
        rec.run(case, check, seconds=30)
    n = sched.explore(lambda: make(sc), judged, bound, H.SIM_FILES, shard, nshards)
    rec.trace(n)
    return n


def replay(case, rec, judge):
    s, v = sched.run_schedule(lambda: make(case['sc']), tuple(case['choices']),
                             H.SIM_FILES if case.get('traced', True) else ())

    def check():
        if isinstance(v, sched.Stuck):
            raise Violation(v.kind, v.msg)
        if isinstance(v, Exception):
            raise v
        for name, e in s.deaths:
            raise Violation('thread-death', f'{name} ended with {type(e).__name__}: {e}')
        v.deviations = sum(1 for c in case['choices'] if c)
        v.sched = s
        judge(case['sc'], v)
    rec.case()
    rec.run(case, check)
