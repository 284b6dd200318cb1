"""Fake simulator and scenario helpers for the runner checks (C12-C16). Import mc.sched first."""
import os
import re
import subprocess
from . import sched
import time
from pathlib import Path
from spicelib.sim.simulator import Simulator
from spicelib.sim.sim_runner import SimRunner  # noqa: F401
from .core import Violation

SIM_FILES = ('spicelib/sim/sim_runner.py', 'spicelib/sim/run_task.py', 'spicelib/client_server/srv_sim_runner.py',
             'spicelib/client_server/sim_server.py')
RAW_HEAD, RAW_TAIL = 'RAW of job ', '\nEND-OF-RAW\n'
LOG_HEAD, LOG_TAIL = 'LOG of job ', '\nEND-OF-LOG\n'


class World:
    """What the simulators did during one schedule."""

    def __init__(self, plan, folder):
        self.plan = plan
        self.folder = Path(folder)
        self.running = {}
        self.max_running = 0
        self.starts = []  # (job, netlist path, virtual time)
        self.ends = []  # (job, virtual time, how)
        self.callbacks = []  # (job, raw ok, log ok)
        self.switches = {}
        self.timeouts = {}
        self.consoles = {}


WORLD = None


def now():
    me = sched.current()
    return me.sched.now if me is not None else 0.0


class FakeSim(Simulator):
    """Writes its outputs in two halves, sleeps, returns or raises as the plan of the job says."""
    spice_exe = ['fakesim']
    process_name = 'no-such-process-fakesim'

    @classmethod
    def valid_switch(cls, switch, switch_param=''):
        return [switch]

    @classmethod
    def run(cls, netlist_file, cmd_line_switches=None, timeout=None, stdout=None, stderr=None, cwd=None, exe_log=False):
        w = WORLD
        path = Path(netlist_file)
        text = path.read_text()
        m = re.search(r'job=(\w+)', text)
        job = m.group(1) if m else '?'
        p = w.plan.get(job, {})
        w.starts.append((job, str(path), now()))
        w.switches[job] = list(cmd_line_switches or [])
        w.timeouts[job] = timeout
        w.consoles[job] = exe_log
        key = (job, len(w.starts))
        w.running[key] = str(path)
        w.max_running = max(w.max_running, len(w.running))
        how = 'exc'
        try:
            mode = p.get('mode', 'ok')
            if mode == 'crash':
                raise RuntimeError('launcher crashed')
            raw, log = path.with_suffix(cls.raw_extension), path.with_suffix('.log')
            if mode not in ('noraw', 'noout'):
                raw.write_text(RAW_HEAD + job)
            if mode not in ('nolog', 'noout', 'failnolog'):
                log.write_text(LOG_HEAD + job)
            for ext in p.get('extra', ()):
                path.with_suffix(ext).write_text('extra of ' + job)
            if exe_log:
                path.with_suffix('.exe.log').write_text('console of ' + job)
            dur = p.get('dur', 0)
            if timeout is not None and dur > timeout:
                time.sleep(timeout)
                raise subprocess.TimeoutExpired('fakesim', timeout)
            if dur:
                time.sleep(dur)
            if mode not in ('noraw', 'noout') and mode != 'partial':
                raw.write_text(RAW_HEAD + job + RAW_TAIL)
            if mode not in ('nolog', 'noout', 'failnolog'):
                log.write_text(LOG_HEAD + job + LOG_TAIL)
            how = 'ok'
            return {'fail': 1, 'failnolog': 2, 'neg': -1, 'partial': 139}.get(mode, 0)
        finally:
            del w.running[key]
            w.ends.append((job, now(), how))


def good(mode):
    """The runner is entitled to count the simulation as successful."""
    return mode in ('ok', 'noraw', 'nolog', 'noout')


def new_world(plan, folder):
    global WORLD
    WORLD = World(plan, folder)
    return WORLD


def netlist(folder, job, ext='.net', stem=None):
    p = Path(folder) / ((stem or 'circ' + job) + ext)
    p.write_text(f'* job={job}\nR1 a 0 1k\n.end\n')
    return p


def complete(raw, log, job):
    """The result files are the complete ones of the job."""
    return (Path(raw).read_text() == RAW_HEAD + job + RAW_TAIL) and (Path(log).read_text() == LOG_HEAD + job + LOG_TAIL)


def stuck_to_violation(v):
    if isinstance(v, sched.Stuck):
        return Violation(v.kind, v.msg)
    return None


def drop(runner):
    """The destructor of a runner waits for its simulations: make that a no-op for abandoned schedules."""
    try:
        runner.active_tasks.clear()
    except AttributeError:
        pass
