"""The script that starts a simulation server: every combination of its options, and its ways of stopping."""
import contextlib
import importlib
import io
import itertools
import os
import signal
import sys
import time

from mc.core import Violation

NAMES = {None: 'LTspice', 'ltspice': 'LTspice', 'LTSpice': 'LTspice', 'ngspice': 'NGspiceSimulator', 'NGSpice': 'NGspiceSimulator', 'XYCE': 'XyceSimulator', 'xyce': 'XyceSimulator'}


def check(case):
    sim, timeout, port, host, out, parallel, first, end, calls = case
    from spicelib.client_server.sim_server import SimServer
    from spicelib.scripts import run_server
    run_server = importlib.reload(run_server)      # a process of its own
    import inspect
    names = [n for n in inspect.signature(SimServer.__init__).parameters][1:]
    made, log = [], []
    real = {n: getattr(SimServer, n) for n in ('__init__', 'running', 'stop_server')}
    sleep, argv = time.sleep, sys.argv
    handlers = {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM)}

    def init(self, *a, **k):
        made.append(dict(zip(names, a), **k))

    def running(self):
        log.append('running')
        n = log.count('running')
        if end == 'client':
            return n <= calls
        if n == calls + 1:
            os.kill(os.getpid(), getattr(signal, end))
        if n > calls + 4:
            raise Violation('stop', f'{end} does not stop the server: {case}')
        return 'stop' not in log

    def stop(self):
        log.append('stop')
    opts = []
    for flag, v in (('-p', port), ('--host', host), ('-o', out), ('--parallel', parallel)):
        if v is not None:
            opts += [flag, str(v)]
    pos = [x for x in (sim, None if timeout is None else str(timeout)) if x is not None]
    SimServer.__init__, SimServer.running, SimServer.stop_server = init, running, stop
    time.sleep = lambda *_: None
    sys.argv = ['run_server', *(opts + pos if first else pos + opts)]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            run_server.main()
    finally:
        time.sleep, sys.argv = sleep, argv
        for s, h in handlers.items():
            signal.signal(s, h)
        for n, f in real.items():
            setattr(SimServer, n, f)
    if len(made) != 1:
        raise Violation('server script', f'{len(made)} servers made; {case}')
    defaults = {n: p.default for n, p in inspect.signature(real['__init__']).parameters.items()}
    got = dict(defaults, **made[0])
    want = {'simulator': NAMES[sim], 'port': 9000 if port is None else port, 'host': host or 'localhost', 'output_folder': out or '.',
            'parallel_sims': 4 if parallel is None else max(1, parallel), 'timeout': 300 if timeout is None else timeout}
    for k, v in want.items():
        g = got[k].__name__ if k == 'simulator' else got[k]
        if g != v:
            raise Violation('server script', f'{k} is {g!r}, {v!r} expected; {case}')
    if end != 'client' and log.count('stop') != 1:
        raise Violation('stop', f'stopped {log.count("stop")} times by {end}; {case}')


def space(tier):
    k = 0
    for sim in NAMES:
        for timeout in (None, 60) if sim else (None,):
            for port, host, out, parallel in itertools.product((None, 9001), (None, '0.0.0.0'), (None, 'results dir'), (None, 0, -3, 1, 7)):
                k += 1
                ends = ('SIGINT', 'SIGTERM', 'client') if tier == 'thorough' else (('SIGINT', 'SIGTERM', 'client')[k % 3],)
                for end in ends:
                    for first in (False, True):
                        yield [sim, timeout, port, host, out, parallel, first, end, k % 3]
