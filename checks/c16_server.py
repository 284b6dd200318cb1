"""C16: simulation server and clients: each job delivered once, to its own session; files removed on close and stop."""
import itertools
import os
import xmlrpc.client
import xmlrpc.server
import zipfile
from pathlib import Path

from mc import sched
from mc import serverscript
from mc import simharness as H
from mc.core import Violation, fresh_dir

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = ('real SimServer, ServerSimRunner, SimRunner, RunTask and SimClient threads under the controlled scheduler (see C12); the TCP '
        'transport is replaced by an in-process queue that keeps the real XML-RPC marshalling, dispatch and shutdown semantics. '
        'Default schedule: every sequence of at most 4 (quick) / 5 (thorough) client operations (submit ok / failing / crashing / '
        'long, iterate one, fetch, iterate all, list all then fetch, foreign fetch, close, pause) of one session beside a second '
        'session, and every order of at most 4 / 5 operations of two sessions, limit 1 and 3, then close or stop. All schedules with at most 1 (quick) / 2 (thorough, chosen) deviations of '
        'chosen scenarios, including stop during runs. The script that starts a server: every combination of its options, stopped by signals or by a client. Non-trivial: distinct (scenario, context switches, end time).')
ASSUMPTIONS = ['TCP transport replaced by a queue; marshalling and dispatch are those of the standard library',
               'preemption inside a source line is not explored',
               'files uploaded as sources stay in the folder; two sessions that send sources of the same name share them (not covered)']

import sys
sys.unraisablehook = lambda *_: None  # client destructors without a server
BUS = None


class FakeServer(xmlrpc.server.SimpleXMLRPCDispatcher):
    """SimpleXMLRPCServer without the socket."""

    def __init__(self, addr, requestHandler=None, logRequests=True, allow_none=False, encoding=None, bind_and_activate=True,
                 use_builtin_types=False):
        super().__init__(allow_none, encoding, use_builtin_types)
        self.requests = []
        self._stop = False
        self._over = False  # connections are accepted from the beginning
        global BUS
        BUS = self

    def serve_forever(self, poll_interval=0.5):
        self._over = False
        try:
            while not self._stop:
                me = sched.current()
                me.sched.block(me, lambda: self.requests or self._stop)
                if self._stop:
                    break
                if self.requests:
                    r = self.requests.pop(0)
                    r['answer'] = self._marshaled_dispatch(r['data'])
        finally:
            self._stop = False
            self._over = True

    def shutdown(self):
        self._stop = True
        me = sched.current()
        me.sched.block(me, lambda: self._over)

    def server_close(self):
        pass


class FakeProxy:
    def __init__(self, uri, *a, **k):
        self._uri = uri

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def call(*args):
            srv = BUS
            r = {'data': xmlrpc.client.dumps(args, name).encode(), 'answer': None}
            if srv is None or srv._over:
                raise ConnectionRefusedError('server is down')
            srv.requests.append(r)
            me = sched.current()
            if me is None:
                raise ConnectionRefusedError('no schedule')
            me.sched.block(me, lambda: r['answer'] is not None or srv._over)
            if r['answer'] is None:
                raise ConnectionResetError('server went down')
            return xmlrpc.client.loads(r['answer'])[0][0]
        return call


xmlrpc.server.SimpleXMLRPCServer = FakeServer
xmlrpc.client.ServerProxy = FakeProxy

KIND = {'ok': dict(dur=0.2, extra=['.op.raw', '.db']), 'fail': dict(mode='fail', dur=0.2, extra=['.op.raw']), 'crash': dict(mode='crash'), 'long': dict(dur=2.3),
        'noout': dict(mode='noout'), 'quick': dict(dur=0)}
# what the client finally holds: ok -> raw+log, fail -> .fail, crash/noout -> nothing
DATA = {'ok': 'both', 'long': 'both', 'quick': 'both', 'fail': 'fail', 'crash': None, 'noout': None}


class ClientRun:
    """One client thread's script and its reference model."""

    def __init__(self, world, k, ops, folder):
        self.w, self.k, self.ops = world, k, ops
        self.folder = Path(folder) / f'client{k}'
        self.folder.mkdir()
        self.jobs = {}  # runno -> (name, kind)
        self.listed = []
        self.fetched = {}
        self.n = 0
        self.closed = False
        self.error = None
        self.out = Path(folder) / 'out'
        self.uploaded = set()

    def client(self):
        from spicelib.client_server.sim_client import SimClient
        self.c = SimClient('http://nowhere', 9000)

    def step(self, op, others):
        c = self.c
        if op in KIND:
            name = f'c{self.k}j{self.n}'
            self.n += 1
            self.w.plan[name] = KIND[op]
            (self.folder / 'circ.net').write_text(f'* job={name}\nR1 a 0 1k\n.end\n')
            r = c.run(self.folder / 'circ.net')
            if r == -1:
                raise Violation('refused', f'{name}: {op}')
            if r in self.jobs or any(r in o.jobs for o in others):
                raise Violation('same-id', f'run id {r} given twice')
            self.jobs[r] = (name, op)
        elif op == 'dep':      # a submission with the files it needs
            n = self.n
            files = self.sources(n)
            name = f'c{self.k}j{n}'
            self.n += 1
            self.w.plan[name] = KIND['ok']
            (self.folder / 'circ.net').write_text(f'* job={name}\nR1 a 0 1k\n.end\n')
            r = c.run(str(self.folder / 'circ.net'), dependencies=[files[0], str(files[1]), self.folder / 'not-there.lib'])
            if r == -1 or r in self.jobs or any(r in o.jobs for o in others):
                raise Violation('refused', f'{name}: {op} answered {r}')
            self.jobs[r] = (name, 'ok')
            self.sent(files)
        elif op == 'src':
            files = self.sources(self.n)
            if c.add_sources([str(files[0]), files[1], self.folder / 'not-there.lib']) is not True:
                raise Violation('sources', 'add_sources did not answer True')
            self.sent(files)
        elif op == 'missing':
            if c.run(self.folder / 'no-such.net') != -1:
                raise Violation('accepted', 'a circuit that does not exist')
        elif op == 'late':     # the session is closed
            before = sorted(p.name for p in self.out.iterdir())
            (self.folder / 'late.net').write_text('* job=late\nR1 a 0 1k\n.end\n')
            starts = len(self.w.starts)
            r = c.run(self.folder / 'late.net'), c.add_sources([self.folder / 'late.net'])
            settle(2)
            if r != (-1, False) or len(self.w.starts) != starts or (self.out / 'late.net').exists():
                raise Violation('accepted', f'{r} after the session was closed, {before}')
        elif op == 'next':
            pending = [r for r in self.jobs if r not in self.listed]
            r = next(c, None)
            if r is None:
                if pending:
                    raise Violation('iteration-ended', f'jobs {pending} never listed')
            else:
                if r not in pending:
                    raise Violation('wrong-id', f'iteration gave {r}, pending {pending}')
                self.listed.append(r)
        elif op == 'fetch':
            todo = [r for r in self.listed if r not in self.fetched]
            if todo:
                self.fetch(todo[0])
        elif op == 'fetchlast':
            todo = [r for r in self.listed if r not in self.fetched]
            if todo:
                self.fetch(todo[-1])
        elif op == 'iter':
            self.step('fetchall', others)
            for r in c:
                if r in self.listed or r not in self.jobs:
                    raise Violation('wrong-id', f'iteration gave {r}; listed {self.listed}, jobs {list(self.jobs)}')
                self.listed.append(r)
                self.fetch(r)
            self.all_listed()
        elif op == 'iterall':
            for r in list(c):
                if r in self.listed or r not in self.jobs:
                    raise Violation('wrong-id', f'iteration gave {r}; listed {self.listed}, jobs {list(self.jobs)}')
                self.listed.append(r)
            self.all_listed()
            self.step('fetchall', others)
        elif op == 'fetchall':
            for r in [r for r in self.listed if r not in self.fetched]:
                self.fetch(r)
        elif op == 'foreign':
            for o in others:
                for r in list(o.jobs):
                    if r in o.fetched or o.closed:
                        continue
                    name, data = c.server.get_files(c.session_id, r)
                    if name != '' or data.data:
                        raise Violation('foreign-data', f'session {self.k} got the files of run {r} of session {o.k}')
        elif op == 'status':
            got = c.server.status(c.session_id)
            if len(set(got)) != len(got) or any(r not in self.jobs or r in self.fetched for r in got):
                raise Violation('status', f'status {got}; own jobs {list(self.jobs)}, fetched {list(self.fetched)}')
        elif op == 'fullstatus':
            settle(6)
            got = sorted(c.server.status(c.session_id))
            want = sorted(r for r in self.jobs if r not in self.fetched)
            if got != want:
                raise Violation('status', f'status {got}, expected {want}')
        elif op == 'pause':
            sched.v_sleep(0.5)
        elif op == 'close':
            if not self.closed:
                c.close_session()
                self.closed = True
        else:
            raise AssertionError(op)

    def sources(self, n):
        files = [self.folder / f'part{self.k}.lib', self.folder / 'deeper' / f'other{self.k}.inc']
        files[1].parent.mkdir(exist_ok=True)
        for i, f in enumerate(files):
            f.write_text(f'* version {n} of file {i}\n')
        return files

    def sent(self, files):
        for f in files:
            there = self.out / f.name
            if not there.exists() or there.read_text() != f.read_text():
                raise Violation('sources', f'{f.name} on the server: {there.read_text() if there.exists() else "not there"!r}, sent {f.read_text()!r}')
            self.uploaded.add(f.name)
        if (self.out / 'not-there.lib').exists():
            raise Violation('sources', 'a file that does not exist was sent')

    def all_listed(self):
        left = [r for r in self.jobs if r not in self.listed]
        if left:
            raise Violation('iteration-ended', f'jobs {left} never listed')

    def fetch(self, r):
        name, kind = self.jobs[r]
        z = self.c.get_runno_data(r)
        if r in self.fetched:
            raise Violation('twice', f'{r} fetched twice')
        self.fetched[r] = z
        want = DATA[kind]
        if want is None:
            if z is not None:
                raise Violation('data', f'{name} ({kind}) has no outputs but {z} was delivered')
            return
        if z is None:
            raise Violation('no-data', f'{name} ({kind}): nothing delivered')
        with zipfile.ZipFile(z) as f:
            files = {Path(n).suffix: f.read(n).decode() for n in f.namelist()}
        os.unlink(z)
        good = {'both': {'.raw': H.RAW_HEAD + name + H.RAW_TAIL, '.log': H.LOG_HEAD + name + H.LOG_TAIL},
                'fail': {'.fail': H.LOG_HEAD + name + H.LOG_TAIL}}[want]
        if files != good:
            raise Violation('data', f'{name} ({kind}): delivered {files}')

    def run(self, others):
        try:
            for op in self.ops:
                self.step(op, others)
        except BaseException as e:
            self.error = e
            if isinstance(e, sched.Abort):
                raise


def make(sc):
    folder = Path(fresh_dir('srv'))
    out = folder / 'out'
    w = H.new_world({}, out)

    def body():
        import threading
        from spicelib.client_server.sim_server import SimServer
        server = SimServer(H.FakeSim, parallel_sims=sc['p'], output_folder=str(out), timeout=sc.get('timeout', 20))
        clients = [ClientRun(w, k, ops, folder) for k, ops in enumerate(sc['clients'])]
        for c in clients:
            c.client()
        threads = []
        if sc.get('parallel', False):
            for c in clients[1:]:
                t = threading.Thread(target=c.run, args=([o for o in clients if o is not c],), name=f'client{c.k}')
                threads.append(t)
                t.start()
            clients[0].run(clients[1:])
        elif 'order' in sc:  # operations of the sessions in the given order
            for k, op in sc['order']:
                clients[k].step(op, [o for o in clients if o is not clients[k]])
        else:  # the second session's operations are done first, then the first one's, then the rest of the second
            for c in reversed(clients):
                c.run([o for o in clients if o is not c])
        if sc.get('stop') == 'early':
            stop(server, sc, clients)
        for t in threads:
            t.join()
        for c in clients:
            if c.error is not None:
                if sc.get('stop') == 'early' and isinstance(c.error, ConnectionError):
                    continue
                raise c.error
        if w.max_running > sc['p']:
            raise Violation('too-many', f'{w.max_running} simulations at once, {sc["p"]} allowed')
        accepted = {name for c in clients for name, _ in c.jobs.values()}
        started = [s[0] for s in w.starts]
        for name in accepted:
            if started.count(name) != 1:
                raise Violation('runs', f'{name} simulated {started.count(name)} times')
        if sc.get('stop') != 'early':
            for c in clients:  # untouched sessions still have their jobs
                if not c.closed:
                    c.step('fullstatus', [])
            settle(10)
            leftovers(out, clients, [c for c in clients if c.closed], w)
            if sc.get('stop') == 'end':
                stop(server, sc, clients)
            else:
                for c in clients:
                    c.step('close', [])
                settle(10)
                leftovers(out, clients, clients, w)
                stop(server, sc, clients)
        server.simulation_manager.join()
        server.server_thread.join()
        settle(10)
        files = sorted(p.name for p in out.iterdir())
        sent = {'circ.net'}.union(*(c.uploaded for c in clients))
        if [f for f in files if f not in sent]:
            raise Violation('left-after-stop', f'{files}')
        for c in clients:
            c.c.close_session = lambda: None  # the destructor would call a server that is gone
        server.simulation_manager.runner.active_tasks.clear()
        return w
    return body


def settle(n):
    """Lets everything come to rest (in parts: a deviation can shorten one of them only)."""
    for _ in range(n):
        sched.v_sleep(1)


def stop(server, sc, clients):
    if sc.get('via') == 'rpc':
        if clients[0].c.server.stop_server() is not True:
            raise Violation('stop', 'stop_server did not answer True')
    else:
        server.stop_server()


def leftovers(out, clients, closed, w):
    """Files of fetched jobs and of closed sessions are gone; others are there."""
    stems = {}
    for job, path, _ in w.starts:
        stems[job] = Path(path).stem
    names = sorted(p.name for p in out.iterdir())
    for c in clients:
        for r, (name, kind) in c.jobs.items():
            have = [n for n in names if n.startswith(stems[name] + '.')]
            if c in closed or r in c.fetched:
                if have:
                    raise Violation('left-behind', f'{have} of {name} ({kind}, {"closed" if c in closed else "fetched"})')
            elif DATA[kind] and not any(n.endswith('.zip') for n in have):
                raise Violation('removed', f'files of {name} ({kind}) are gone: {have}')


OPS = ['ok', 'fail', 'crash', 'long', 'next', 'fetch', 'iter', 'iterall', 'foreign', 'close', 'fullstatus']


def useful(ops):
    """Sequences that start with a submission and do nothing after closing."""
    if ops[0] not in KIND:
        return False
    if 'close' in ops[:-1]:
        return False
    listed = jobs = 0
    for a in ops:
        if a in KIND:
            jobs += 1
        elif a == 'next':
            listed += 1
        elif a == 'fetch':
            if listed == 0:
                return False
            listed -= 1
    return True


def scenarios0(tier):
    depth = 5 if tier == 'thorough' else 4
    other = ['ok', 'fail']
    for n in range(1, depth + 1):
        for ops in itertools.product(OPS, repeat=n):
            if useful(ops):
                for p in ((1, 3) if n < depth else (2,)):
                    for stop_ in ('end', 'close') if n < depth else ('end',):
                        yield dict(p=p, clients=[list(ops), other], stop=stop_, via='rpc' if len(ops) % 2 else 'local')


def scenarios_mixed(tier):
    """Two sessions taking turns in every order."""
    depth = 5 if tier == 'thorough' else 4
    ops = [(k, a) for k in (0, 1) for a in ('quick', 'fail', 'iter', 'foreign', 'close')]
    for n in range(3, depth + 1):
        for order in itertools.product(ops, repeat=n):
            if order[0] not in ((0, 'quick'), (0, 'fail')) or {k for k, _ in order} != {0, 1}:
                continue
            if any(a not in KIND and not any(x[0] == k and x[1] in KIND for x in order[:i]) for i, (k, a) in enumerate(order)
                   if a != 'foreign'):
                continue  # nothing to iterate or to close
            if any((k, 'close') in order[:i] for i, (k, _) in enumerate(order)):
                continue
            if n == depth and any(a == 'foreign' for _, a in order[:-2]):
                continue
            yield dict(p=2, clients=[[], []], order=[list(x) for x in order], stop='end')


def scenarios_sources(tier):
    """Files sent with the circuits or alone; what is refused."""
    depth = 4 if tier == 'thorough' else 3
    for n in range(1, depth + 1):
        for ops in itertools.product(['dep', 'src', 'missing', 'ok', 'iter', 'next', 'fetch', 'close', 'late'], repeat=n):
            if not {'dep', 'src', 'missing', 'late'} & set(ops) or ('close' in ops and any(o != 'late' for o in ops[ops.index('close') + 1:])):
                continue
            if 'late' in ops and 'close' not in ops[:ops.index('late')]:
                continue
            if any(o in ('iter', 'next', 'fetch') and not {'dep', 'ok'} & set(ops[:i]) or o == 'fetch' and ops[:i].count('next') <= ops[:i].count('fetch') for i, o in enumerate(ops)):
                continue
            for other in ([], ['dep', 'src']):
                yield dict(p=2, clients=[list(ops), other], stop='end' if n % 2 else 'close')


def scenarios1(tier):
    out = [dict(p=2, clients=[['quick', 'ok', 'iter', 'close']], stop='end'),
           dict(p=1, clients=[['quick', 'quick', 'iterall']], stop='close'),
           dict(p=1, clients=[['quick', 'iter', 'close'], ['quick', 'foreign', 'iter', 'close']], parallel=True, stop='end'),
           dict(p=2, clients=[['quick', 'close'], ['ok']], stop='early'),
           dict(p=2, clients=[['ok', 'close']], stop='close', via='rpc'),
           dict(p=1, clients=[['quick', 'quick']], stop='early', via='rpc')]
    if tier == 'thorough':
        out += [dict(p=2, clients=[['ok', 'quick', 'iter', 'close'], ['fail', 'ok', 'iterall', 'close']], parallel=True, stop='end'),
                dict(p=1, clients=[['ok', 'fail', 'iter', 'close'], ['crash', 'quick', 'iter']], parallel=True, stop='close'),
                dict(p=2, clients=[['ok', 'pause', 'close'], ['quick', 'status', 'iter']], parallel=True, stop='end'),
                dict(p=3, clients=[['quick', 'quick', 'quick', 'iterall']], stop='end')]
    return out


def scenarios2(tier):
    if tier != 'thorough':
        return []
    return [dict(p=1, clients=[['quick']], stop='early')]  # others: about 6000 cpu-s each


def jobs(tier):
    out = []
    for sc in scenarios2(tier):
        out += [dict(sc=sc, bound=2, shard=i, of=24) for i in range(24)]
    for sc in scenarios1(tier):
        out += [dict(sc=sc, bound=1, shard=i, of=6) for i in range(6)]
    n = 64
    out.append(dict(script=tier))
    return out + [dict(part=i, of=n, tier=tier) for i in range(n)]


def explore(sc, rec, bound, shard=0, nshards=1):
    def judged(s, v, choices):
        rec.case()
        rec.step(s.points)
        rec.maximum('scheduling points in one schedule', s.points)
        rec.maximum('threads in one schedule', len(s.threads))
        rec.state([sc, s.switches, round(s.now, 3)])
        while choices and choices[-1] == 0:
            choices = choices[:-1]

        def check():
            verdict(s, v)
        rec.run(dict(sc=sc, choices=choices, traced=bool(bound)), check, seconds=30)
    n = sched.explore(lambda: make(sc), judged, bound, H.SIM_FILES, shard, nshards)
    rec.trace(n)
    return n


def verdict(s, v):
    if isinstance(v, sched.Stuck):
        raise Violation(v.kind, v.msg)
    for name, e in s.deaths:
        if not name.startswith('client') and name != 'main':
            raise Violation('thread-death', f'{name} ended with {type(e).__name__}: {e}')
    if isinstance(v, Exception):
        raise v


def run_job(job, rec):
    if 'script' in job:
        for case in serverscript.space(job['script']):
            rec.run(dict(script=case), serverscript.check, case)
            rec.case('script')
            rec.state(case)
            rec.trace()
        return
    if 'sc' in job:
        n = explore(job['sc'], rec, job['bound'], job['shard'], job['of'])
        rec.count(f"schedules with at most {job['bound']} deviations", n)
    else:
        for i, sc in enumerate(itertools.chain(scenarios0(job['tier']), scenarios_mixed(job['tier']), scenarios_sources(job['tier']))):
            if i % job['of'] == job['part']:
                explore(sc, rec, 0)
                rec.count('operation sequences with the default schedule')


def replay(case, rec):
    if 'script' in case:
        serverscript.check(case['script'])
        return
    s, v = sched.run_schedule(lambda: make(case['sc']), tuple(case['choices']), H.SIM_FILES if case['traced'] else ())
    verdict(s, v)
