"""Shared machinery: job pool, recorder, evidence, replay artefacts, known findings.

A check is a module in /verif/checks with
    PROPERTY, LEVEL, RULE, ASSUMPTIONS
    jobs(tier)        -> list of JSON-able jobs (together they are the bounded space)
    run_job(job, rec) -> explores its share exhaustively, reporting to `rec`
    replay(case, rec) -> re-executes one recorded case (history / schedule / input)
"""
import hashlib
import json
import logging
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MAX_VIOLATIONS = 25


class Violation(Exception):
    """Raised by an oracle: the property does not hold on the current case."""

    def __init__(self, key, msg):
        super().__init__(f"{key}: {msg}")
        self.key = key
        self.msg = msg


class CaseTimeout(BaseException):
    """The code under test did not come back (BaseException: not swallowed by `except Exception`)."""


class TooMany(Exception):
    pass


def h64(obj) -> int:
    if not isinstance(obj, (str, bytes)):
        obj = json.dumps(obj, sort_keys=True, default=repr)
    if isinstance(obj, str):
        obj = obj.encode('utf-8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), 'big')


class Recorder:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.evaluations = 0
        self.traces = 0
        self.outcomes = Counter()
        self.samples = []
        self.violations = []
        self.vkeys = set()
        self.extra = Counter()
        self.maxima = {}

    # --- counting
    def state(self, obj) -> bool:
        """Registers a canonical state; True when it is new (in this worker job)."""
        h = h64(obj)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def case(self, outcome=None, n=1):
        self.evaluations += n
        if outcome is not None:
            self.outcomes[str(outcome)[:80]] += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] += n

    def maximum(self, name, v):
        self.maxima[name] = max(v, self.maxima.get(name, v))

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    # --- verdicts
    def violation(self, key, msg, case):
        if key in self.vkeys:
            return
        self.vkeys.add(key)
        self.violations.append({'key': key, 'msg': str(msg)[:2000], 'case': case})
        if len(self.violations) >= MAX_VIOLATIONS:
            raise TooMany()

    def guard(self, seconds=60):
        return Guard(seconds)

    def run(self, case, fn, *args, seconds=30):
        """Runs one case; an oracle failure, a hang, or an unexpected exception is a violation of the case."""
        try:
            with Guard(seconds):
                return fn(*args)
        except Violation as v:
            self.violation(v.key, v.msg, case)
        except CaseTimeout:
            self.violation('hang', f'no answer within {seconds} s', case)
            raise TooMany()   # the rest of the job would most likely hang as well
        except TooMany:
            raise
        except Exception as e:  # the code under test (or the harness) raised where the model does not
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb)
                          if f.filename.startswith(REPO)), 'harness')
            self.violation(f'exception:{type(e).__name__}:{where}',
                           ''.join(traceback.format_exception(e))[-1500:], case)
        return None

    def merge(self, other):
        self.states |= other['states']
        self.transitions += other['transitions']
        self.evaluations += other['evaluations']
        self.traces += other['traces']
        self.outcomes.update(other['outcomes'])
        self.extra.update(other['extra'])
        for k, v in other['maxima'].items():
            self.maximum(k, v)
        for s in other['samples']:
            self.sample(s, 6)
        for v in other['violations']:
            if v['key'] not in self.vkeys:
                self.vkeys.add(v['key'])
                self.violations.append(v)

    def export(self):
        return dict(states=self.states, transitions=self.transitions, evaluations=self.evaluations,
                    traces=self.traces, outcomes=self.outcomes, samples=self.samples,
                    violations=self.violations, extra=self.extra, maxima=self.maxima)


class Guard:
    """Wall-clock limit on one case (main thread of a worker process)."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(signum, frame):
            raise CaseTimeout()
        self.old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, self.seconds, 1.0)
        return self

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


SCRATCH = None


def scratch(name='') -> str:
    """A scratch directory of this process."""
    global SCRATCH
    if SCRATCH is None or not SCRATCH[0] == os.getpid():
        base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
        SCRATCH = (os.getpid(), tempfile.mkdtemp(prefix='w', dir=base))
    d = os.path.join(SCRATCH[1], name) if name else SCRATCH[1]
    os.makedirs(d, exist_ok=True)
    return d


def fresh_dir(name) -> str:
    d = os.path.join(scratch(), name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


_MOD = None


def _worker(job):
    rec = Recorder()
    t0 = time.time()
    cwd = os.getcwd()
    try:
        _MOD.run_job(job, rec)
    except TooMany:
        pass
    except BaseException as e:
        rec.violations.append({'key': 'harness-error', 'msg': ''.join(traceback.format_exception(e))[-3000:],
                               'case': {'job': job}})
    finally:
        os.chdir(cwd)
    out = rec.export()
    out['job_s'] = time.time() - t0
    return out


def load_known(prop):
    """known_findings.txt: 'finding: property=<id> key=<key> <text>' / 'fixed: property=<id> <commit> <text>'."""
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            if line.startswith('finding: '):
                f = line.split(None, 3)
                if f[1] == f'property={prop}' and f[2].startswith('key='):
                    known[f[2][4:]] = f[3].strip()
    return known


def setup_repo_import():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    logging.disable(logging.CRITICAL)
    # numpy & friends must not spin threads in each worker
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ.setdefault(v, '1')
    os.environ.setdefault('MPLBACKEND', 'Agg')


def main(argv):
    global _MOD
    import importlib
    prop = argv[1]
    tier = 'quick'
    replay = None
    for a in argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('--replay='):
            replay = os.path.abspath(a.split('=', 1)[1])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    root = tempfile.mkdtemp(prefix=f'verif-{prop}-', dir=('/dev/shm' if os.path.isdir('/dev/shm') and
                                                          os.access('/dev/shm', os.W_OK) else None))
    os.environ['VERIF_SCRATCH'] = root
    tempfile.tempdir = root
    sys.pycache_prefix = os.path.join(root, 'pyc')
    parent = os.getpid()
    try:
        os.chdir(scratch('cwd'))
        setup_repo_import()
        mods = [m[:-3] for m in os.listdir(os.path.join(VERIF, 'checks')) if m.lower().startswith(prop.lower() + '_')]
        _MOD = importlib.import_module('checks.' + mods[0])
        import spicelib
        where = os.path.dirname(os.path.abspath(spicelib.__file__))
        assert where == os.path.join(os.path.abspath(REPO), 'spicelib'), where
        rec = Recorder()
        if replay:
            art = json.load(open(replay))
            try:
                rec.run(art['case'], _MOD.replay, art['case'], rec, seconds=600)
            except TooMany:
                pass
            for v in rec.violations:
                print(f"REPRODUCED {v['key']}: {v['msg']}")
            return 1 if rec.violations else 0
        jobs = _MOD.jobs(tier)
        nproc = min(getattr(_MOD, 'NPROC', 8), os.cpu_count() or 1, max(1, len(jobs)))
        if nproc == 1:
            results = map(_worker, jobs)
            for r in results:
                rec.merge(r)
        else:
            ctx = multiprocessing.get_context('fork')
            with ctx.Pool(nproc, maxtasksperchild=getattr(_MOD, 'TASKS_PER_CHILD', None)) as pool:
                for r in pool.imap(_worker, jobs, chunksize=1):
                    rec.merge(r)
        if hasattr(_MOD, 'finish'):
            _MOD.finish(tier, rec)
        return report(prop, tier, seed, rec, time.time() - t0, len(jobs))
    finally:
        if os.getpid() == parent:
            os.chdir('/')
            shutil.rmtree(root, ignore_errors=True)


def report(prop, tier, seed, rec, wall, njobs):
    known = load_known(prop)
    bad, found = [], []
    for v in rec.violations:
        (found if v['key'] in known else bad).append(v)
    level = _MOD.LEVEL
    cov = {
        'evaluations': rec.evaluations,
        'jobs': njobs,
        'distinct_outcomes': len(rec.outcomes),
        'outcomes_top': dict(rec.outcomes.most_common(12)),
        'samples': rec.samples[:6] or ['none'],
        'rule': _MOD.RULE,
        'exhaustive': True,
    }
    if rec.extra:
        cov['counts'] = dict(rec.extra)
    if rec.maxima:
        cov['maxima'] = dict(rec.maxima)
    if level == 'model_checking':
        cov['states'] = len(rec.states)
        cov['transitions'] = rec.transitions
        cov['traces_validated_against_impl'] = rec.traces
    else:
        cov['distinct_nontrivial'] = len(rec.states)
        if rec.transitions:
            cov['transitions'] = rec.transitions
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': _MOD.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': len(bad)}
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evd, 'replays'), exist_ok=True)
    with open(os.path.join(evd, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write('\n')
    print(f"{prop} {tier}: evaluations={rec.evaluations} states={len(rec.states)} transitions={rec.transitions} "
          f"traces={rec.traces} outcomes={len(rec.outcomes)} jobs={njobs} wall={wall:.1f}s "
          f"{dict(rec.extra) if rec.extra else ''}{dict(rec.maxima) if rec.maxima else ''}")
    for v in found:
        print(f"KNOWN-FINDING: property={prop} key={v['key']} {known[v['key']]}")
    if not bad:
        return 0
    for n, v in enumerate(bad):
        path = os.path.join(evd, 'replays', f"{prop}-{n:02d}.json")
        with open(path, 'w') as f:
            json.dump({'property': prop, **v}, f, indent=1, default=repr)
            f.write('\n')
        print(f"--- {v['key']}\n{v['msg']}\n    case: {json.dumps(v['case'], default=repr)[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    return 1
