"""C11: SimStepper launches the Cartesian product of its sweeps, once each, with the announced numbers."""
import csv
import io
import itertools
import os
import re
from collections import Counter
from fractions import Fraction as F

from mc import core
from mc.core import Violation
from checks.c09_eng import reference as num_ref

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = ('every plan of 0..3 sweeps over distinct targets (2 parameters, 2 component values, 1 model) x every iterable kind '
        '(list, tuple, range, generator, sweep, sweep_n, sweep_log, one shared sweep object) x size 0..3, x call-order variants '
        '(all variants for 0-1 sweeps, one per combination in rotation for more; fixed values set before, plan run twice, launches refused, filenamer, values set between runs). '
        'Non-trivial: distinct plans with at least 2 launches.')
ASSUMPTIONS = ['runner replaced by a recorder that saves the editor it is given at the moment of the launch',
               'values compared numerically through an independent engineering-notation reader']

NET = """* stepper test
R1 in out 1k
R2 out 0 2k
R10 out 0 5k
C1 out 0 1u
D1 out 0 DX
D2 out 0 DX
R4 out 0 4k
.options gone=1
.meas gone2 find v(out) at=1
.param pa=1 pb=2
.param pab=3
.op
.end
"""
BASE = {'R1': '1k', 'R2': '2k', 'R10': '5k', 'C1': '1u', 'D1': 'DX', 'D2': 'DX', 'R4': '4k', 'pa': '1', 'pb': '2', 'pab': '3'}
TARGETS = [('param', 'pa'), ('value', 'R1'), ('model', 'D1'), ('param', 'pb'), ('value', 'R2')]
NUMK = ['list', 'tuple', 'range', 'gen', 'sweep', 'sweep_n', 'sweep_log', 'shared', 'str']
SIZES = [0, 1, 2, 3]


def make_iterable(kind, n, shared):
    """-> (iterable to give to the stepper, list of its values)"""
    from spicelib.utils import sweep_iterators as si
    if kind == 'list':
        v = [10.5, 2200, 0.001, 7][:n]
        return list(v), v
    if kind == 'tuple':
        v = [3, 1, 2][:n]
        return tuple(v), v
    if kind == 'range':
        return range(4, 4 + n), list(range(4, 4 + n))
    if kind == 'gen':
        return (x * x for x in range(1, n + 1)), [x * x for x in range(1, n + 1)]
    if kind == 'sweep':
        if n == 0:
            return [], []
        return si.sweep(0.5, 0.5 + 0.25 * (n - 1), 0.25), [0.5 + 0.25 * i for i in range(n)]
    if kind == 'sweep_n':
        if n < 2:
            return [9] * n, [9] * n
        return si.sweep_n(1, n, n), list(range(1, n + 1))
    if kind == 'sweep_log':
        if n == 0:
            return [], []
        return si.sweep_log(10, 10.0 ** n, 10), [10.0 ** i for i in range(1, n + 1)]
    if kind == 'shared':
        return shared(n)
    if kind == 'str':
        v = ['1k', '2.2k', '47u'][:n]
        return list(v), v
    v = ['DA', 'DB', '1N4148'][:n]
    if kind == 'mlist':
        return v, v
    if kind == 'mgen':
        return (m for m in v), v
    raise KeyError(kind)


class Task:
    def __init__(self, runno, name):
        from pathlib import Path
        self.runno = runno
        self.netlist_file = Path(name)


class Recorder:
    def __init__(self, refuse=()):
        self.texts, self.kw, self.refuse = [], [], refuse
        self.runno = self.okSim = self.failSim = 0
        self.waits = 0

    def run(self, netlist, **kw):
        n = len(self.texts)
        s = io.StringIO()
        netlist.save_netlist(s)
        self.texts.append(s.getvalue())
        self.kw.append(kw)
        if n in self.refuse:
            return None
        self.runno += 1
        return Task(self.runno, f'n{self.runno}.net')

    def wait_completion(self, *a, **k):
        self.waits += 1
        return True


def read(text):
    out = {}
    for line in text.splitlines():
        t = line.split()
        if t and t[0][0] in 'RCD':
            out[t[0]] = t[3]
        elif t and t[0].lower() == '.param':
            for m in re.finditer(r'(\w+)\s*=\s*(\S+)', line):
                out[m.group(1)] = m.group(2)
    return out


def norm(v):
    if isinstance(v, (int, float)):
        return round(float(v), 9)
    r = num_ref(str(v))
    if isinstance(r, F) and not str(v).startswith('1N'):
        return round(float(r), 9)
    return str(v)


def canon(d):
    return tuple(sorted((k, norm(v)) for k, v in d.items()))


_EDIT = {}


def editor():
    from spicelib import SpiceEditor
    p = os.path.join(core.scratch(), 'stepper.net')
    if not os.path.exists(p):
        with open(p, 'w') as f:
            f.write(NET)
    return SpiceEditor(p, encoding='utf-8')


def run_plan(plan, variant):
    from spicelib.sim.sim_stepping import SimStepper
    runner = Recorder(refuse=(1, 2) if variant == 'refused' else ())
    st = SimStepper(editor(), runner)
    fixed, told, instr = dict(BASE), {}, ['.options gone=1', '.meas gone2 find v(out) at=1', '.op']
    if variant == 'fixed':
        st.set_component_value('C1', '4.7n')
        st.set_parameters(pab=12, pb=8)
        st.set_component_values(R10='3.3k', R2=99)
        st.set_element_model('D2', 'DQ')
        st.set_parameter('pa', 6)
        told = dict(C1='4.7n', pab=12, pb=8, R10='3.3k', R2=99, D2='DQ', pa=6)
        fixed.update(told)
        st.add_instruction('.options one=1')
        st.add_instructions('.options two=2', '.save V(out)')
        gone = [st.remove_instruction('.options gone=1'), st.remove_instruction('.options nothere'), st.remove_Xinstruction(r'\.meas.*'), st.remove_Xinstruction(r'\.wave.*')]
        if gone != [True, False, True, False]:
            raise Violation('instructions', f'removing answered {gone}')
        instr = ['.op', '.options one=1', '.options two=2', '.save V(out)']
    if variant == 'once':
        st.set_component_value('R4', 8)
        told = dict(R4=8)
        fixed.update(told)
    cache = {}

    def shared(n):
        from spicelib.utils.sweep_iterators import sweep
        if n == 0:
            return [], []
        if n not in cache:
            cache[n] = sweep(1, n, 1)
        return cache[n], list(range(1, n + 1))

    dims = []
    for (what, name), kind, n in plan:
        it, vals = make_iterable(kind, n, shared)
        getattr(st, {'param': 'add_param_sweep', 'value': 'add_value_sweep', 'model': 'add_model_sweep'}[what])(name, it)
        dims.append((name, vals))
    combos = [dict(zip([d[0] for d in dims], c)) for c in itertools.product(*[d[1] for d in dims])]
    announced = st.total_number_of_simulations()
    if announced != len(combos):
        raise Violation('announced', f'{announced} simulations announced, {len(combos)} combinations')
    kw = {}
    names = []
    if variant == 'args':
        def filenamer(**kws):
            names.append(dict(kws))
            return f'file{len(names)}.net'
        kw = dict(filenamer=filenamer, switches=['-a'], timeout=7.5, callback=len, callback_args=(1,), exe_log=True,
                  wait_completion=False)
    st.run_all(**kw)
    check_launches(runner, combos, fixed, 0)
    if runner.waits != (0 if variant == 'args' else 1):
        raise Violation('wait', f'{runner.waits} waits')
    if variant == 'args':
        for k in runner.kw:
            if (k.get('switches'), k.get('timeout'), k.get('callback'), k.get('callback_args'), k.get('exe_log')) != \
                    (['-a'], 7.5, len, (1,), True):
                raise Violation('run-arguments', repr(k))
        got = [k['run_filename'] for k in runner.kw]
        if got != [f'file{i + 1}.net' for i in range(len(combos))]:
            raise Violation('run-filename', repr(got))
        for i, kws in enumerate(names):
            if any(norm(read(runner.texts[i])[k]) != norm(v) for k, v in kws.items()):
                raise Violation('filenamer-values', f'{kws} for {runner.texts[i]}')
    check_info(st, runner, told)
    for t in runner.texts:
        got = [ln.strip() for ln in t.splitlines() if re.match(r'\.(options|save|meas|op|wave)', ln)]
        if sorted(got) != sorted(instr):
            raise Violation('instructions', f'{got}, expected {instr}')
    for kws in names:
        if [k for k in list(told) + [d[0] for d in dims] if k not in kws]:
            raise Violation('filenamer-values', f'{kws}, sweeps {dims}')
    if variant in ('twice', 'between'):
        first = len(runner.texts)
        if variant == 'between':
            st.set_component_value('C1', '33n')
            st.set_parameter('pab', 77)
            st.set_element_model('D2', 'DR')
            told = dict(C1='33n', pab=77, D2='DR')
            fixed.update(told)
        if st.total_number_of_simulations() != len(combos):
            raise Violation('announced', f'{st.total_number_of_simulations()} announced before the second run')
        st.run_all()
        check_launches(runner, combos, fixed, first)
        check_info(st, runner, told, first)
    # the export lists every simulation once with its values
    p = os.path.join(core.scratch(), 'steps.csv')
    st.export_step_info(p)
    with open(p, newline='') as f:
        rows = list(csv.DictReader(f, delimiter=';'))
    if len(rows) != len(st.sim_info):
        raise Violation('export', f'{len(rows)} rows for {len(st.sim_info)} simulations')
    for row in rows:
        info = st.sim_info[int(float(row.pop('runno')))]
        if {k: norm(v) for k, v in row.items() if v != '' or k in info} != {k: norm(v) for k, v in info.items()}:
            raise Violation('export', f'{row} instead of {info}')
    return len(combos)


def check_launches(runner, combos, fixed, start):
    want = Counter(canon({**fixed, **c}) for c in combos)
    got = Counter(canon(read(t)) for t in runner.texts[start:])
    if want != got:
        raise Violation('launches', f'missing {list((want - got).items())[:3]} unexpected {list((got - want).items())[:3]}')


def check_info(st, runner, told, start=0):
    """The record of each run; told: values set through the stepper before the launch number start."""
    accepted = [i for i in range(len(runner.texts)) if i not in runner.refuse]
    if sorted(st.sim_info) != list(range(1, len(accepted) + 1)):
        raise Violation('sim-info', f'runs {sorted(st.sim_info)} recorded, {len(accepted)} accepted')
    for runno, i in enumerate(accepted, 1):
        info = dict(st.sim_info[runno])
        if info.pop('netlist') != f'n{runno}.net':
            raise Violation('sim-info', f'{st.sim_info[runno]} for run {runno}')
        net = read(runner.texts[i])
        if i >= start and [k for k in told if k not in info]:
            raise Violation('sim-info', f'{told} were set, recorded {info}')
        for step in st.iter_list:
            if step.elem not in info:
                raise Violation('sim-info', f'{step.elem} not recorded: {info}')
        for k, v in info.items():
            if norm(net[k]) != norm(v):
                raise Violation('sim-info', f'run {runno}: {k} recorded as {v}, launched with {net[k]}')


VARIANTS = ['plain', 'twice', 'fixed', 'refused', 'args', 'between', 'once']


def kinds_of(t):
    return ['mlist', 'mgen'] if t[0] == 'model' else NUMK


def jobs(tier):
    js = [['d0']]
    js += [['d1', i] for i in range(len(TARGETS))]
    js += [['d2', i, j, tier] for i in range(len(TARGETS)) for j in range(len(TARGETS)) if i != j]
    js += [['d3', i, j, k, tier] for i, j, k in itertools.permutations(range(len(TARGETS)), 3)
           if tier != 'quick' or (i + 2 * j + k) % 3 == 0]
    return js


def do(rec, plan, variant):
    n = rec.run([plan, variant], run_plan, plan, variant, seconds=20)
    rec.case(f'{len(plan)} sweeps {n} launches {variant}')
    if n and n > 1:
        rec.state([plan, variant])


def run_job(job, rec):
    if job[0] == 'd0':
        for v in VARIANTS:
            do(rec, [], v)
    elif job[0] == 'd1':
        t = TARGETS[job[1]]
        for k in kinds_of(t):
            for n in SIZES:
                for v in VARIANTS:
                    do(rec, [[t, k, n]], v)
    elif job[0] == 'd2':
        a, b = TARGETS[job[1]], TARGETS[job[2]]
        for ka in kinds_of(a):
            for kb in kinds_of(b):
                for na in SIZES:
                    for nb in SIZES:
                        vs = VARIANTS if job[3] != 'quick' else [VARIANTS[(na + 2 * nb + len(ka) + 2 * len(kb) + job[1] + job[2]) % 7]]
                        for v in vs:
                            do(rec, [[a, ka, na], [b, kb, nb]], v)
        rec.sample([[a, ka, na], [b, kb, nb]])
    else:
        t = [TARGETS[i] for i in job[1:4]]
        q = job[4] == 'quick'
        ks = [['mgen'] if x[0] == 'model' else ['gen', 'shared'] if q else ['list', 'gen', 'shared', 'sweep'] for x in t]
        for kk in itertools.product(*ks):
            for nn in itertools.product([1, 2, 3] if q else SIZES, repeat=3):
                do(rec, [[x, k, n] for x, k, n in zip(t, kk, nn)], VARIANTS[(sum(nn) + nn[0] + job[1]) % 7])
        rec.sample([[x, k, n] for x, k, n in zip(t, kk, nn)])


def replay(case, rec):
    run_plan([[tuple(t), k, n] for t, k, n in case[0]], case[1])
