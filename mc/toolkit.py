"""Bench for the tolerance analyses: a runner that evaluates the circuits it is given, and an independent reader/evaluator of them."""
import itertools
import os
import random
import re

from mc.core import fresh_dir, scratch
from mc import logfile as L

COMPS = {'V1': '10', 'R1': '1k', 'R2': '2.2k', 'C1': '1u', 'I1': '1m', 'R3': '{rx}', 'R4': '47', 'L1': '10m'}
PARAMS = {'vos': '1m', 'rx': '4.7k'}
NET = """* tolerance bench
V1 in 0 10
R1 in a 1k
R2 a b 2.2k
C1 a 0 1u
I1 b 0 1m
R3 b 0 {rx}
R4 b 0 47
L1 b c 10m
D1 c 0 DX
.param vos=1m
.param rx=4.7k
.model DX D(Is=1e-14)
.tran 1m
.meas tran out FIND V(b) AT 1m
.end
"""
SUFFIX = [('meg', 1e6), ('k', 1e3), ('m', 1e-3), ('u', 1e-6), ('n', 1e-9), ('p', 1e-12)]


def num(text):
    """The value of a SPICE number, or None."""
    m = re.fullmatch(r'([-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?)(meg|[kmunp])?', text.strip().lower())
    return None if m is None else float(m.group(1)) * dict(SUFFIX).get(m.group(2), 1)


class Bad(Exception):
    """The circuit given to the simulator is not one it could run."""


class Rand:
    """The random source: uniform draws take the fractions of `u` in turn, gaussian ones the sigmas of `g`."""

    def __init__(self, u, g):
        self.u, self.g = list(u), list(g)
        self.nu = self.ng = 0

    def fraction(self):
        self.nu += 1
        return self.u[(self.nu - 1) % len(self.u)]

    def sigmas(self):
        self.ng += 1
        return self.g[(self.ng - 1) % len(self.g)]

    # what the code under test uses
    def random(self):
        return self.fraction()

    def uniform(self, a, b):
        return a + (b - a) * self.fraction()

    def gauss(self, mu=0.0, sigma=1.0):
        return mu + sigma * self.sigmas()

    normalvariate = gauss


class Patched:
    """The module `random`, with the source of the harness."""

    def __init__(self, src):
        self.src = src

    def __enter__(self):
        self.old = {n: getattr(random, n) for n in ('Random', 'random', 'uniform', 'gauss', 'normalvariate')}
        src = self.src
        random.Random = lambda *a, **k: src
        random.SystemRandom, self.sysr = (lambda *a, **k: src), random.SystemRandom
        for n in ('random', 'uniform', 'gauss', 'normalvariate'):
            setattr(random, n, getattr(src, n))

    def __exit__(self, *a):
        for n, v in self.old.items():
            setattr(random, n, v)
        random.SystemRandom = self.sysr


class Circuit:
    """A netlist as the simulator sees it."""

    def __init__(self, text):
        self.comps, self.params, self.funcs, self.steps, self.meas, self.other = {}, {}, {}, [], [], []
        lines = text.split('\n')[1:]
        for ln in lines:
            ln = ln.strip()
            if not ln or ln[0] == '*':
                continue
            low = ln.lower()
            if low == '.end':
                break
            if ln[0] != '.':
                f = ln.split(None, 3)
                if len(f) < 4 or f[0].upper() in self.comps:
                    raise Bad(f'component line {ln!r}')
                self.comps[f[0].upper()] = f[3].strip()
            elif low.startswith('.param '):
                for n, v in re.findall(r'(\w+)\s*=\s*(\{[^}]*\}|[^\s{}]+)', ln[7:]):
                    if n.lower() in self.params:
                        raise Bad(f'parameter {n} defined twice')
                    self.params[n.lower()] = v
            elif low.startswith('.func '):
                m = re.fullmatch(r'\.func\s+(\w+)\(([^)]*)\)\s*(.*)', low)
                if not m:
                    raise Bad(f'function {ln!r}')
                if m.group(1) in self.funcs and self.funcs[m.group(1)][2] != m.group(3):
                    raise Bad(f'function {m.group(1)} defined twice')
                self.funcs[m.group(1)] = ([a.strip() for a in m.group(2).split(',')], None, m.group(3))
            elif low.startswith('.step '):
                m = re.fullmatch(r'\.step\s+param\s+run\s+(-?\d+)\s+(-?\d+)\s+1', low)
                if not m or self.steps:
                    raise Bad(f'step {ln!r} after {self.steps}')
                a, b = int(m.group(1)), int(m.group(2))
                if b < a:
                    raise Bad(f'step {ln!r}')
                self.steps = list(range(a, b + 1))
            elif low.startswith('.meas'):
                f = ln.split(None, 3)
                if f[1].lower() == 'runm':   # .meas runm PARAM {run}
                    self.meas.append(('runm', ln.split(None, 3)[3]))
                else:
                    if any(f[2].lower() == m for m, _ in self.meas):
                        raise Bad(f'measurement {f[2]} twice')
                    self.meas.append((f[2].lower(), None))
                    self.other.append(' '.join(ln.split()))
            else:
                self.other.append(' '.join(ln.split()))

    def value(self, text, env, rand, sim):
        """Evaluates a value; None when it is not numeric (a model, an unknown name)."""
        n = num(text)
        if n is not None:
            return n
        t = text.strip()
        if t[:1] == '{' and t[-1:] == '}':
            return self.evaluate(t[1:-1], env, rand, sim)
        return None

    def compiled(self, expr):
        expr = expr.strip().lower()
        if expr[:1] == '{' and expr[-1:] == '}':
            expr = expr[1:-1]
        toks = re.findall(r'\d+\.?\d*(?:e[-+]?\d+)?(?:meg|[kmunp](?![a-z0-9_]))?|\.\d+(?:e[-+]?\d+)?|[a-z_]\w*|\*\*|[<>=!]=|[-+*/(),<>]|\s+|.', expr)
        out = []
        for t in toks:
            if t[0].isdigit() or (t[0] == '.' and len(t) > 1):
                out.append(repr(num(t)))
            elif t[0].isalpha() or t[0] == '_':
                out.append(f'_n_{t}')
            elif t.strip() and not re.fullmatch(r'\*\*|[<>=!]=|[-+*/(),<>]', t):
                raise Bad(f'expression {expr!r}')
            else:
                out.append(t)
        try:
            return compile(''.join(out).strip(), expr, 'eval')
        except SyntaxError:
            raise Bad(f'expression {expr!r}') from None

    def evaluate(self, expr, env, rand, sim):
        cache = self.__dict__.setdefault('_code', {})
        if expr not in cache:
            cache[expr] = self.compiled(expr)
        circuit = self

        class Names(dict):
            def __missing__(self, key):
                name = key[3:]
                if name in env:
                    return env[name]
                if name in circuit.funcs:
                    args, _, body = circuit.funcs[name]

                    def call(*given):
                        if len(given) != len(args):
                            raise Bad(f'{name}{given}')
                        return circuit.evaluate(body, {**env, **dict(zip(args, given))}, rand, sim)
                    return call
                if name in circuit.params:
                    v = circuit.value(circuit.params[name], env, rand, sim)
                    if v is None:
                        raise Bad(f'parameter {name}')
                    return v
                std = {'if': lambda c, a, b: a if c else b, 'floor': lambda x: x // 1, 'abs': abs}
                if sim == 'LTspice':
                    std.update(mc=lambda x, y: x * (1 + y * (2 * rand.fraction() - 1)), flat=lambda x: x * (2 * rand.fraction() - 1),
                               gauss=lambda s: s * rand.sigmas())
                else:
                    std.update(random=rand.fraction, gauss=lambda s: s * rand.sigmas())
                if name not in std:
                    raise Bad(f'unknown name {name}')
                return std[name]
        try:
            return eval(cache[expr], {'__builtins__': {}}, Names())
        except (TypeError, ZeroDivisionError, SyntaxError) as e:
            raise Bad(f'expression {expr!r}: {e}') from None

    def vectors(self, rand=None, sim='LTspice'):
        """[(run number or None, {element: value or text})], in the order simulated."""
        rand = rand or Rand([0.5], [0])
        out = []
        base = self.value(self.params['run'], {}, rand, sim) if 'run' in self.params else None
        for run in self.steps or [base]:
            env = {} if run is None else {'run': float(run)}
            vec = {}
            for n, t in self.params.items():   # one value per step, wherever the parameter is used
                if n != 'run':
                    v = self.value(t, env, rand, sim)
                    vec[n] = t if v is None else v
                    if v is not None:
                        env[n] = v
            for n, t in self.comps.items():
                v = self.value(t, env, rand, sim)
                vec[n] = t if v is None else v
            out.append((None if run is None else int(run), vec))
        return out


ELEMENTS = ['V1', 'R1', 'R2', 'C1', 'I1', 'vos', 'L1', 'R4']
NOMINAL = {'V1': 10., 'R1': 1e3, 'R2': 2.2e3, 'C1': 1e-6, 'I1': 1e-3, 'R4': 47., 'L1': 1e-2, 'vos': 1e-3}
WEIGHT = {'V1': 1.0, 'R1': 2.0, 'R2': 0.5, 'C1': 3.0, 'I1': 0.25, 'R4': 0.7, 'L1': 1.3, 'vos': 0.11}


def measure(name, vec):
    """The circuit: what `out` measures."""
    d = {e: (vec[e] / NOMINAL[e] - 1) * WEIGHT[e] for e in ELEMENTS}
    if name == 'up':
        return 5 + sum(d.values())
    if name == 'down':
        return 5 - sum(d.values())
    if name.startswith('sign'):
        mask = int(name[4:])
        return 5 + sum(v * (1 if mask >> i & 1 else -1) for i, v in enumerate(d.values()))
    if name == 'ratio':
        return (1 + d['R1']) * (1 + d['V1']) / ((1 + d['R2']) * (1 + d['C1']))
    if name == 'cross':
        return 5 + d['R1'] * d['R2'] * 50 + d['C1'] + d['vos'] * d['R1'] * 20
    if name == 'square':
        return 3 - sum((v - 0.004) ** 2 for v in d.values()) * 10
    if name == 'flat':
        return 2.0
    raise KeyError(name)


class Task:
    def __init__(self, simulator, netlist, log, retcode, ret):
        self.simulator, self.netlist_file, self.log_file, self.retcode, self.ret = simulator, netlist, log, retcode, ret
        self.raw_file = None

    def get_results(self):
        return self.ret

    def wait_results(self):
        return self.ret


class Runner:
    """An AnyRunner: it evaluates the circuits it is given and writes their logs."""

    def __init__(self, sim='LTspice', meas='up', u=(0.5,), g=(0,), fail=(), nolog=()):
        from spicelib.simulators.ltspice_simulator import LTspice
        from spicelib.simulators.qspice_simulator import Qspice
        self.simulator = {'LTspice': LTspice, 'Qspice': Qspice}[sim]
        self.sim, self.meas, self.rand = sim, meas, Rand(u, g)
        self.fail, self.nolog = set(fail), set(nolog)
        self.dir = fresh_dir('tk')
        self.no = 0
        self.launches = []       # one list of (run, vector, values of the measurements) per launch
        self.circuits = []
        self.kwargs = []
        self.pending = []

    def run(self, netlist, **kw):
        self.no += 1
        c, path = written(netlist.save_netlist, self.dir, f'r_{self.no}', netlist)
        vecs = c.vectors(self.rand, self.sim)
        rows = []
        for run, vec in vecs:
            vals = {}
            for m, expr in c.meas:
                if m == 'runm':
                    vals[m] = c.evaluate(expr, {'run': float(run)} if run is not None else {}, self.rand, self.sim)
                elif m == 'out':
                    vals[m] = measure(self.meas, vec)
                else:
                    vals[m] = float(len(m))
            rows.append((run, vec, vals))
        self.launches.append(rows)
        self.circuits.append(c)
        self.kwargs.append(kw)
        log = os.path.join(self.dir, f'r_{self.no}.log')
        bad = self.no in self.fail
        if self.no in self.nolog:
            return Task(self.simulator, path, log, 1, None)
        if self.sim == 'LTspice':
            model = {'style': 'old', 'steps': [[['run', repr(r[0])]] for r in rows] if c.steps else [],
                     'meas': [{'name': m, 'kind': 'expr', 'rows': ['FAIL' if bad and m != 'runm' else [repr(float(r[2][m]))] for r in rows]}
                              for m, _ in c.meas]}
            self.pending.append((log, '\n'.join(L.lines(model)) + '\n'))
        return Task(self.simulator, path, log, 0, self.no)

    def wait_completion(self, *a, **k):
        for log, text in self.pending:   # a simulation ends no sooner than it is waited for
            with open(log, 'w', encoding='utf-8') as f:
                f.write(text)
        self.pending.clear()
        return True

    def cleanup_files(self):
        pass

    # --- what was simulated
    def all(self):
        return [r for launch in self.launches for r in launch]


def source(name='bench.net', text=NET):
    path = os.path.join(scratch('tksrc'), name)
    if not os.path.exists(path):
        with open(path, 'w', encoding='utf-8') as f:
            f.write(text)
    return path


def saved(analysis, name='saved'):
    return written(analysis.save_netlist, scratch('tksrc'), name, analysis.editor)[0]


def written(save, folder, name, editor):
    """The circuit of the file that `save` writes, and the file."""
    asc = type(editor).__name__ == 'AscEditor'
    path = os.path.join(folder, name + ('.asc' if asc else '.net'))
    save(path)
    with open(path, encoding='utf-8') as f:
        text = f.read()
    return Circuit(asc_netlist(text) if asc else text), path


def asc_netlist(text):
    """The netlist of a schematic without wires."""
    comps, out = [], []
    for ln in text.split('\n'):
        k, _, rest = ln.partition(' ')
        if k == 'SYMBOL':
            comps.append({})
        elif k == 'SYMATTR':
            n, _, v = rest.partition(' ')
            if n in comps[-1]:
                raise Bad(f'attribute {n} twice in {comps[-1]}')
            comps[-1][n] = v
        elif k == 'TEXT':
            m = re.fullmatch(r'-?\d+ -?\d+ \w+ \d+ ([!;])(.*)', rest)
            if not m:
                raise Bad(f'text {ln!r}')
            if m.group(1) == '!':
                out += m.group(2).split('\\n')
    return '\n'.join(['* schematic'] + [f"{c['InstName']} a b {c['Value']}" for c in comps] + out)


FORMS = ('file', 'asc', 'qsch')


def editor(form='net'):
    """The circuit given to the analysis: an editor of a netlist or of a schematic, or the name of its file."""
    import logging
    logging.getLogger('spicelib').setLevel(logging.CRITICAL)
    if form in ('net', 'file'):
        from spicelib.editor.spice_editor import SpiceEditor
        return SpiceEditor(source()) if form == 'net' else source()
    dirs = [ln for ln in NET.split('\n')[1:] if ln[:1] == '.' and ln != '.end']
    if form == 'asc':
        from spicelib import AscEditor
        text = 'Version 4\nSHEET 1 880 680\n' + ''.join(f'SYMBOL part {96 * i} 0 R0\nSYMATTR InstName {n}\nSYMATTR Value {v}\n' for i, (n, v) in enumerate(dict(COMPS, D1='DX').items()))
        text += ''.join(f'TEXT 0 {96 + 32 * i} Left 2 !{d}\n' for i, d in enumerate(dirs))
        source('part.asy', 'Version 4\nSymbolType CELL\nLINE Normal 0 0 0 16\nPIN 0 0 NONE 0\nPINATTR PinName A\nPINATTR SpiceOrder 1\nPIN 0 16 NONE 0\nPINATTR PinName B\nPINATTR SpiceOrder 2\n')
        return AscEditor(source('bench.asc', text))
    from spicelib.editor.qsch_editor import QschEditor
    from . import qschdoc as Q
    text = Q.schematic(*(Q.comp(n[0], n, v, 1000 * i, 300, typ=n[0], pins=Q.TWO) for i, (n, v) in enumerate(dict(COMPS, D1='DX').items())),
                       *(Q.txt(Q.Q + d, -750 - 100 * i) for i, d in enumerate(dirs)))
    path = source('bench.qsch', '')
    with open(path, 'w', encoding='cp1252', newline='') as f:
        f.write(text)
    return QschEditor(path)


# --- tolerances: what the user said and what it means

def deviations(spec, nominal):
    """{element: (low, high)} for the tolerances `spec` on a circuit whose numeric values are `nominal`.
    spec: list of ['tol', ref or kind, t(, dist)] / ['dev', ref, lo, hi(, dist)] / ['par', name, lo, hi(, dist)]; later ones override."""
    kind, own, par = {}, {}, {}
    for s in spec:
        if s[0] == 'tol':
            (kind if len(s[1]) == 1 else own)[s[1]] = s
        elif s[0] == 'dev':
            own[s[1]] = s
        else:
            par[s[1]] = s
    out = {}
    for ref, v in nominal.items():
        s = par.get(ref) if ref in PARAMS else own.get(ref, kind.get(ref[0]))
        if s is None or not isinstance(v, float):
            continue
        if s[0] == 'tol':
            lo, hi = sorted((v * (1 - s[2]), v * (1 + s[2])))
        else:
            lo, hi = s[2], s[3]
        if lo != hi:
            out[ref] = (lo, hi, s)
    return out


def limits():
    """Deviations with limits that are zero, negative, the nominal value, or that do not contain it."""
    for parts in itertools.product(((900., 1000.), (1000., 1200.), (1100., 1200.)), (None, (0., 10.), (-10., 10.)),
                                   (None, (1e-3, 5e-3), (-5e-3, 5e-3), (0., 1e-3)), (None, (0., 2e-3))):
        kinds = zip((('dev', 'R1'), ('dev', 'V1'), ('par', 'vos'), ('dev', 'I1')), parts)
        yield [[*k, *p] for k, p in kinds if p]


def apply_spec(an, spec):
    for s in spec:
        kw = {'distribution': s[-1]} if isinstance(s[-1], str) else {}
        a = s[1:-1] if kw else s[1:]
        {'tol': an.set_tolerance, 'dev': an.set_deviation, 'par': an.set_parameter_deviation}[s[0]](*a, **kw)


NEW = {'N0': [['tol', 'R1', 0.1], ['tol', 'C', 0.05]], 'N1': [['dev', 'R1', 950., 1100.], ['tol', 'R', 0.02]]}


def retold(an, spec, op):
    """The user gives other tolerances (N0, N1), or none (K); answers the tolerances in force."""
    if op == 'K':
        an.reset_tolerances()
        return []
    if op == 'N0':
        an.set_tolerances({s[1]: s[2] for s in NEW[op]})
    else:
        apply_spec(an, NEW[op])
    return [*spec, *NEW[op]]


def histories_again(depth, first, ops, known=True):
    """Sequences that end with something simulated or saved, in which testbenches are prepared again, with other tolerances and
    instructions given in between. What is given after a testbench was prepared counts from the next preparation, analysis or reset."""
    def grow(seq, state, known):
        if seq and seq[-1][0] in 'ATS' and len(seq) == depth:
            yield seq
        if len(seq) == depth:
            return
        for op in ops if seq else [first]:
            if op[0] == 'B':
                yield from grow(seq + [op], 'ready', True)
            elif op[0] == 'A' or op == 'Z':
                yield from grow(seq + [op], None, known)
            elif op == 'K':
                yield from grow(seq + [op], None, KNOWN)
            elif op[0] in 'TS':
                if state != 'stale' and known:
                    yield from grow(seq + [op], 'ready', known)
            elif op not in seq:
                yield from grow(seq + [op], 'stale' if state else None, known)
    KNOWN = known
    return grow([], None, known)


def close(a, b, tol=2e-5):
    return isinstance(a, float) and isinstance(b, float) and abs(a - b) <= tol * max(abs(a), abs(b), 1e-30)


class Expected:
    """The circuit the user means: the original with the instructions given."""

    def __init__(self):
        self.instr = []

    def circuit(self):
        comps, params = dict(COMPS, D1='DX'), dict(PARAMS)
        other = ['.model DX D(Is=1e-14)', '.tran 1m', '.meas tran out FIND V(b) AT 1m']
        for i in self.instr:
            if i[0] == 'value':
                comps[i[1]] = i[2]
            elif i[0] == 'param':
                params[i[1]] = i[2]
            elif i[0] == 'model':
                comps[i[1]] = i[2]
            elif i[0] == 'add':
                if i[1] not in other:
                    other.append(i[1])
            elif i[0] == 'rem':
                if i[1] in other:
                    other.remove(i[1])
            elif i[0] == 'xrem':
                other = [o for o in other if not re.match(i[1], o)]
        return comps, params, other

    def nominal(self):
        comps, params, _ = self.circuit()
        val = {n: num(t) for n, t in {**comps, **params}.items()}
        for n, t in comps.items():
            if val[n] is None:
                p = t.strip('{}')
                val[n] = val[p] if t[:1] == '{' and p in params else t
        return val

    def texts(self):
        """Components and parameters that are numbers themselves (a tolerance applies to those only)."""
        comps, params, _ = self.circuit()
        return {n: num(t) for n, t in {**comps, **params}.items() if num(t) is not None}


def play(an, i):
    if i[0] == 'value':
        an.set_component_value(i[1], i[2])
    elif i[0] == 'param':
        an.set_parameter(i[1], i[2])
    elif i[0] == 'model':
        an.set_element_model(i[1], i[2])
    elif i[0] == 'add':
        an.add_instruction(i[1])
    elif i[0] == 'rem':
        an.remove_instruction(i[1])
    elif i[0] == 'xrem':
        an.remove_Xinstruction(i[1])
    elif i[0] == 'meas':
        an.configure_measurement(i[1], i[2])


def check_rest(expect, circuit, vec, exp, devs, what):
    """Everything without a tolerance is as the user left it."""
    nominal = exp.nominal()
    comps, params, other = exp.circuit()
    expect(set(vec) == set(nominal), 'elements', f'{sorted(set(vec) ^ set(nominal))}; {what}')
    for n, v in vec.items():
        if n in devs:
            continue
        w = nominal[n]
        if comps.get(n) == '{rx}' and 'rx' in devs:
            w = vec['rx']
        ok = close(v, w, 1e-9) if isinstance(w, float) else v == w
        expect(ok, 'untouched element', f'{n} is {v!r}, in the circuit {w!r}; {what}')
    expect(sorted(circuit.other) == sorted(other), 'other directives', f'{sorted(circuit.other)}, expected {sorted(other)}; {what}')


def masks(n):
    return itertools.product((0, 1), repeat=n)
