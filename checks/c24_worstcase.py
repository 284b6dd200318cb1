"""C24: worst-case analyses."""
import itertools
import os

from mc.core import Violation
from mc import toolkit as K

PROPERTY = 'C24'
LEVEL = 'model_checking'
RULE = ('Worst-case analysis on a bench circuit (2 toleranced resistors and a third given by a parameter, C, L, I, V, two parameters, a diode): '
        'every combination of tolerances {none, two of the kind R} x {R1: none, own, 0, min/max} x {C: none, 10%} x {C1 own} x {V} x '
        '{parameter vos / rx} x {R3 own, not a number} (thorough: L, I, R4 too) as analysis, as testbench in batches of every size and as '
        'saved netlist; every history of up to 4 (thorough 5) operations of {analysis, testbench, save, prepare, reset_netlist, component '
        'value, parameter, model, add/remove instruction, measurement, clear data}, and with testbenches prepared again after other tolerances or '
        'instructions were given. Each circuit given to the (stand-in) simulator is '
        'parsed and evaluated, for every step, by a separate evaluator. Fast worst case: every tolerance combination x every direction '
        'of every element of a monotonic circuit, and non-monotonic ones. Failed simulations: every position. States: distinct cases (tolerances, circuit, history).')
ASSUMPTIONS = ['values printed with %g: corners compare within 2e-5', 'tolerances and instructions given after a testbench was prepared '
               'count from the next preparation, analysis or reset_netlist()', 'the nominal circuit counts as simulated for the extreme values',
               'a circuit without tolerances is simulated twice (nominal and its only combination)']


def expect(cond, key, msg):
    if not cond:
        raise Violation(key, msg)


def check_corners(rows, circuits, exp, devs, what):
    """The nominal and each corner once, numbered as documented."""
    nominal = exp.nominal()
    names = sorted(devs)
    runs = [r[0] for r in rows]
    expect(sorted(runs, key=lambda r: -9 if r is None else r) == list(range(-1, 2 ** len(names))), 'runs',
           f'run numbers {runs}, expected -1..{2 ** len(names) - 1}; {what}')
    corners = {}
    for (run, vec, _), c in zip(rows, circuits):
        K.check_rest(expect, c, vec, exp, devs, f'run {run}; {what}')
        if run == -1:
            for n in names:
                expect(K.close(vec[n], nominal[n], 1e-9), 'nominal', f'{n} is {vec[n]!r} in the nominal circuit, {nominal[n]!r} given; {what}')
            continue
        bits = []
        for n in names:
            lo, hi, s = devs[n]
            expect(K.close(vec[n], lo) or K.close(vec[n], hi), 'corner value', f'{n} is {vec[n]!r} in run {run}, its limits are {lo}, {hi}; {what}')
            bits.append(int(K.close(vec[n], hi)))
        expect(tuple(bits) not in corners.values(), 'corner repeated', f'{dict(zip(names, bits))} in run {run} and before; {what}')
        corners[run] = tuple(bits)
    n = len(names)
    expect(len(corners) == 2 ** n, 'corners', f'{len(corners)} of {2 ** n}; {what}')
    used = set()
    for i, name in enumerate(names):
        pos = [b for b in range(n) if all((run >> b & 1) == corners[run][i] for run in corners)]
        expect(pos, 'numbering', f'{name} is not at its maximum exactly where a bit of the run number is 1: {corners}; {what}')
        used.add(pos[0])
    return names


def check_results(an, rows, names, devs, logs, batch, what):
    outs = {r[0]: r[2]['out'] for r in rows}
    lo, hi = min(outs.values()), max(outs.values())
    if not batch:
        got = an.get_min_max_measure_value('out')
        expect(got is not None and tuple(got) == (lo, hi), 'extremes', f'{got}, simulated {lo}..{hi}; {what}')
    else:
        got = (logs.min_measure_value('out'), logs.max_measure_value('out'))
        expect(got == (lo, hi), 'extremes', f'{got}, simulated {lo}..{hi}; {what}')
    for run, v in outs.items():
        got = logs.get_measure_value('out', run=run)
        expect(got == v, 'value of a run', f'run {run}: {got!r}, simulated {v!r}; {what}')
    if not names:
        return
    diffs = {}
    for name in names:
        i = names.index(name)
        d = []
        corner = {r[0]: tuple(K.close(r[1][n], devs[n][1]) for n in names) for r in rows if r[0] >= 0}
        by = {c: outs[run] for run, c in corner.items()}
        for c, v in by.items():
            if not c[i]:
                d.append(abs(v - by[c[:i] + (True,) + c[i + 1:]]))
        m = sum(d) / len(d)
        diffs[name] = (m, (sum((x - m) ** 2 for x in d) / len(d)) ** .5)
    total = sum(m for m, _ in diffs.values())
    got = an.make_sensitivity_analysis('out', '*')
    expect(got is not None and sorted(got) == names, 'sensitivity', f'{got}; elements {names}; {what}')
    for n in names:
        want = tuple(100 * x / total if total else 0 for x in diffs[n])
        one = an.make_sensitivity_analysis('out', n)
        for g in (got[n], one):
            expect(abs(g[0] - want[0]) < 1e-6 and abs(g[1] - want[1]) < 1e-6, 'sensitivity', f'{n}: {g}, from the simulations {want}; {what}')


INSTR = {'V': ['value', 'R1', '2k'], 'W': ['value', 'R3', '3k'], 'P': ['param', 'vos', '2m'], 'M': ['model', 'D1', 'DY'],
         'I': ['add', '.options gmin=1e-10'], 'D': ['rem', '.options gmin=1e-10'], 'J': ['add', '.meas tran extra FIND V(a) AT 1m'], 'R': ['rem', '.tran 1m'], 'X': ['xrem', r'\.meas .* FIND V\(a\)']}


def history(case):
    """A sequence of operations on one analysis object."""
    spec, meas, ops, *form = case
    from spicelib.sim.tookit.worst_case import WorstCaseAnalysis
    runner = K.Runner(meas=meas)
    an = WorstCaseAnalysis(K.editor(*form), runner)
    K.apply_spec(an, spec)
    exp = K.Expected()
    prepared = False
    what = f'tolerances {spec}, operations {ops} {form}'
    for k, op in enumerate(ops):
        devs = K.deviations(spec, exp.texts())
        first = len(runner.launches)
        w = f'{what}, at {k}: {op}'
        try:
            if op == 'A':
                an.run_analysis(switches=['-x'], timeout=7.0, exe_log=False)
                prepared = False
            elif op[0] == 'T':
                an.run_testbench(runs_per_sim=int(op[1:]), switches=['-x'], timeout=7.0, exe_log=False)
                prepared = True
            elif op == 'S':
                c = K.saved(an)
                prepared = True
            elif op == 'B':
                an.prepare_testbench()
                prepared = True
            elif op == 'Z':
                an.reset_netlist()
                exp.instr.clear()
                prepared = False
            elif op == 'C':
                an.clear_simulation_data()
            elif op == 'K' or op in K.NEW:
                spec = K.retold(an, spec, op)
            elif op == 'F':
                an.configure_measurement('extra', 'FIND V(a) AT 1m')
                exp.instr.append(INSTR['J'])
            else:
                K.play(an, INSTR[op])
                exp.instr.append(INSTR[op])
            launches = runner.launches[first:]
            if op == 'S':
                rows = [(run, vec, None) for run, vec in c.vectors()]
                check_corners(rows, [c] * len(rows), exp, devs, w)
            elif op == 'A' or op[0] == 'T':
                rows = [r for launch in launches for r in launch]
                circuits = [c for launch, c in zip(launches, runner.circuits[first:]) for _ in launch]
                names = check_corners(rows, circuits, exp, devs, w)
                if op == 'A':
                    expect(all(len(x) == 1 for x in launches), 'one circuit per simulation', f'{[len(x) for x in launches]}; {w}')
                for kw in runner.kwargs[first:]:
                    expect(kw.get('switches') == ['-x'] and kw.get('timeout') == 7.0 and kw.get('exe_log') is False, 'run options', f'{kw}; {w}')
                logs = an.read_logfiles()
                check_results(an, rows, names, devs, logs, op[0] == 'T', w)
        except K.Bad as e:
            raise Violation('bad circuit', f'{e}; {w}') from None
    return prepared


def check_batches(case):
    spec, per = case
    history([spec, 'up', [f'T{per}']])


def check_callback(case):
    spec, how = case
    from spicelib.editor.spice_editor import SpiceEditor
    from spicelib.sim.tookit.worst_case import WorstCaseAnalysis
    runner = K.Runner()
    an = WorstCaseAnalysis(SpiceEditor(K.source()), runner)
    K.apply_spec(an, spec)

    def cb(raw, log):
        return None
    if how == 'A':
        an.run_analysis(callback=cb, callback_args={'x': 1})
        got = an.simulation_results['callback_returns']
    else:
        got = list(an.run_testbench(runs_per_sim=3, callback=cb, callback_args={'x': 1}))
    n = len(runner.launches)
    expect(got == list(range(1, n + 1)), 'callback returns', f'{got}, {n} simulations')
    logs = an.read_logfiles()
    for r in runner.all():
        expect(logs.get_measure_value('out', run=r[0]) == r[2]['out'], 'callback', f'run {r[0]}: {logs["out"]}')
    expect(all(k.get('callback') is cb and k.get('callback_args') == {'x': 1} for k in runner.kwargs), 'callback given', f'{runner.kwargs}')


def check_failed(case):
    """Simulations that fail: no wrong extremes."""
    spec, meas, fail, nolog = case
    from spicelib.editor.spice_editor import SpiceEditor
    from spicelib.sim.tookit.worst_case import WorstCaseAnalysis
    runner = K.Runner(meas=meas, fail=fail, nolog=nolog)
    an = WorstCaseAnalysis(SpiceEditor(K.source()), runner)
    K.apply_spec(an, spec)
    an.run_analysis()
    rows = runner.all()
    good = [r[2]['out'] for k, r in enumerate(rows) if k + 1 not in fail and k + 1 not in nolog]
    got = an.get_min_max_measure_value('out') if good else None
    expect(got is None or tuple(got) == (min(good), max(good)), 'extremes', f'{got} with failed simulations, the others give {good}')
    if not good:
        return
    logs = an.read_logfiles()
    for k, r in enumerate(rows):
        if k + 1 in nolog:
            continue
        got = logs.get_measure_value('out', run=r[0])
        if k + 1 in fail:
            expect(not isinstance(got, (int, float)), 'value of a run', f'run {r[0]} failed and has {got!r}')
        else:
            expect(got == r[2]['out'], 'value of a run', f'run {r[0]}: {got!r}, simulated {r[2]["out"]!r} (failed {fail}, no log {nolog})')


def check_fast(case):
    spec, meas, twice, *form = case
    from spicelib.sim.tookit.fast_worst_case import FastWorstCaseAnalysis
    runner = K.Runner(meas=meas)
    an = FastWorstCaseAnalysis(K.editor(*form), runner)
    K.apply_spec(an, spec)
    exp = K.Expected()
    if twice:
        for i in ('V', 'J'):
            K.play(an, INSTR[i])
            exp.instr.append(INSTR[i])
    what = f'tolerances {spec}, circuit {meas} {form}'
    for n in range(2 if twice else 1):
        first = len(runner.launches)
        devs = K.deviations(spec, exp.texts())
        nominal = exp.nominal()
        try:
            nom, vmin, max_comp, vmax, min_comp = an.run_analysis(measure='out')
        except K.Bad as e:
            raise Violation('bad circuit', f'{e}; {what}') from None
        rows = [r for launch in runner.launches[first:] for r in launch]
        for r, c in zip(rows, runner.circuits[first:]):
            K.check_rest(expect, c, r[1], exp, devs, what)
            for e, (lo, hi, _) in devs.items():
                expect(any(K.close(r[1][e], x) for x in (lo, hi, nominal[e])), 'corner value', f'{e} simulated at {r[1][e]!r}, limits {lo}, {hi}; {what}')
        at = {}
        for r in rows:
            at[tuple('lo' if K.close(r[1][e], devs[e][0]) else 'hi' if K.close(r[1][e], devs[e][1]) else 'nom' for e in sorted(devs))] = r[2]['out']
        base = dict(nominal)

        def value(setting):
            return K.measure(meas, {**base, **setting})
        expect(nom == value({}), 'nominal', f'{nom}, the nominal circuit gives {value({})}; {what}')
        names = sorted(devs)
        for label, comp, v in (('max', max_comp, vmax), ('min', min_comp, vmin)):
            expect(sorted(comp) == names, 'elements', f'{comp} for the {label}; {what}')
            for e in names:
                expect(any(K.close(float(comp[e]), x, 1e-9) for x in devs[e][:2]), 'corner value', f'{e}={comp[e]!r} for the {label}; {what}')
            key = tuple('lo' if K.close(float(comp[e]), devs[e][0]) else 'hi' for e in names)
            if names:
                expect(key in at, 'reported but not simulated', f'{dict(zip(names, key))} for the {label}; {what}')
                expect(v == at[key], label, f'{v} reported, its circuit gives {at[key]}; {what}')
                for i, e in enumerate(names):
                    other = key[:i] + (('hi' if key[i] == 'lo' else 'lo'),) + key[i + 1:]
                    expect(other in at, 'not validated', f'{e} at its other limit was not simulated for the {label}; {what}')
                    expect(at[other] <= v if label == 'max' else at[other] >= v, label, f'{v} reported as {label}, {e} at its other limit '
                           f'gives {at[other]}; {what}')
            else:
                expect(v == nom, label, f'{v} without tolerances; {what}')
        if meas in ('up', 'down', 'ratio') or meas.startswith('sign'):
            corners = [value({e: devs[e][b] for e, b in zip(names, m)}) for m in K.masks(len(names))]
            tol = 1e-9
            expect(abs(vmax - max(corners)) < tol and abs(vmin - min(corners)) < tol, 'extremes',
                   f'{vmin}..{vmax}, the corners give {min(corners)}..{max(corners)}; {what}')
    return len(rows)


def specs(tier):
    R = [[], [['tol', 'R', 0.01]], [['tol', 'R', 0.05]]]
    R1 = [[], [['tol', 'R1', 0.02]], [['tol', 'R1', 0.0]], [['dev', 'R1', 900.0, 1200.0]]]
    C = [[], [['tol', 'C', 0.1]]]
    C1 = [[], [['dev', 'C1', 5e-7, 1.25e-6]], [['tol', 'C1', 0.03]]]
    P = [[], [['par', 'vos', 3e-4, 5e-3]], [['par', 'rx', 4500.0, 5000.0]]]
    V = [[], [['tol', 'V', 0.1]]]
    R3 = [[], [['tol', 'R3', 0.05]]]
    more = [[[]]] if tier == 'quick' else [[[], [['tol', 'L', 0.2]]], [[], [['tol', 'I', 0.1]], [['tol', 'I1', 0.2], ['tol', 'I', 0.1]]]]
    for parts in itertools.product(R, R1, C, C1, P, V, R3, *more):
        yield [s for p in parts for s in p]
    yield from K.limits()


NSPEC = {'quick': 864 + 72, 'thorough': 864 * 6 + 72}
SMALL = [[], [['tol', 'R1', 0.02]], [['tol', 'R', 0.01], ['tol', 'R4', 0.0]], [['tol', 'R1', 0.05], ['par', 'vos', 3e-4, 5e-3]],
         [['dev', 'C1', 5e-7, 1.25e-6], ['tol', 'R3', 0.1], ['par', 'rx', 4500.0, 5000.0]],
         [['tol', 'C', 0.1], ['tol', 'V1', 0.2], ['dev', 'R1', 900.0, 1200.0]]]
OPS = ['A', 'T2', 'T512', 'S', 'B', 'Z', 'C', 'V', 'P', 'J', 'F', 'W', 'M', 'I', 'D', 'R']


def histories(depth, ops):
    """Every sequence that ends with something simulated or saved."""
    def grow(seq, prepared, instrs):
        if seq and seq[-1] in ('A', 'T2', 'T512', 'S'):
            yield seq
        if len(seq) == depth:
            return
        for op in ops:
            if op == 'B' and prepared:
                continue
            if op in INSTR or op == 'F':
                if prepared or op in instrs or (op in 'FJ' and instrs & {'F', 'J'}):
                    continue
                yield from grow(seq + [op], prepared, instrs | {op})
            elif op == 'Z':
                yield from grow(seq + [op], False, frozenset())
            elif op == 'C':
                if seq and seq[-1] != 'C':
                    yield from grow(seq + [op], prepared, instrs)
            else:
                yield from grow(seq + [op], {'A': False}.get(op, True), instrs)
    return grow([], False, frozenset())


AGAIN = ['A', 'T2', 'S', 'B', 'Z', 'N0', 'N1', 'K', 'V', 'J', 'X']


def jobs(tier):
    out = []
    nparts = 16 if tier == 'quick' else 64
    for part in range(nparts):
        out.append(['wc', tier, part, nparts])
        out.append(['fast', tier, part, nparts])
    for s in range(len(SMALL)):
        for first in OPS:
            out.append(['hist', tier, s, first])
        for first in AGAIN:
            out.append(['again', tier, s, first])
        for form in K.FORMS:
            out += [['form', tier, s, form, op] for op in OPS if op != 'M' or form != 'asc']
        out.append(['batch', tier, s])
        out.append(['fail', tier, s])
    return out


def run_job(job, rec):
    kind, tier = job[0], job[1]

    def go(name, fn, case, n=1):
        rec.case(rec.run([name, case], fn, case))
        rec.state([name, case])
        rec.step(n)
        rec.trace()

    if kind == 'wc':
        for k, spec in enumerate(specs(tier)):
            if k % job[3] != job[2]:
                continue
            n = len(K.deviations(spec, K.Expected().texts()))
            if tier == 'quick' and n > 5 and k % 4:
                go('hist', history, [spec, 'cross', ['S']])
                continue
            if n > 7 and k % 9:
                go('hist', history, [spec, 'cross', ['S', 'T64']], 2)
                continue
            rec.maximum('elements', n)
            go('hist', history, [spec, 'cross', ['A']])
            go('hist', history, [spec, 'ratio', ['S', 'T7']], 2)
        rec.sample({'tolerances': spec})
    elif kind == 'fast':
        for k, spec in enumerate(specs(tier)):
            if k % job[3] != job[2]:
                continue
            devs = K.deviations(spec, K.Expected().texts())
            if tier != 'quick' and len(devs) > 4 and k % 7:
                continue
            if tier == 'quick' and len(devs) > 4:
                continue
            idx = [i for i, e in enumerate(K.ELEMENTS) if e in devs]
            for m in K.masks(len(idx)):
                mask = sum(b << i for b, i in zip(m, idx))
                go('fast', check_fast, [spec, f'sign{mask}', False])
            for meas in ('ratio', 'cross', 'square', 'flat'):
                go('fast', check_fast, [spec, meas, meas in ('ratio', 'cross')])
    elif kind == 'hist':
        _, _, s, first = job
        depth = 3 if tier == 'quick' else 4
        for seq in histories(depth, OPS):
            if seq[0] == first:
                go('hist', history, [SMALL[s], ('up', 'cross')[s % 2], seq], len(seq))
        if tier == 'quick' and s in (1, 3):
            few = [o for o in ('A', 'T2', 'S', 'Z', 'V', 'J') if o != 'B']
            for seq in histories(4, few):
                if seq[0] == first and len(seq) == 4:
                    go('hist', history, [SMALL[s], 'cross', seq], len(seq))
        elif tier != 'quick' and s in (1, 3):
            for seq in histories(5, ['A', 'T2', 'S', 'Z', 'V', 'J', 'C']):
                if seq[0] == first and len(seq) == 5:
                    go('hist', history, [SMALL[s], 'cross', seq], len(seq))
    elif kind == 'again':
        _, _, s, first = job
        for depth in (1, 2, 3) if s not in (1, 3) else (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
            for seq in K.histories_again(depth, first, AGAIN if depth < 4 else AGAIN[:8]):
                go('hist', history, [SMALL[s], ('up', 'cross')[s % 2], seq], len(seq))
    elif kind == 'form':
        _, _, s, form, first = job
        ops = [o for o in OPS if o != 'M' or form != 'asc']     # the model of a component of a schematic of LTspice is its symbol
        for seq in histories(2 if tier == 'quick' else 3, ops):
            if seq[0] == first:
                go('hist', history, [SMALL[s], ('up', 'cross')[s % 2], seq, form], len(seq))
        if first == 'A':
            for meas in ('ratio', 'cross'):
                go('fast', check_fast, [SMALL[s], meas, True, form])
    elif kind == 'batch':
        spec = SMALL[job[2]]
        n = len(K.deviations(spec, K.Expected().texts()))
        for per in range(1, 2 ** n + 4):
            go('batch', check_batches, [spec, per])
        for how in 'AT':
            go('callback', check_callback, [spec, how])
    elif kind == 'fail':
        spec = SMALL[job[2]]
        n = 2 ** len(K.deviations(spec, K.Expected().texts())) + 1
        depth = 2 if tier == 'quick' else 3
        for k in range(1, min(depth, n) + 1):
            for which in itertools.combinations(range(1, n + 1), k):
                for m in K.masks(k):
                    go('fail', check_failed, [spec, 'cross', [w for w, b in zip(which, m) if b], [w for w, b in zip(which, m) if not b]])


def replay(case, rec):
    rec.case()
    rec.run(case, {'hist': history, 'fast': check_fast, 'batch': check_batches, 'callback': check_callback, 'fail': check_failed}[case[0]], case[1])
