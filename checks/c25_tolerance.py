"""C25: Monte Carlo and sensitivity analyses."""
import itertools

from mc.core import Violation
from mc import toolkit as K

PROPERTY = 'C25'
LEVEL = 'model_checking'
RULE = ('Monte Carlo (LTspice and QSPICE functions) and quick sensitivity on C24\'s bench circuit: every combination of tolerances and '
        'min/max deviations, uniform and normal, on kinds, components, parameters (0 and not-a-number included) x the random source '
        'enumerated at its extremes and centre, constant and alternating, x run counts; every batch size of testbenches; every history of up to '
        '3 (thorough 4) operations of {analysis, prepare, testbench, save, reset_netlist, value, parameter, model, instruction, '
        'measurement, clear data}, and with testbenches prepared again after other tolerances or instructions were given; every position of failed simulations. Circuits given to the (stand-in) simulator are parsed and '
        'evaluated, for every step, by a separate evaluator. States: distinct cases (tolerances, circuit, history).')
ASSUMPTIONS = ['values printed with %g: bounds compare within 2e-5', 'normal draws are enumerated within +/-3 sigma (the documented meaning of a tolerance '
               'for that distribution)', 'a Monte Carlo testbench of N simulates the nominal and the runs 0..N',
               'the random source is the module random of Python, the functions mc/flat/gauss/random of the simulators']


def expect(cond, key, msg):
    if not cond:
        raise Violation(key, msg)


def build(cls, spec, runner, *form):
    if cls == 'mc':
        from spicelib.sim.tookit.montecarlo import Montecarlo as C
    else:
        from spicelib.sim.tookit.quick_sensitivity_analysis import QuickSensitivityAnalysis as C
    an = C(K.editor(*form), runner)
    K.apply_spec(an, spec)
    return an


def check_mc(rows, circuits, exp, devs, runs, what, seen=None):
    nominal = exp.nominal()
    expect([r[0] for r in rows] == runs, 'runs', f'{[r[0] for r in rows]}, expected {runs}; {what}')
    for (run, vec, _), c in zip(rows, circuits):
        K.check_rest(expect, c, vec, exp, devs, f'run {run}; {what}')
        for n, (lo, hi, s) in devs.items():
            if run == -1:
                expect(K.close(vec[n], nominal[n], 1e-9), 'nominal', f'{n} is {vec[n]!r} in the nominal circuit, {nominal[n]!r} given; {what}')
                continue
            slack = 2e-5 * max(abs(lo), abs(hi))
            expect(isinstance(vec[n], float) and lo - slack <= vec[n] <= hi + slack, 'bounds', f'{n} is {vec[n]!r}, its limits are {lo}, {hi} ({s}); {what}')
            if seen is not None:
                seen.setdefault(n, set()).add(vec[n])


def check_one_at_a_time(an, rows, circuits, exp, devs, results, what):
    nominal = exp.nominal()
    n = len(devs)
    expect([r[0] for r in rows] == list(range(-1, n)), 'runs', f'{[r[0] for r in rows]}, {n} elements; {what}')
    moved = {}
    for (run, vec, vals), c in zip(rows, circuits):
        K.check_rest(expect, c, vec, exp, devs, f'run {run}; {what}')
        off = [e for e in devs if not K.close(vec[e], nominal[e], 1e-9)]
        if run == -1:
            expect(not off, 'nominal', f'{off} deviated in the nominal circuit; {what}')
            base = vals
            continue
        expect(len(off) == 1 and off[0] not in moved, 'one element at a time', f'run {run} deviates {off}, before {sorted(moved)}; {what}')
        lo, hi, _ = devs[off[0]]
        v = vec[off[0]]
        expect(K.close(v, lo) or K.close(v, hi), 'bounds', f'{off[0]} is {v!r}, its limits are {lo}, {hi}; {what}')
        moved[off[0]] = abs(vals['out'] - base['out']) if results else 0
    if not results:
        return
    total = sum(moved.values())
    got = an.get_sensitivity_data('*', 'out')
    expect(got is not None and set(got) == set(devs), 'sensitivity', f'{got}; elements {sorted(devs)}; {what}')
    for e, d in moved.items():
        want = 100 * d / total if total else 0
        for g in (got[e], an.get_sensitivity_data(e, 'out')):
            expect(abs(g - want) < 1e-6, 'sensitivity', f'{e}: {g}, from the simulations {want}; {what}')


INSTR = {'V': ['value', 'R1', '2k'], 'W': ['value', 'R3', '3k'], 'P': ['param', 'vos', '2m'], 'M': ['model', 'D1', 'DY'],
         'I': ['add', '.options gmin=1e-10'], 'D': ['rem', '.options gmin=1e-10'], 'J': ['add', '.meas tran extra FIND V(a) AT 1m'], 'X': ['xrem', r'\.meas .* FIND V\(a\)']}


def history(case):
    cls, sim, spec, meas, u, g, ops, *form = case
    runner = K.Runner(sim=sim, meas=meas, u=u, g=g)
    seen = {}
    exp = K.Expected()
    last = None
    what = f'{cls} {sim}, tolerances {spec}, draws {u} {g}, operations {ops} {form}'
    with K.Patched(runner.rand):
        an = build(cls, spec, runner, *form)
        for k, op in enumerate(ops):
            devs = K.deviations(spec, exp.texts())
            first = len(runner.launches)
            w = f'{what}, at {k}: {op}'
            try:
                if op[0] == 'A':
                    kw = {'num_runs': int(op[1:])} if cls == 'mc' else {}
                    an.run_analysis(switches=['-x'], timeout=7.0, exe_log=False, **kw)
                elif op[0] == 'T':
                    an.run_testbench(runs_per_sim=int(op[1:]), switches=['-x'], timeout=7.0, exe_log=False)
                elif op == 'S':
                    c = K.saved(an)
                elif op[0] == 'B':
                    if cls == 'mc':
                        last = int(op[1:]) if op[1:] else 1000
                        an.prepare_testbench(**({'num_runs': last} if op[1:] else {}))
                    else:
                        an.prepare_testbench(use_min=op[1:] == '-')
                elif op == 'Z':
                    an.reset_netlist()
                    exp.instr.clear()
                elif op == 'C':
                    an.clear_simulation_data()
                elif op == 'K' or op in K.NEW:
                    spec = K.retold(an, spec, op)
                    last = None if op == 'K' else last
                elif op == 'F':
                    an.configure_measurement('extra', 'FIND V(a) AT 1m')
                    exp.instr.append(INSTR['J'])
                else:
                    K.play(an, INSTR[op])
                    exp.instr.append(INSTR[op])
                if op == 'S':
                    rows = [(run, vec, None) for run, vec in c.vectors(runner.rand, sim)]
                    if cls == 'mc':
                        check_mc(rows, [c] * len(rows), exp, devs, list(range(-1, (last or 1000) + 1)), w, seen)
                    else:
                        check_one_at_a_time(an, rows, [c] * len(rows), exp, devs, False, w)
                elif op[0] in 'AT':
                    launches = runner.launches[first:]
                    rows = [r for launch in launches for r in launch]
                    circuits = [c for launch, c in zip(launches, runner.circuits[first:]) for _ in launch]
                    for kw in runner.kwargs[first:]:
                        expect(kw.get('switches') == ['-x'] and kw.get('timeout') == 7.0 and kw.get('exe_log') is False, 'run options', f'{kw}; {w}')
                    if op[0] == 'T' and len(rows) > 1:
                        per = int(op[1:])
                        expect(all(len(x) >= 1 for x in launches), 'batches', f'{[len(x) for x in launches]}; {w}')
                        expect(len(launches) <= -(-len(rows) // per), 'batches', f'{len(launches)} batches for {len(rows)} runs of {per}; {w}')
                        expect(per == 1 or all(len(x) > 1 for x in launches), 'run alone in its simulation', f'{[len(x) for x in launches]} runs of {per}; {w}')
                    if cls == 'mc':
                        if op[0] == 'A':
                            expect(len(launches) == int(op[1:]), 'number of simulations', f'{len(launches)}; {w}')
                            expect(all(len(x) == 1 for x in launches), 'one circuit per simulation', f'{[len(x) for x in launches]}; {w}')
                            runs = [r[0] for r in rows]
                        else:
                            runs = list(range(-1, (last or 1000) + 1))
                        check_mc(rows, circuits, exp, devs, runs, w, seen)
                        if sim == 'LTspice':
                            outs = [r[2]['out'] for r in rows]
                            if op[0] == 'A':
                                got = an.analyse_measurement('out')
                                expect(list(got) == outs, 'measurements', f'{got}, simulated {outs}; {w}')
                            logs = an.read_logfiles()
                            got = logs['out']
                            expect(list(got) == outs, 'measurements', f'{got}, simulated {outs}; {w}')
                            if op[0] == 'A':
                                expect(list(logs.stepset['run']) == list(range(len(outs))), 'run numbers', f'{logs.stepset}; {w}')
                            if op[0] == 'T':
                                expect(list(logs.stepset['run']) == runs, 'run numbers', f'{logs.stepset}; {w}')
                                for r in rows:
                                    v = logs.get_measure_value('out', run=r[0])
                                    expect(v == r[2]['out'], 'value of a run', f'run {r[0]}: {v!r}, simulated {r[2]["out"]!r}; {w}')
                    else:
                        check_one_at_a_time(an, rows, circuits, exp, devs, True, w)
            except K.Bad as e:
                raise Violation('bad circuit', f'{e}; {w}') from None
    return seen


def check_draws(case):
    """The random source at its extremes: the whole of each tolerance is used."""
    sim, spec, mode = case
    seen = {}
    devs = K.deviations(spec, K.Expected().texts())
    for x in (0, 1):
        got = history(['mc', sim, spec, 'cross', [x], [(-3, 3)[x]], mode])
        for n, v in got.items():
            expect(len(v) == 1, 'draw', f'{n}: {sorted(v)} for the same draw; {sim} {spec} {mode}')
            seen.setdefault(n, []).append(next(iter(v)))
    mid = history(['mc', sim, spec, 'cross', [.5], [0], mode])
    for n, (lo, hi, s) in devs.items():
        a, b = sorted(seen[n])
        slack = 2e-5 * max(abs(lo), abs(hi))
        expect(abs(a - lo) <= slack and abs(b - hi) <= slack, 'tolerance used', f'{n} goes from {a} to {b}, its limits are {lo}, {hi} ({s}); {sim} {mode}')
        m = next(iter(mid[n]))
        expect(abs(m - (lo + hi) / 2) <= slack, 'centre', f'{n} is {m} for a central draw, its limits are {lo}, {hi} ({s}); {sim} {mode}')


def check_failed(case):
    cls, spec, fail, nolog, n = case
    runner = K.Runner(meas='cross', fail=fail, nolog=nolog, u=[0, .5, 1, .25, .8])
    with K.Patched(runner.rand):
        an = build(cls, spec, runner)
        try:
            an.run_analysis(**({'num_runs': n} if cls == 'mc' else {}))
        except IndexError:
            if cls == 'mc':
                raise
            return
        good = [r[2]['out'] for k, r in enumerate(runner.all()) if k + 1 not in fail and k + 1 not in nolog]
        if cls == 'mc':
            got = an.analyse_measurement('out')
            expect([v for v in got if isinstance(v, float)] == good, 'measurements', f'{got}, the simulations without failures gave {good}')
        else:
            devs = K.deviations(spec, K.Expected().texts())
            rows = runner.all()
            nominal = K.Expected().nominal()
            outs = {}
            for k, r in enumerate(rows):
                e = next((e for e in devs if not K.close(r[1][e], nominal[e], 1e-9)), None)
                outs[e] = r[2]['out'] if k + 1 not in fail and k + 1 not in nolog else None
            try:
                got = an.get_sensitivity_data('*', 'out')
            except (IndexError, TypeError, ValueError):
                got = None     # refused: fine
            expect(got is None, 'sensitivity', f'{got} although simulations {fail} {nolog} failed ({outs})')


def check_callback(case):
    cls, spec, how = case
    runner = K.Runner()

    def cb(raw, log):
        return None
    with K.Patched(runner.rand):
        an = build(cls, spec, runner)
        if how == 'A':
            an.run_analysis(callback=cb, callback_args={'x': 1}, **({'num_runs': 5} if cls == 'mc' else {}))
            got = an.simulation_results['callback_returns']
        else:
            if cls == 'mc':
                an.prepare_testbench(num_runs=7)
            got = list(an.run_testbench(runs_per_sim=3, callback=cb, callback_args={'x': 1}))
    n = len(runner.launches)
    expect(got == list(range(1, n + 1)), 'callback returns', f'{got}, {n} simulations')
    if how == 'T' or cls == 'mc':
        logs = an.read_logfiles()
        outs = [r[2]['out'] for r in runner.all()]
        expect(list(logs['out']) == outs, 'callback', f'{list(logs["out"])}, simulated {outs}')
    expect(all(k.get('callback') is cb and k.get('callback_args') == {'x': 1} for k in runner.kwargs), 'callback given', f'{runner.kwargs}')


def specs(cls, tier):
    D = ('uniform', 'normal')
    out = []
    R = [[]] + [[['tol', 'R', t, d]] for t in (0.01, 1e-10, 0.1) for d in D if t != 1e-10 or d == 'uniform']
    R1 = [[]] + [[['tol', 'R1', t, d]] for t in (0.2, 0.0) for d in D] + [[['dev', 'R1', 900.0, 1200.0, d]] for d in D]
    C1 = [[]] + [[['dev', 'C1', 5e-7, 1.25e-6, d]] for d in D] + [[['tol', 'C', 0.05, 'normal']]]
    P = [[]] + [[['par', 'vos', 3e-4, 5e-3, d]] for d in D] + [[['par', 'rx', 4500.0, 5000.0]]]
    R3 = [[], [['tol', 'R3', 0.05]], [['dev', 'R3', 4000., 5000.]]]
    if cls == 'qs':
        keep = lambda o: [s for s in o if not any(x[-1] == 'normal' or x[2] == 1e-10 for x in s)]
        R, R1, C1, P = map(keep, (R, R1, C1, P))
        C1 = C1 + [[['tol', 'C', 0.05]]]
    more = [[[]]]
    if tier != 'quick':
        more = [[[], [['tol', 'V', 0.1]], [['tol', 'V', 0.1, 'normal'], ['tol', 'V1', 0.02]]], [[], [['tol', 'I', 0.3], ['dev', 'L1', 5e-3, 5e-2]]]]
    for parts in itertools.product(R, R1, C1, P, R3, *more):
        out.append([s for p in parts for s in p])
    nominal = {'R1': 1e3, 'V1': 10., 'vos': 1e-3, 'I1': 1e-3}
    for spec in K.limits():
        if cls == 'qs' and any(nominal[s[1]] in s[2:] for s in spec):
            continue     # the element may be deviated to the limit that is its nominal value
        out.append(spec)
        if cls == 'mc':
            out.append([[*s, 'normal'] for s in spec])
    return out


SMALL = [[['tol', 'R', 0.05], ['dev', 'C1', 5e-7, 1.25e-6]], [['tol', 'R1', 0.02, 'normal'], ['par', 'vos', 3e-4, 5e-3]],
         [['dev', 'R2', 2e3, 3e3, 'normal'], ['tol', 'V', 0.1], ['par', 'rx', 4500.0, 5000.0, 'normal']], []]
OPS = {'mc': ['A3', 'B4', 'T2', 'T512', 'S', 'Z', 'C', 'V', 'P', 'J', 'F', 'W', 'M', 'I', 'D'],
       'qs': ['A', 'B', 'B-', 'T2', 'T512', 'S', 'Z', 'C', 'V', 'P', 'J', 'F', 'W', 'M', 'I', 'D']}


def histories(cls, depth, ops):
    def grow(seq, prepared, instrs, known):
        if seq and (seq[-1][0] in 'ATS'):
            yield seq
        if len(seq) == depth:
            return
        for op in ops:
            if op[0] == 'B':
                if not prepared:
                    yield from grow(seq + [op], True, instrs, True)
            elif op in INSTR or op == 'F':
                if prepared or op in instrs or (op in 'FJ' and instrs & {'F', 'J'}):
                    continue
                yield from grow(seq + [op], prepared, instrs | {op}, known)
            elif op == 'Z':
                yield from grow(seq + [op], False, frozenset(), known)
            elif op == 'C':
                if seq and seq[-1] != 'C':
                    yield from grow(seq + [op], prepared, instrs, known)
            elif op[0] == 'A':
                yield from grow(seq + [op], False, instrs, known)
            elif cls == 'qs' or known:
                yield from grow(seq + [op], True, instrs, known)
    return grow([], False, frozenset(), False)


AGAIN = {'mc': ['A3', 'B4', 'T2', 'S', 'Z', 'N0', 'N1', 'K', 'B2', 'V', 'J', 'X'],
         'qs': ['A', 'B', 'T2', 'S', 'Z', 'N0', 'N1', 'K', 'B-', 'V', 'J', 'X']}


def jobs(tier):
    n = 24 if tier == 'quick' else 96
    out = [['draws', tier, sim, p, n] for p in range(n) for sim in ('LTspice', 'Qspice')] + [['qs', tier, p, n] for p in range(n)]
    for cls in ('mc', 'qs'):
        for s in range(len(SMALL)):
            out += [['hist', tier, cls, s, op] for op in OPS[cls]]
            out += [['again', tier, cls, s, op] for op in AGAIN[cls]]
            out += [['form', tier, cls, s, form, op] for form in K.FORMS for op in OPS[cls] if op != 'M' or form != 'asc']
            out += [['batch', tier, cls, s], ['fail', tier, cls, s]]
    return out


def run_job(job, rec):
    kind, tier = job[0], job[1]

    def go(name, fn, case, n=1):
        got = rec.run([name, case], fn, case)
        rec.case(len(got) if isinstance(got, dict) else got)
        rec.state([name, case])
        rec.step(n)
        rec.trace()

    if kind == 'draws':
        _, _, sim, part, n = job
        for k, spec in enumerate(specs('mc', tier)):
            if k % n != part:
                continue
            go('draws', check_draws, [sim, spec, ['A2']], 3)
            go('draws', check_draws, [sim, spec, ['B2', 'T3']], 3)
            if sim == 'LTspice' or tier != 'quick':
                for u, g in (([0, 1], [-3, 3]), ([1, .5, 0], [3, 0, -3])):
                    go('hist', history, ['mc', sim, spec, 'ratio', u, g, ['A5']])
                    go('hist', history, ['mc', sim, spec, 'ratio', u, g, ['B3', 'S']])
    elif kind == 'qs':
        _, _, part, n = job
        for k, spec in enumerate(specs('qs', tier)):
            if k % n != part:
                continue
            for meas in ('cross', 'ratio', 'flat'):
                go('hist', history, ['qs', 'LTspice', spec, meas, [.5], [0], ['A']])
                go('hist', history, ['qs', 'LTspice', spec, meas, [.5], [0], ['T64']])
                go('hist', history, ['qs', 'LTspice', spec, meas, [.5], [0], ['B-', 'T3', 'S']])
    elif kind == 'hist':
        _, _, cls, s, first = job
        for seq in histories(cls, 3 if tier == 'quick' else 4, OPS[cls]):
            if seq[0] == first:
                go('hist', history, [cls, 'LTspice', SMALL[s], ('up', 'cross')[s % 2], [1, 0, .5], [3, -3, 0], seq], len(seq))
        few = {'mc': ['A3', 'B4', 'T2', 'S', 'Z', 'V', 'J'], 'qs': ['A', 'B', 'T2', 'S', 'Z', 'V', 'J']}[cls]
        depth = 4 if tier == 'quick' else 5
        if first in few and (s in (0, 1) or tier != 'quick'):
            for seq in histories(cls, depth, few):
                if seq[0] == first and len(seq) == depth:
                    go('hist', history, [cls, 'LTspice', SMALL[s], 'cross', [1, 0, .5], [3, -3, 0], seq], len(seq))
        rec.sample({'analysis': cls, 'tolerances': SMALL[s], 'first operation': first})
    elif kind == 'again':
        _, _, cls, s, first = job
        for depth in (1, 2, 3) if s not in (0, 1) else (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
            for seq in K.histories_again(depth, first, AGAIN[cls] if depth < 4 else AGAIN[cls][:8], cls == 'qs'):
                go('hist', history, [cls, 'LTspice', SMALL[s], ('up', 'cross')[s % 2], [1, 0, .5], [3, -3, 0], seq], len(seq))
    elif kind == 'form':
        _, _, cls, s, form, first = job
        ops = [o for o in OPS[cls] if o != 'M' or form != 'asc']     # the model of a component of a schematic of LTspice is its symbol
        for seq in histories(cls, 2 if tier == 'quick' else 3, ops):
            if seq[0] == first:
                go('hist', history, [cls, 'LTspice', SMALL[s], ('up', 'cross')[s % 2], [1, 0, .5], [3, -3, 0], seq, form], len(seq))
    elif kind == 'batch':
        _, _, cls, s = job
        for N in ((1, 2, 3, 5, 8) if tier == 'quick' else range(1, 30)) if cls == 'mc' else (0,):
            for per in range(1, N + 6 if cls == 'mc' else 8):
                go('batch', history, [cls, 'LTspice', SMALL[s], 'cross', [1, 0, .5], [3, -3, 0],
                                      ([f'B{N}'] if cls == 'mc' else []) + [f'T{per}', 'S', f'T{per + 1}']], 3)
        for n in (1, 2, 7):
            if cls == 'mc':
                go('batch', history, [cls, 'LTspice', SMALL[s], 'cross', [1, 0, .5], [3, -3, 0], [f'A{n}', f'A{n + 1}']], 2)
        if cls == 'mc':
            go('batch', history, [cls, 'LTspice', SMALL[s], 'cross', [1, 0, .5], [3, -3, 0], ['S', 'T512']], 2)
            go('batch', history, [cls, 'Qspice', SMALL[s], 'cross', [1, 0, .5], [3, -3, 0], ['B', 'T100']], 2)
        for how in 'AT':
            go('callback', check_callback, [cls, SMALL[s], how])
    else:
        _, _, cls, s = job
        n = 6 if cls == 'mc' else len(K.deviations(SMALL[s], K.Expected().texts())) + 1
        for k in range(1, min(n, 3 if tier == 'quick' else 5)):
            for which in itertools.combinations(range(1, n + 1), k):
                for m in K.masks(k):
                    go('fail', check_failed, [cls, SMALL[s], [w for w, b in zip(which, m) if b], [w for w, b in zip(which, m) if not b], n])


def replay(case, rec):
    rec.case()
    rec.run(case, {'hist': history, 'batch': history, 'draws': check_draws, 'callback': check_callback, 'fail': check_failed}[case[0]], case[1])
