"""C22: measurements, steps, Fourier components and operating points of logs."""
import itertools
import os
import stat

from mc.core import Violation, scratch
from mc import logfile as L

PROPERTY = 'C22'
LEVEL = 'exploration'
RULE = ('LTspice logs: every steps layout {none, 1 variable x 1-3 steps, 2 variables x 2 or 4 steps} x every sequence of up to 2 '
        '(thorough 3) measurements of {interval, trig/targ, point, expression} x every pattern of {value, FAILed, not printed} per step, '
        'plus every value form x kind x position x header style x encoding x line ends, .mout files with and without the steps of '
        'their log, every selection by step variables of every table of up to 4 rows over two values (numbers, texts), Fourier blocks '
        '(up to 2 signals x steps x patterns), QSPICE logs with the same patterns, semiconductor operating points (all layouts of up to 3 '
        'sections x 1-5 devices x parameters). Every accessor is asked. Non-trivial: distinct log texts.')
ASSUMPTIONS = ['a failed measurement of a step is printed as FAIL\'ed, or not at all; the reader may report None, NaN or the text',
               'a measurement that failed on all steps may be absent',
               'logs are printed by the harness in the layouts of the examples and of the documentation; QPOST is replaced by a script']

NAMES = ['Vout_rms', 'gain', 'T3']


def pat_rows(kind, pattern, salt, cplx=False):
    """Rows of a measurement for a pattern of 'v' (value), 'F' (FAIL) and '-' (absent)."""
    rows = []
    for n, p in enumerate(pattern):
        if p == 'v':
            pool = L.COMPLEX if cplx else L.FLOATS
            v = pool[(salt + 3 * n) % len(pool)]
            extra = {'interval': [f'{n}', f'0.00{n + 1}'], 'trig': [f'1e-0{n + 1}', f'2e-0{n + 1}'], 'point': [f'0.0{n + 1}'], 'expr': []}[kind]
            rows.append([v, *extra])
        else:
            rows.append('FAIL' if p == 'F' else None)
    return rows


LAYOUTS = {'none': [], 'v1': [[['vin', '1']]], 'v2': [[['Vin', '1']], [['Vin', '-40']]],
           'v3': [[['freq', '10000']], [['freq', '12589.2541179417']], [['freq', '1e+06']]],
           'w2': [[['vin', '1'], ['R1', '1000']], [['vin', '10'], ['R1', '1000']]],
           'w4': [[['vin', '1'], ['r1', '1000']], [['vin', '10'], ['r1', '1000']], [['vin', '1'], ['r1', '1e+06']], [['vin', '10'], ['r1', '1e+06']]]}


def steps_model(log):
    out = {}
    for s in log['steps']:
        for v, t in s:
            out.setdefault(v.lower(), []).append(L.number(t))
    return out


def expect(cond, key, msg):
    if not cond:
        raise Violation(key, msg)


def verify_steps(data, log, what):
    st = steps_model(log)
    n = len(log['steps'])
    expect(data.step_count == n and data.has_steps() == (n > 0), 'step count', f'{data.step_count} steps, {n} printed; {what}')
    expect(data.get_step_vars() == list(st), 'step variables', f'{data.get_step_vars()}, printed {list(st)}; {what}')
    for v, want in st.items():
        for name in (v, v.upper()):
            got = data[name]
            expect(len(got) == n and all(L.same(g, w) for g, w in zip(got, want)), 'step values', f'{name}: {got}, printed {want}; {what}')


def verify(data, log, cols, what, nrows=None):
    verify_steps(data, log, what)
    n = nrows if nrows is not None else max(1, len(log['steps']))
    printed = {c for c, v in cols.items() if any(x is not None for x in v)}
    names = data.get_measure_names()
    expect(len(set(names)) == len(names), 'names', f'{names}; {what}')
    expect(printed <= set(names) and set(names) <= set(cols), 'names', f'{sorted(names)}, printed {sorted(printed)} (of {sorted(cols)}); {what}')
    st = steps_model(log)
    for c in sorted(names):
        want = cols[c]
        some = printed and c in printed
        if not some:
            continue
        for ask in (c, c.upper()):
            col = data[ask]
            expect(len(col) == n, 'rows', f'{c} has {len(col)} values for {n} steps: {col}; {what}')
            for k in range(n):
                expect(L.same(col[k], want[k]), 'value', f'{c} step {k + 1}: {col[k]!r}, printed {want[k]!r}; {what}')
                got = data.get_measure_value(ask, k)
                expect(L.same(got, want[k]), 'value', f'get_measure_value({ask}, {k}) {got!r}, printed {want[k]!r}; {what}')
                got = data.get_measure_values_at_steps(ask, k)
                expect(L.same(got, want[k]), 'value', f'get_measure_values_at_steps({ask}, {k}) {got!r}, printed {want[k]!r}; {what}')
            got = data.get_measure_values_at_steps(ask, None)
            expect(len(got) == n and all(L.same(g, w) for g, w in zip(got, want)), 'values', f'all {c}: {got}, printed {want}; {what}')
            for sel in ([], [n - 1], [n - 1, 0], range(n)):
                got = data.get_measure_values_at_steps(ask, sel)
                exp = [want[k] for k in sel]
                expect(len(got) == len(exp) and all(L.same(g, w) for g, w in zip(got, exp)), 'values', f'{c} at {list(sel)}: {got}, printed {exp}; {what}')
            got = data.get_measure_value(ask, slice(0, n, 2))
            exp = want[0:n:2]
            expect(len(got) == len(exp) and all(L.same(g, w) for g, w in zip(got, exp)), 'values', f'{c} slice: {got}, printed {exp}; {what}')
            if n == 1:
                expect(L.same(data.get_measure_value(ask), want[0]), 'value', f'{ask} alone: {data.get_measure_value(ask)}, printed {want[0]}; {what}')
            for k in range(n if st else 0):
                cond = {v: log['steps'][k][i][1] for i, v in enumerate(st)}
                hits = [j for j in range(n) if all(st[v][j] == st[v][k] for v in st)]
                if len(hits) == 1:
                    got = data.get_measure_value(ask, **cond)
                    expect(L.same(got, want[k]), 'conditions', f'{ask} at {cond}: {got!r}, printed {want[k]!r}; {what}')
        if all(isinstance(w, float) for w in want) and not any(abs(w) > 1e300 for w in want):
            expect(data.max_measure_value(c) == max(want) and data.min_measure_value(c) == min(want), 'extremes',
                   f'{c}: {data.max_measure_value(c)}, {data.min_measure_value(c)} of {want}; {what}')
            expect(abs(data.avg_measure_value(c) - sum(want) / n) <= 1e-9 * max(map(abs, want)), 'average', f'{c}: {data.avg_measure_value(c)} of {want}; {what}')
            for ask in (c, c.upper()):
                for sel in [[n - 1], list(range(n))[1:] or [0], (0, n - 1)] + list(range(n)):
                    some = [want[k] for k in ([sel] if isinstance(sel, int) else sel)]
                    expect(data.max_measure_value(ask, sel) == max(some), 'extremes', f'{ask} at {sel}; {what}')
                    expect(data.min_measure_value(ask, sel) == min(some), 'extremes', f'{ask} at {sel}; {what}')
                    expect(abs(data.avg_measure_value(ask, sel) - sum(some) / len(some)) <= 1e-9 * max(map(abs, want)), 'average', f'{ask} at {sel}; {what}')


def refuses(fn, what):
    try:
        got = fn()
    except (IndexError, KeyError):
        return
    if got is not None:
        raise Violation('unknown name', f'{what} gives {got!r}')


def check_lt(log):
    from spicelib.log.ltsteps import LTSpiceLogReader
    text = L.lines(log)
    path = L.write('a.log', text, log.get('enc', 'utf-8'), log.get('eol', '\n'))
    what = '\n'.join(text)
    data = LTSpiceLogReader(path)
    verify(data, log, L.columns(log), what)
    refuses(lambda: data['nothere'], 'an unknown name')
    refuses(lambda: data.get_measure_value('nothere', 0), 'an unknown measurement')
    verify_fourier(data, log, what)
    data = LTSpiceLogReader(path, read_measures=False)
    verify_steps(data, log, 'read_measures=False: ' + what)
    if log['steps']:
        expect(not data.get_measure_names(), 'not asked', f'read_measures=False: {data.get_measure_names()}; {what}')
    return f"{len(log['steps'])} steps, {len(data.fourier)} signals"


def verify_fourier(data, log, what):
    four = log.get('four', [])
    want = {}
    n = max(1, len(log['steps']))
    for f in four:
        for s in range(n):
            b = f['steps'][s] if s < len(f['steps']) else None
            if b is not None:
                want.setdefault(f['signal'], []).append((s, f, b))
    for blocks in want.values():
        blocks.sort(key=lambda b: b[0])     # printed step by step
    expect(set(data.fourier) == set(want), 'signals', f'{sorted(data.fourier)} != {sorted(want)}; {what}')
    for sig, blocks in want.items():
        got = data.fourier[sig]
        expect(len(got) == len(blocks), 'fourier', f'{sig}: {len(got)} analyses, {len(blocks)} printed; {what}')
        for g, (s, f, b) in zip(got, blocks):
            expect(g.step == s or not log['steps'], 'fourier step', f'{sig}: step {g.step}, printed for {s}; {what}')
            np_ = -1 if f['n'] == 'all' else float(f['n'])
            expect(g.signal == sig and g.n_periods == np_ and g.dc_component == float(b[0]), 'fourier', f'{g}; {what}')
            expect(g.thd == float(f['thd']), 'thd', f'{g}; {what}')
            expect((g.phd is None) if not f.get('phd') else g.phd == float(f['phd']), 'phd', f'{g}; {what}')
            expect(len(g) == len(b[1]) and g.fundamental == float(b[1][0][0]), 'harmonics', f'{g}; {what}')
            for k, (h, t) in enumerate(zip(g, b[1])):
                got_h = (h.harmonic_number, h.frequency, h.fourier_component, h.normalized_component, h.phase, h.normalized_phase)
                expect(got_h == (k + 1, *map(float, t)), 'harmonic', f'{got_h} != {t}; {what}')
                expect(g[k] == h, 'harmonic', f'{g[k]}; {what}')


def check_mout(case):
    from spicelib.log.ltsteps import LTSpiceLogReader
    log, how = case
    text = L.lines({**log, 'style': 'mout'})
    enc, eol = log.get('enc', 'utf-8'), log.get('eol', '\n')
    path = L.write('b.mout', text, enc, eol)
    what = '\n'.join(text)
    cols = L.columns(log)
    n = len(log['steps'])
    if how == 'steps':
        logpath = L.write('b.log', L.lines({**log, 'meas': []}), enc, eol)
        steps = LTSpiceLogReader(logpath, read_measures=False).stepset
        before = {k: list(v) for k, v in steps.items()}
        data = LTSpiceLogReader(path, step_set=steps)
        verify(data, log, cols, what)
        expect(steps == before, 'step set', f'changed to {steps}')
    else:
        data = LTSpiceLogReader(path)
        last = max([k + 1 for v in cols.values() for k, x in enumerate(v) if x is not None], default=0)
        verify(data, {**log, 'steps': []}, {c: v[:last] for c, v in cols.items()}, what, last)
    return how


def check_select(case):
    """Selections of rows by conditions on the step variables."""
    from spicelib.log.ltsteps import LTSpiceLogReader
    steps, how = case
    log = {'steps': steps, 'meas': [{'name': 'm', 'kind': 'expr', 'rows': [[str(k * 10)] for k in range(len(steps))]}]}
    data = LTSpiceLogReader(L.write('s.log', L.lines(log)))
    st = steps_model(log)
    n = len(steps)
    vals = sorted({t for s in steps for _, t in s}) + ['77']
    for v in st:
        for t in vals:
            ask = {'text': t, 'number': L.number(t)}[how]
            want = [k for k in range(n) if st[v][k] == L.number(t)]
            for name in (v, v.upper()):
                got = data.steps_with_parameter_equal_to(name, ask)
                expect(list(got) == want, 'selection', f'{name}={ask!r}: {got}, expected {want}; {steps}')
            got = data.steps_with_conditions(**{v: ask})
            expect(list(got) == want, 'selection', f'{v}={ask!r}: {got}, expected {want}; {steps}')
            for w in st:
                if w == v:
                    continue
                for u in vals:
                    ask2 = {'text': u, 'number': L.number(u)}[how]
                    both = [k for k in want if st[w][k] == L.number(u)]
                    got = data.steps_with_conditions(**{v: ask, w: ask2})
                    expect(list(got) == both, 'selection', f'{v}={ask!r}, {w}={ask2!r}: {got}, expected {both}; {steps}')
                    if len(both) == 1:
                        expect(data.get_measure_value('m', **{v: ask, w: ask2}) == both[0] * 10, 'selection', f'm at {v}={ask}, {w}={ask2}; {steps}')
                    else:
                        refuses(lambda: data.get_measure_value('m', **{v: ask, w: ask2}), f'm at {v}={ask}, {w}={ask2} ({len(both)} rows) of {steps}')
    got = data.steps_with_conditions()
    expect(list(got) == list(range(n)), 'selection', f'without conditions: {got}')
    for k in range(n):
        got = data.steps_with_parameter_equal_to('m', k * 10)
        expect(list(got) == [k], 'selection', f'measurement m={k * 10}: {got}')
    refuses(lambda: data.steps_with_parameter_equal_to('nothere', 1), 'an unknown variable')
    return f'{n} rows'


def check_qspice(case):
    from spicelib.log.qspice_log_reader import QspiceLogReader
    from spicelib.simulators.qspice_simulator import Qspice
    log, how = case
    a, b = L.qspice_lines(log)
    eol = log.get('eol', '\n')
    path = L.write('q.log', a, 'utf-8', eol)
    what = '\n'.join(a + b)
    if how == 'qpost':
        text = L.write('q.txt', b, 'utf-8', eol)
        exe = os.path.join(scratch('exe'), 'QPOST.exe')
        with open(exe, 'w') as f:
            f.write(f'#!/bin/sh\n[ "$2" = -o ] || exit 3\n[ "$1" = "{os.path.splitext(path)[0]}.{log["net"]}" ] || exit 4\ncp "{text}" "$3"\n')
        os.chmod(exe, 0o755)
        for ext in ('net', 'cir'):
            p = os.path.splitext(path)[0] + '.' + ext
            if os.path.exists(p):
                os.unlink(p)
            if ext == log['net']:
                open(p, 'w').close()
        old = Qspice.spice_exe
        Qspice.spice_exe = [os.path.join(scratch('exe'), 'QSPICE64.exe')]
        open(Qspice.spice_exe[0], 'w').close()
        try:
            data = QspiceLogReader(path)
        finally:
            Qspice.spice_exe = old
    else:
        data = QspiceLogReader(path, read_measures=False)
        expect(not data.get_measure_names(), 'not asked', f'{data.get_measure_names()}')
        mpath = L.write('q.meas', b, 'utf-8', eol)
        data.parse_meas_file(mpath)
        if how == 'twice':
            data.parse_meas_file(mpath)
    verify(data, log, L.qspice_columns(log), what)
    return how


OPSEC = ['Diodes', 'Bipolar Transistors', 'MOSFET Transistors']


def check_ops(case):
    from spicelib.log.semi_dev_op_reader import opLogReader
    sections, tail, enc, eol = case
    out = ['Circuit: * C:\\x.asc', '', 'Direct Newton iteration for .op point succeeded.', 'Semiconductor Device Operating Points:', '']
    want = {}
    for si, (chunks, nparams) in enumerate(sections):
        title = OPSEC[si]
        want[title.lower()] = {}
        out.append(f'                        --- {title} ---')
        dev = 0
        for width in chunks:
            names = [f'{"dqm"[si]}:x{dev + k}:{si}' for k in range(width)]
            dev += width
            out.append('Name:  ' + ''.join(f'{x:>16}' for x in names))
            out.append('Model: ' + ''.join(f'{"mod" + str(k):>16}' for k in range(width)))
            rows = {x: {'Model': f'mod{k}'} for k, x in enumerate(names)}
            for p in range(nparams):
                pname = ['Id', 'Vd', 'Gmb', 'CAP'][p]
                vals = [f'{"-" if (k + p) % 2 else ""}{p + 1}.{k}{si}e-0{k + 1}' for k in range(width)]
                out.append((pname if pname == 'Gmb' else pname + ':').ljust(7) + ''.join(f'{v:>16}' for v in vals))
                for x, v in zip(names, vals):
                    rows[x][pname] = float(v)
            want[title.lower()].update(rows)
            out.append('')
    out += [[], L.TAIL, ['', 'vs: v(vs)=0', 'x2: v(vs)=0 at 0', 'rms: RMS(v(out))=1.5 FROM 0 TO 1', *L.TAIL]][tail]
    path = L.write('op.log', out, enc, eol)
    got = opLogReader(path)
    if got != want:
        raise Violation('operating points', f'{got}\nprinted {want}\n' + '\n'.join(out))
    return len(want)


def patterns(n, thorough):
    return list(itertools.product('vF-', repeat=n)) if n <= 3 or thorough else \
        [p for p in itertools.product('vF-', repeat=n) if sum(c != 'v' for c in p) <= 1]


def jobs(tier):
    out = [['lt', tier, lay, k] for lay in LAYOUTS for k in [None, *L.KINDS]]
    out += [['mout', tier, lay] for lay in LAYOUTS if lay != 'none']
    out += [['val', i] for i in range(len(L.FLOATS) + len(L.COMPLEX))] + [['select', n] for n in (1, 2, 3, 4)]
    out += [['stepval'], ['four', tier], ['qs', tier, 0], ['qs', tier, 1], ['qs', tier, 2], ['qpost'], ['ops', tier]]
    return out


def measures(kind_pats, cplx=False):
    return [{'name': NAMES[i], 'kind': k, 'rows': pat_rows(k, p, i + 4 * len(p), cplx and i == 0)} for i, (k, p) in enumerate(kind_pats)]


def run_job(job, rec):
    kind = job[0]

    def go(name, fn, case):
        rec.case(rec.run([name, case], fn, case))
        rec.state(case)

    if kind == 'lt':
        _, tier, lay, first = job
        thorough = tier != 'quick'
        steps = LAYOUTS[lay]
        n = max(1, len(steps))
        if first is None:
            for style in ('old', 'new'):
                for bare in (False, True):
                    go('lt', check_lt, {'steps': steps, 'meas': [], 'style': style, 'bare': bare})
            return
        pats = patterns(n, thorough)
        one = [(k, p) for k in L.KINDS for p in pats]
        for style in ('old', 'new'):
            for p in pats:
                for cplx in (False, True):
                    go('lt', check_lt, {'steps': steps, 'meas': measures([(first, p)], cplx), 'style': style, 'space': ' ' if cplx else ''})
        for p in pats:
            for second in one:
                go('lt', check_lt, {'steps': steps, 'meas': measures([(first, p), second]), 'style': 'old' if second[0] == 'expr' else 'new'})
        if thorough and n <= 2:
            for p in pats:
                for second in one:
                    for third in one:
                        go('lt', check_lt, {'steps': steps, 'meas': measures([(first, p), second, third])})
        rec.sample({'steps': steps, 'measurements': measures([(first, pats[-1]), one[0]])})
    elif kind == 'mout':
        _, tier, lay = job
        steps = LAYOUTS[lay]
        pats = patterns(len(steps), tier != 'quick')
        for k in L.KINDS:
            for p in pats:
                for k2 in (None, 'point', 'expr'):
                    for p2 in pats if k2 else [None]:
                        for how in ('steps', 'alone'):
                            go('mout', check_mout, [{'steps': steps, 'meas': measures([(k, p)] + ([(k2, p2)] if k2 else []))}, how])
    elif kind == 'val':
        v = (L.FLOATS + L.COMPLEX)[job[1]]
        for lay in ('none', 'v1', 'v3'):
            steps = LAYOUTS[lay]
            n = max(1, len(steps))
            for k in L.KINDS:
                for pos in range(n):
                    for style in ('old', 'new'):
                        for enc in ('utf-8', 'utf-8-sig', 'cp1252', 'utf_16_le', 'utf-16'):
                            for eol in ('\n', '\r\n'):
                                rows = pat_rows(k, 'v' * n, 1)
                                rows[pos][0] = v
                                log = {'steps': steps, 'meas': [{'name': 'Fc', 'kind': k, 'rows': rows}], 'style': style, 'enc': enc, 'eol': eol}
                                go('lt', check_lt, log)
                                if steps:
                                    go('mout', check_mout, [{**log}, 'steps'])
        rec.sample({'value': v})
    elif kind == 'stepval':
        for a in L.STEPVALS:
            for b in L.STEPVALS:
                for style in ('old', 'new'):
                    for space in ('', ' '):
                        go('lt', check_lt, {'steps': [[['Par_1', a]], [['Par_1', b]]], 'meas': measures([('point', 'vv')]), 'style': style, 'space': space})
                        go('lt', check_lt, {'steps': [[['p', a], ['q', b]], [['p', b], ['q', b]]], 'meas': measures([('expr', 'vv')]), 'style': style, 'space': space})
                go('qs', check_qspice, [{'steps': [[['p', a], ['q', b]], [['p', b], ['q', b]]], 'meas': []}, 'read'])
    elif kind == 'select':
        n = job[1]
        for pool in (['1', '2'], ['1', '1000', 'bc547'], ['1e-06', '0']):
            for rows in itertools.product(itertools.product(pool, repeat=2), repeat=n) if n < 4 or len(pool) < 3 else []:
                for how in ('text', 'number'):
                    go('select', check_select, [[[['p', a], ['q', b]] for a, b in rows], how])
            for rows in itertools.product(pool, repeat=n):
                for how in ('text', 'number'):
                    go('select', check_select, [[[['p', a]] for a in rows], how])
    elif kind == 'four':
        h = [['1.000e+3', '4.977e+0', '1.000e+0', '89.76', '0.00'], ['2.000e+3', '4.060e-2', '8.157e-3', '-141.11', '-230.87'],
             ['3.000e+3', '1e-5', '2e-6', '12.00', '-77.77']]
        for lay in LAYOUTS:
            steps = LAYOUTS[lay]
            n = max(1, len(steps))
            for pa in itertools.product((0, 1, 2), repeat=n):
                for pb in [None, *itertools.product((0, 3), repeat=n)]:
                    for np_, second in itertools.product(('all', '1', '33.69'), ('Ix(x1:of)', 'V(offset)')):
                        for phd in (None, '12.959049'):
                            if pb is None and second == 'V(offset)':
                                continue
                            four = [{'signal': s, 'n': '7' if i and second == 'V(offset)' else np_, 'phd': phd, 'thd': ['104.110027', '0.000012'][i],
                                     'steps': [[f'{"-" if i else ""}0.03{k}', h[:c]] if c else None for k, c in enumerate(p)]}
                                    for i, (s, p) in enumerate([('V(offset)', pa), (second, pb)]) if p]
                            for meas in ([], [('point', 'v' * n)]):
                                go('lt', check_lt, {'steps': steps, 'four': four, 'meas': measures(meas), 'enc': 'cp1252' if phd else 'utf-8'})
    elif kind == 'qs':
        _, tier, nm = job
        for lay in LAYOUTS:
            steps = LAYOUTS[lay]
            n = max(1, len(steps))
            pats = patterns(n, False)
            one = [(w, p) for w in (1, 2, 3) for p in pats]
            for typ in (['tran ', 'TRAN ', 'ac ', 'noise ', ''] if nm < 2 else ['tran ', '']):
                for blank in (False, True):
                    for combo in itertools.product(one, repeat=nm):
                        if nm == 2 and tier == 'quick' and n > 3:
                            continue
                        meas = []
                        for i, (w, p) in enumerate(combo):
                            rows = []
                            for k, c in enumerate(p):
                                vals = [(L.FLOATS[:9] + ['(0.5,-0.25)'])[(i + 2 * k + j * 3) % 10] for j in range(w)]
                                rows.append(vals if c == 'v' else 'FAIL' if c == 'F' else None)
                            meas.append({'name': NAMES[i], 'rows': rows})
                        for how in ('read', 'twice') if nm < 2 else ('read',):
                            go('qs', check_qspice, [{'steps': steps, 'meas': meas, 'type': typ, 'blank': blank,
                                                     'eol': '\r\n' if blank else '\n'}, how])
    elif kind == 'qpost':
        for lay in LAYOUTS:
            n = max(1, len(LAYOUTS[lay]))
            for net in ('net', 'cir'):
                go('qs', check_qspice, [{'steps': LAYOUTS[lay], 'net': net, 'meas': [{'name': 'T1', 'rows': [[f'0.{k}', '1e-3'] for k in range(n)]}]}, 'qpost'])
    else:
        widths = [[1], [2], [3], [4], [5], [2, 1], [3, 3]]
        for nsec in (1, 2, 3):
            for chunks in itertools.product(widths if nsec < 3 or job[1] != 'quick' else widths[2:6:2], repeat=nsec):
                for nparams in (0, 1, 3, 4):
                    for tail in (0, 1, 2):
                        for enc, eol in (('utf-8', '\n'), ('cp1252', '\r\n'), ('utf_16_le', '\n')):
                            go('ops', check_ops, [[[c, nparams] for c in chunks], tail, enc, eol])


def replay(case, rec):
    rec.case()
    rec.run(case, {'lt': check_lt, 'mout': check_mout, 'select': check_select, 'qs': check_qspice, 'ops': check_ops}[case[0]], case[1])
