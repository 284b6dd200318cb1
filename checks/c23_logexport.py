"""C23: tables exported from logs."""
import contextlib
import csv
import io
import itertools
import os
import sys

from mc.core import Violation, fresh_dir, scratch
from mc import logfile as L
from checks.c22_logs import LAYOUTS, measures, patterns, expect

PROPERTY = 'C23'
LEVEL = 'exploration'
RULE = ('export_data: every log of C22\'s layouts with up to 2 measurements (every kind and failure pattern up to 3 steps, complex or real) x '
        'separator {tab, comma, semicolon} x line end x {write, append once, append twice, a prefix with the separator} x {complex kept, split} x '
        'encoding; Fourier tables; QSPICE logs; the ltsteps script on .log/.mout/.txt files (given, newest of a folder, companion log '
        'present or not); text exports of waveforms: every layout of 0-3 runs x 1-2 variables x value forms x 0-2 rows x 1-3 columns '
        'through LTSpiceExport and reformat_LTSpice_export. Non-trivial: distinct (log, options).')
ASSUMPTIONS = ['a failed measurement may appear as an empty cell, None or NaN', 'CSV rules for quoting (RFC 4180) with the separator asked for',
               'a log without measurements gives no table (documented warning)']


def cells(path, sep, enc, eol):
    with open(path, 'rb') as f:
        text = f.read().decode(enc)
    if text.startswith('\ufeff'):
        text = text[1:]
    expect(text.endswith(eol), 'line ends', f'{text!r} does not end with {eol!r}')
    lines = text[:-len(eol)].split(eol)
    for ln in lines:
        expect('\n' not in ln and '\r' not in ln, 'line ends', f'{ln!r} with line ends {eol!r}')
    return list(csv.reader(lines, delimiter=sep, strict=True))


def cell_is(cell, want):
    if want is None:
        return cell in ('', 'None', 'nan')
    return L.same(L.number(cell), want)


def check_table(rows, log, cols, prefix, what, nrows):
    """One block: the header and one row per step."""
    off = 0 if prefix is None else 1
    head = rows[0]
    if prefix is not None:
        expect(head[0] == 'user info', 'user column', f'{head}; {what}')
    expect(head[off] == 'step', 'step column', f'{head}; {what}')
    names = head[off + 1:]
    st = {}
    for s in log['steps']:
        for v, t in s:
            st.setdefault(v.lower(), []).append(L.number(t))
    printed = {c for c, v in cols.items() if any(x is not None for x in v)}
    expect(len(set(n.lower() for n in names)) == len(names), 'titles', f'{names}; {what}')
    low = [n.lower() for n in names]
    expect(set(st) | printed <= set(low) <= set(st) | set(cols), 'titles', f'{sorted(low)}, expected {sorted(set(st) | printed)}; {what}')
    expect(low[:len(st)] == list(st), 'titles', f'{low}, variables {list(st)}; {what}')
    body = rows[1:]
    expect(len(body) == nrows, 'rows', f'{len(body)} rows, {nrows} steps; {rows}; {what}')
    for k, row in enumerate(body):
        expect(len(row) == len(head), 'columns', f'{row} under {head}; {what}')
        if prefix is not None:
            expect(row[0] == prefix, 'prefix', f'{row[0]!r}, given {prefix!r}')
        expect(row[off] == str(k + 1), 'step number', f'{row[off]} in row {k + 1}')
        for n, cell in zip(low, row[off + 1:]):
            want = st[n][k] if n in st else cols[n][k]
            expect(cell_is(cell, want), 'cell', f'{n} of step {k + 1} is {cell!r}, in the log {want!r}; {rows}; {what}')


def with_split(cols):
    out = dict(cols)
    for c, v in cols.items():
        if any(isinstance(x, complex) for x in v):
            out[c + '_mag'] = [abs(x) if isinstance(x, complex) else None for x in v]
            import cmath
            import math
            out[c + '_ph'] = [math.degrees(cmath.phase(x)) if isinstance(x, complex) else None for x in v]
    return out


def approx_cells(rows, cols):
    """Magnitudes and phases are computed: compared with a tolerance by replacing equal cells with the model's text."""
    head = [h.lower() for h in rows[0]]
    for k, row in enumerate(rows[1:]):
        for i, h in enumerate(head):
            if i < len(row) and (h.endswith('_mag') or h.endswith('_ph')) and h in cols and k < len(cols[h]):
                w = cols[h][k]
                try:
                    if w is not None and abs(float(row[i]) - w) <= 1e-9 * max(1, abs(w)):
                        row[i] = repr(w)
                except ValueError:
                    pass
    return rows


def check_export(case):
    from spicelib.log.ltsteps import LTSpiceLogReader
    from spicelib.log.qspice_log_reader import QspiceLogReader
    log, opt = case
    enc = log.get('enc', 'utf-8')
    if opt.get('qspice'):
        a, b = L.qspice_lines(log)
        path = L.write('q.log', a)
        data = QspiceLogReader(path, read_measures=False)
        data.parse_meas_file(L.write('q.meas', b))
        cols = L.qspice_columns(log)
    else:
        path = L.write('a.log', L.lines(log), enc)
        data = LTSpiceLogReader(path)
        cols = L.columns(log)
    what = f'{log} {opt}'
    n = max(1, len(log['steps']))
    if opt.get('split'):
        data.split_complex_values_on_datasets() if opt['split'] == 1 else data.obtain_amplitude_and_phase_from_complex_values()
        cols = with_split(cols)
    out = os.path.join(fresh_dir('exp'), 'out.tsv')
    sep, eol, times, prefix = opt.get('sep', '\t'), opt.get('eol', '\n'), opt.get('times', 1), opt.get('prefix')
    kw = {}
    if 'sep' in opt:
        kw['value_separator'] = sep
    if 'eol' in opt:
        kw['line_terminator'] = eol
    if opt.get('enc'):
        kw['encoding'] = opt['enc']
    if prefix is not None:
        kw['append_with_line_prefix'] = prefix
    else:
        with open(out, 'w') as f:  # an earlier file is replaced
            f.write('something else\n' * 9)
    for _ in range(times):
        data.export_data(out, **kw)
    eff = opt.get('enc') or ('utf-8' if opt.get('qspice') else enc)
    rows = cells(out, sep, 'utf-8-sig' if eff == 'utf-8' else eff, eol)
    blocks = times if prefix is not None else 1
    expect(len(rows) == blocks * (n + 1), 'rows', f'{len(rows)} rows for {blocks} tables of {n}; {rows}; {what}')
    for b in range(blocks):
        part = rows[b * (n + 1):(b + 1) * (n + 1)]
        check_table(approx_cells(part, cols), log, cols, prefix, what, n)
    return f'{n} rows'


def check_fourier(case):
    from spicelib.log.ltsteps import LTSpiceLogReader
    log, kw = case
    path = L.write('f.log', L.lines(log), 'cp1252')
    data = LTSpiceLogReader(path)
    d = fresh_dir('four')
    data.export_data(os.path.join(d, 'x.tlog'), **kw)
    fpath = os.path.join(d, 'x_fourier.txt')
    with open(fpath, encoding=kw.get('encoding') or 'cp1252') as f:
        text = f.read()
    sections = text.split('Harmonic Analysis\n')
    expect(len(sections) == 2, 'fourier file', text)
    st = [v.lower() for v, _ in log['steps'][0]] if log['steps'] else []
    summary = [ln.split('\t') for ln in sections[0].split('\n') if ln]
    harm = [ln.split('\t') for ln in sections[1].split('\n') if ln]
    expect(summary[0] == st + ['Signal', 'N-Periods', 'DC Component', 'Fundamental', 'N-Harmonics', 'PHD', 'THD'], 'fourier titles', f'{summary[0]}; {log}')
    expect(harm[0] == st + ['Signal', 'N-Periods', 'Harmonic', 'Frequency', 'Fourier', 'Normalized', 'Phase', 'Normalized'], 'fourier titles', f'{harm[0]}; {log}')
    want_s, want_h = [], []
    for f in log['four']:
        for s in range(max(1, len(log['steps']))):
            b = f['steps'][s] if s < len(f['steps']) else None
            if b is None:
                continue
            pre = [L.number(t) for _, t in log['steps'][s]] if log['steps'] else []
            np_ = f['n'] if f['n'] == 'all' else float(f['n'])
            want_s.append([*pre, f['signal'], np_, float(b[0]), float(b[1][0][0]), float(len(b[1])), float(f['phd']) if f.get('phd') else 'None', float(f['thd'])])
            for k, h in enumerate(b[1]):
                want_h.append([*pre, f['signal'], np_, float(k + 1), *map(float, h)])

    def norm(rows, np_at):
        out = []
        for r in rows:
            r = [L.number(c) for c in r]
            if len(r) > np_at and r[np_at] in (-1.0, -1):
                r[np_at] = 'all'
            out.append(r)
        return sorted(out, key=repr)
    expect(norm(summary[1:], len(st) + 1) == sorted(want_s, key=repr), 'fourier table', f'{norm(summary[1:], len(st) + 1)}, in the log {want_s}')
    expect(norm(harm[1:], len(st) + 1) == sorted(want_h, key=repr), 'harmonics table', f'{norm(harm[1:], len(st) + 1)}, in the log {want_h}')
    return len(want_h)


def run_script(args, cwd):
    from spicelib.scripts.ltsteps import main
    old, oldcwd = sys.argv, os.getcwd()
    sys.argv = ['ltsteps', *args]
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            try:
                main()
                code = 0
            except SystemExit as e:
                code = e.code
    finally:
        sys.argv = old
        os.chdir(oldcwd)
    return code, out.getvalue()


def check_script(case):
    log, kind, how, companion = case
    d = fresh_dir('script')
    base = {'plain': 'circ_1', 'mout': 'a.mout.b', 'short': 'x', 'dir': 'longer name'}[how if how in ('mout', 'short', 'dir') else 'plain']
    src = os.path.join(d, f'{base}.{kind}')
    enc = log.get('enc', 'utf-8')
    cols = L.columns(log)
    n = len(log['steps'])

    def put(p, lines):
        with open(p, 'wb') as f:
            f.write(('\n'.join(lines) + '\n').encode(enc))
    model = log
    if kind == 'log':
        put(src, L.lines(log))
        out = os.path.join(d, base + '.tlog')
        nrows = max(1, n)
    else:
        put(src, L.lines({**log, 'style': 'mout'}))
        out = os.path.join(d, base + '.tmout')
        if companion:
            put(os.path.join(d, base + '.log'), L.lines({**log, 'meas': []}))
            nrows = n
        else:
            model = {**log, 'steps': []}
            nrows = max([k + 1 for v in cols.values() for k, x in enumerate(v) if x is not None], default=0)
            cols = {c: v[:nrows] for c, v in cols.items()}
    before = {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d)}
    for i, f in enumerate(sorted(before, key=lambda f: f == os.path.basename(src))):
        os.utime(os.path.join(d, f), (1000 + i, 1000 + i))
    if how == 'newest':
        os.makedirs(os.path.join(d, 'z.dir'))
        with open(os.path.join(d, 'notes.md'), 'w') as f:
            f.write('newer, other kind')
        before['notes.md'] = b'newer, other kind'
        code, said = run_script([], d)
    elif how == 'dir':
        code, said = run_script([src], scratch())
    else:
        code, said = run_script([os.path.basename(src)], d)
    expect(code == 0, 'script', f'exit {code}: {said}; {case}')
    made = {f for f in os.listdir(d) if os.path.isfile(os.path.join(d, f))} - set(before)
    for f, b in before.items():
        expect(open(os.path.join(d, f), 'rb').read() == b, 'script inputs', f'{f} changed; {case}')
    if not any(any(x is not None for x in v) for v in cols.values()):
        return 'nothing'
    expect(made == {os.path.basename(out)}, 'script files', f'{made}, expected {os.path.basename(out)}; {case}')
    cols = with_split(cols)
    rows = cells(out, '\t', enc, '\n')
    check_table(approx_cells(rows, cols), model, cols, None, str(case), nrows)
    return kind


# --- waveform text exports

def wave_text(case):
    heads, runs, nvars, rows, word, vals = case
    out = ['\t'.join(heads)]
    for r in range(max(1, runs)):
        if runs:
            asg = ' '.join(f'{["Ton", "r1"][i]}={vals[(r + i) % len(vals)]}' for i in range(nvars))
            out.append(f'Step Information: {asg}  ({word}: {r + 1}/{runs})')
        for k in range(rows[r % len(rows)]):
            out.append('\t'.join(cellval(r, k, c) for c in range(len(heads))))
    return out


def cellval(r, k, c):
    return [f'{k}.{r}00000000000000e-03', f'-{c}.{k}{r}000e+00', f'({r}.5e+00dB,-{k}.0e+01°)'][c]


def check_wave(case):
    from spicelib.log.ltsteps import LTSpiceExport, reformat_LTSpice_export
    (heads, runs, nvars, rows, word, vals), enc, eol = case
    lines = wave_text(case[0])
    path = L.write('w.txt', lines, enc, eol)
    out = os.path.join(fresh_dir('wave'), 'w.tsv')
    reformat_LTSpice_export(path, out)
    data = LTSpiceExport(path)
    want = []   # rows: run, values of the variables, cells
    for r in range(max(1, runs)):
        for k in range(rows[r % len(rows)]):
            want.append(([r + 1], [vals[(r + i) % len(vals)] for i in range(nvars)], [cellval(r, k, c) for c in range(len(heads))]))
    variables = ['Ton', 'r1'][:nvars] if runs else []
    with open(out, encoding=enc) as f:
        got = [ln.split('\t') for ln in f.read().split('\n')]
    expect(got[-1] == [''], 'reformat', f'{got}')
    got = got[:-1]
    text = '\n'.join(lines)
    if runs or want:
        pre = ['Run', *variables] if runs else got[0][:len(got[0]) - len(heads)]
        expect(got and got[0] == [*pre, *heads], 'reformat titles', f'{got[:1]}; {text}')
        expect(len(got) == 1 + len(want), 'reformat rows', f'{got}; {text}')
        for g, (run, v, c) in zip(got[1:], want):
            exp = [str(run[0]), *v, *c] if runs else c
            g2 = g if runs else g[len(pre):]
            expect(len(g) == len(got[0]) and g2 == exp, 'reformat cells', f'{g}, expected {exp}; {text}')
    expect([h.strip() for h in data.headers] == heads, 'export titles', f'{data.headers}; {text}')
    for c, h in enumerate(heads):
        col = data.dataset[h.lower()]
        expect(len(col) == len(want) and all(L.same(g, L.number(w[2][c])) for g, w in zip(col, want)), 'export values', f'{h}: {col}; {text}')
    if runs:
        col = data.dataset['runno']
        expect([int(x) for x in col] == [w[0][0] for w in want], 'export runs', f'{col}; {text}')
        for i, v in enumerate(variables):
            col = data.dataset[v.lower()]
            expect(len(col) == len(want) and all(L.same(g, L.number(w[1][i])) for g, w in zip(col, want)), 'export variables', f'{v}: {col}; {text}')
    return len(want)


def check_refused(case):
    """Files of other kinds are refused and nothing is written."""
    d = fresh_dir('ref')
    for name in case['files']:
        with open(os.path.join(d, name), 'w') as f:
            f.write('Circuit: * x\n\nt: v(a)=1 at 0\n')
    before = sorted(os.listdir(d))
    code, said = run_script(case['args'], d)
    expect(code not in (0, None) and sorted(os.listdir(d)) == before, 'refused', f'{case}: exit {code}, {os.listdir(d)}')
    return 'refused'


VALS = [['400m', '-1.5'], ['1e+15', '2'], ['10µ', '-40°'], ['1K', '1.5e-09'], ['bc547', '0']]


def jobs(tier):
    out = [['exp', tier, lay, k] for lay in LAYOUTS for k in L.KINDS]
    out += [['qs', lay] for lay in LAYOUTS] + [['four', tier, lay] for lay in LAYOUTS]
    out += [['script', lay, k] for lay in LAYOUTS for k in ('log', 'mout')] + [['wave', tier, v] for v in range(len(VALS))] + [['refuse']]
    return out


OPTS = [{}, {'sep': ','}, {'sep': ';', 'eol': '\r\n'}, {'prefix': 'run 1'}, {'prefix': 'a,b', 'sep': ',', 'times': 2}, {'prefix': 'q "1"', 'times': 2},
        {'split': 1}, {'split': 2, 'sep': ','}, {'enc': 'utf-16'}, {'enc': 'cp1252', 'eol': '\r\n', 'split': 1}]


def run_job(job, rec):
    kind = job[0]

    def go(name, fn, case):
        rec.case(rec.run([name, case], fn, case))
        rec.state(case)

    if kind == 'exp':
        _, tier, lay, k = job
        steps = LAYOUTS[lay]
        n = max(1, len(steps))
        for p in patterns(n, tier != 'quick'):
            if 'v' not in p:
                continue
            for k2, p2 in [(None, None)] + [(a, b) for a in ('point', 'expr') for b in patterns(n, False)]:
                if tier == 'quick' and n >= 3 and k2 and sum(c != 'v' for c in p + p2) > 2:
                    continue
                for cplx in (False, True):
                    for enc in ('utf-8', 'cp1252') if cplx else ('utf-8',):
                        for opt in OPTS:
                            ms = measures([(k, p)] + ([(k2, p2)] if k2 else []), cplx)
                            go('exp', check_export, [{'steps': steps, 'meas': ms, 'enc': enc, 'style': 'new' if cplx else 'old'}, opt])
        rec.sample({'steps': steps, 'kind': k, 'options': OPTS[-1]})
    elif kind == 'qs':
        steps = LAYOUTS[job[1]]
        n = max(1, len(steps))
        for p in patterns(n, False):
            if 'v' not in p:
                continue
            for w in (1, 2):
                for two in (False, True):
                    for v in (['0.5', '1e-05', '-3'], ['(0.5,-0.25)']):
                        if w == 2 and len(v) == 1:
                            continue
                        rows = [[v[(i + j) % len(v)] for j in range(w)] if c == 'v' else 'FAIL' if c == 'F' else None for i, c in enumerate(p)]
                        meas = [{'name': 'T1', 'rows': rows}] + ([{'name': 'gain', 'rows': [['7.5']] * n}] if two else [])
                        if len(v) == 1:
                            continue   # how a complex value of QSPICE is shown is left open
                        for opt in OPTS:
                            go('exp', check_export, [{'steps': steps, 'meas': meas}, {**opt, 'qspice': 1}])
    elif kind == 'four':
        _, tier, lay = job
        steps = LAYOUTS[lay]
        n = max(1, len(steps))
        h = [['1.000e+3', '4.977e+0', '1.000e+0', '89.76', '0.00'], ['2.000e+3', '4.060e-2', '8.157e-3', '-141.11', '-230.87']]
        for pa in itertools.product((0, 1, 2), repeat=n):
            for pb in [None, *itertools.product((0, 2), repeat=n)]:
                for np_, second in itertools.product(('all', '1', '33.69', '0.5'), ('I(R1)', 'V(a)')):
                    for phd in (None, '12.959049'):
                        for kw in ({}, {'encoding': 'utf-16'}):
                            if not any(pa) and not any(pb or ()) or pb is None and second != 'I(R1)':
                                continue
                            four = [{'signal': s, 'n': '7' if i and second == 'V(a)' else np_, 'phd': phd, 'thd': ['104.110027', '0.000012'][i],
                                     'steps': [[f'{"-" if i else ""}0.03{k}', h[:c]] if c else None for k, c in enumerate(p)]}
                                    for i, (s, p) in enumerate([('V(a)', pa), (second, pb)]) if p]
                            go('four', check_fourier, [{'steps': steps, 'four': four, 'meas': measures([('point', 'v' * n)])}, kw])
    elif kind == 'script':
        _, lay, k = job
        steps = LAYOUTS[lay]
        if k == 'mout' and not steps:
            return
        n = max(1, len(steps))
        for p in patterns(n, False):
            for mk in L.KINDS:
                for cplx in (False, True):
                    for how in ('plain', 'newest', 'mout', 'short', 'dir'):
                        for comp in ((True, False) if k == 'mout' else (False,)):
                            go('script', check_script, [{'steps': steps, 'meas': measures([(mk, p)], cplx)}, k, how, comp])
    elif kind == 'wave':
        _, tier, v = job
        for nh in (1, 2, 3):
            heads = ['time', 'V(out)', 'V(a,b)'][:nh]
            for runs in (0, 1, 2, 3):
                for nvars in (1, 2) if runs else (0,):
                    for rows in itertools.product((0, 1, 2), repeat=max(1, runs)):
                        for word in ('Run', 'Step') if runs else ('Run',):
                            for vals in [VALS[v], VALS[v][::-1]] if runs else [VALS[v]]:
                                for enc, eol in (('utf-8', '\n'), ('cp1252', '\r\n'), ('utf_16_le', '\n')):
                                    go('wave', check_wave, [[heads, runs, nvars, rows, word, vals], enc, eol])
        rec.sample({'columns': heads, 'runs': runs, 'rows': rows})
    else:
        for files, args in ((['a.net'], ['a.net']), (['a.net', 'b.md'], []), ([], []), (['alog'], ['alog']), (['a.mou'], ['a.mou'])):
            go('refuse', check_refused, {'files': files, 'args': args})


def replay(case, rec):
    rec.case()
    rec.run(case, {'exp': check_export, 'four': check_fourier, 'script': check_script, 'wave': check_wave, 'refuse': check_refused}[case[0]], case[1])
