"""C30: histogram and rawplot show the data that was asked for. The figures of the real scripts are taken apart and compared."""
import cmath
import contextlib
import io
import itertools
import math
import operator
import os
import sys
import tempfile
import types

from mc import logfile as L
from mc.core import Violation, scratch
from mc.rawfile import Plot, layouts, same, samples

PROPERTY = 'C30'
LEVEL = 'exploration'
RULE = ('histogram: every table over sets of column names x separator x line ends x encoding x column, every condition (column, operator, '
        'constant) and every pair of them (two -c, or one with and/or), three conditions in every order, values with outliers on either side, every sequence of up to 5 (thorough 6) lines of {two values, empty, short, text} '
        'from a file and from the clipboard, every log of a set of step layouts with every pattern of failures and every '
        'condition on steps, the table made of that log, plot_histogram of it over every selection of up to 4 steps, and every combination of sigma, bins, range, normalisation, format, title and '
        'output; rawplot: every storage layout x steps x every ordered choice of traces. The figures of the real scripts are inspected: '
        'the bars, the curve, the limits, the printed statistics, the lines of each trace. Non-trivial: distinct data and options')
ASSUMPTIONS = ['no figure is shown: matplotlib draws in memory and plt.show hands the figure over',
               'complex measurements, conditions on data of the clipboard, and operators other than == or a parameter named twice on .log files are not covered',
               'lines without a number in the requested column are not part of the data']

OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge}
COLS = [['a', 'b'], ['step', 'V(N001)', 'I(R1)'], ['V(a)', 'V(ab)', 'xV(a)'], ['b', 'V(b)', 'Ix(U1:1)'], ['x', 'model', 'gain_db']]
VALS = ['1', '2', '-0.5', '3e-6', '2', '1.5E+3', '4', '0']
SEPS = {'tab': '\t', 'semi': ';', 'comma': ','}


def plt():
    if 'MPLCONFIGDIR' not in os.environ:
        os.environ['MPLCONFIGDIR'] = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
    import logging
    logging.getLogger('matplotlib').setLevel(logging.ERROR)
    import matplotlib
    if not getattr(matplotlib, 'mc_ready', False):
        matplotlib.use('agg')
        matplotlib.use = lambda *a, **k: None
        matplotlib.mc_ready = True
    import matplotlib.pyplot as p
    return p


class Shown:
    def __init__(self):
        self.out, self.exit, self.fig, self.saved, self.shown = '', None, None, [], 0


def script(main, argv, clip=None, keep=False):
    """Runs the main function of a script; the figure it shows or saves."""
    p = plt()
    p.close('all')
    s = Shown()

    def show(*a, **k):
        s.shown += 1
        s.fig = p.gcf()

    def save(name, *a, **k):
        s.saved.append(str(name))
        s.fig = p.gcf()
        if keep:
            real[1](name, *a, **k)
    real = p.show, p.savefig, sys.argv
    board = types.ModuleType('clipin')
    board.paste = lambda kind='text/plain', *a, **k: clip
    had = sys.modules.get('clipin')
    out = io.StringIO()
    p.show, p.savefig, sys.argv = show, save, ['script.py', *argv]
    sys.modules['clipin'] = board
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                main()
            except SystemExit as e:
                s.exit = e.code
    finally:
        p.show, p.savefig, sys.argv = real
        if had is None:
            del sys.modules['clipin']
        else:
            sys.modules['clipin'] = had
    s.out = out.getvalue()
    return s


def expect(cond, key, msg):
    if not cond:
        raise Violation(key, msg)


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1e-12, abs(a), abs(b)) or a == b


def number(text):
    try:
        return float(text)
    except ValueError:
        return None


# ---- histogram

def options(o):
    argv = []
    for k, flag in (('sigma', '-s'), ('bins', '-n'), ('range', '-r'), ('format', '-f'), ('title', '-t'), ('output', '-o')):
        if o.get(k) is not None:
            argv += [flag, str(o[k])]
    if o.get('nonorm'):
        argv.append('-1')
    for c in o.get('conditions', []):
        argv += ['-c', c]
    return argv


def judge(s, want, o, trace, what, printed=True):
    """`want`: the values the histogram has to be made of."""
    import numpy as np
    what = f'{what}: {o}; values {want}\n{s.out[-300:]}'
    bins = o.get('bins', 20)
    if not want or printed and len(want) < bins:
        expect(s.fig is None, 'histogram without data', what)
        return 'too few'
    expect(s.exit is None and s.fig is not None, 'no histogram', what)
    if o.get('output'):
        expect(s.saved == [o['output']] and not s.shown, 'output', f'saved {s.saved}, shown {s.shown}; {what}')
    else:
        expect(s.shown == 1 and not s.saved, 'output', f'saved {s.saved}, shown {s.shown}; {what}')
    axes = s.fig.axes
    expect(len(axes) == 1 and len(axes[0].containers) == 1, 'figure', f'{axes}; {what}')
    ax = axes[0]
    n = len(want)
    mean = math.fsum(want) / n
    sd = math.sqrt(math.fsum((v - mean) ** 2 for v in want) / n)
    sigma = o.get('sigma', 3)
    if o.get('range'):
        lo, hi = (float(x) for x in o['range'].split(':'))
    else:
        lo, hi = min(mean - (sigma + 1) * sd, *want), max(mean + (sigma + 1) * sd, *want)
    edges = np.linspace(lo, hi, bins + 1)
    eps = 1e-9 * (hi - lo)      # a value within eps of a limit belongs to either bin
    inside = [v for v in want if lo - eps <= v <= hi + eps]
    scale = len(inside) * (hi - lo) / bins if not o.get('nonorm') else 1
    bars = ax.containers[0].patches
    expect(len(bars) == bins, 'bins', f'{len(bars)} bars; {what}')
    flat = sd < 1e-9 * max(1.0, abs(mean))    # the bins then depend on the rounding of the mean
    if not flat:
        total = 0
        for k, b in enumerate(bars):
            expect(abs(b.get_x() - edges[k]) <= 1e-6 * (hi - lo) and abs(b.get_width() - (edges[k + 1] - edges[k])) <= 1e-6 * (hi - lo),
                   'bin limits', f'bar {k} from {b.get_x()} width {b.get_width()}, edges {edges}; {what}')
            count = b.get_height() * scale
            expect(abs(count - round(count)) < 1e-6 and count > -0.5, 'bar', f'bar {k} is {b.get_height()}, {count} values; {what}')
            total += round(count)
            low, high = sum(v < edges[k + 1] - eps for v in inside), sum(v <= edges[k + 1] + eps for v in inside)
            if k + 1 == bins:
                low = len(inside)
            expect(low <= total <= high, 'bar', f'{total} values in bars 0 to {k}, {low} expected; {what}')
        view = ax.axis()
        expect(abs(view[0] - lo) <= 1e-6 * (hi - lo) and abs(view[1] - hi) <= 1e-6 * (hi - lo) and view[2] == 0 and view[3] >= max(b.get_height() for b in bars), 'limits', f'{view}; {what}')
        lines = ax.get_lines()
        expect(len(lines) == (0 if o.get('nonorm') else 1), 'curve', f'{len(lines)} lines; {what}')
        for line in lines:
            for x, y in zip(line.get_xdata(), line.get_ydata()):
                pdf = math.exp(-((x - mean) / sd) ** 2 / 2) / (sd * math.sqrt(2 * math.pi))
                expect(abs(y - pdf) <= 1e-7 * max(pdf, 1e-30), 'curve', f'{y} at {x}, {pdf} expected; {what}')
            span = [q for q in ax.patches if q not in bars]
            xs = sorted({float(x) for q in span for x in q.get_extents().transformed(ax.transData.inverted()).intervalx})
            tol = 1e-6 * max(hi - lo, sd * sigma)
            expect(len(span) == 1 and abs(xs[0] - (mean - sigma * sd)) <= tol and abs(xs[1] - (mean + sigma * sd)) <= tol, 'sigma span', f'{xs}; {what}')
    expect(ax.get_xlabel() == trace, 'label', f'{ax.get_xlabel()!r}; {what}')
    if o.get('title'):
        expect(ax.get_title() == o['title'], 'title', f'{ax.get_title()!r}; {what}')
    else:
        expect(trace in ax.get_title(), 'title', f'{ax.get_title()!r}; {what}')
    if not printed:
        return 'histogram'
    fmt = o.get('format') or '%f'
    for name, value in (('Minimum is', min(want)), ('Maximum is', max(want)), ('Mean is', mean), ('Standard Deviation is', sd)):
        lines = [x for x in s.out.splitlines() if x.startswith(name)]
        expect(len(lines) == 1, 'statistics', f'{name}: {lines}; {what}')
        got = float(lines[0][len(name):])
        eps = abs(float(fmt % value) - value) + 1e-9 * max(1.0, abs(value)) + 2e-6
        expect(abs(got - value) <= eps, 'statistics', f'{lines[0]}, {value} expected; {what}')
    line = [x for x in s.out.splitlines() if 'boundaries' in x]
    a, b = (float(x) for x in line[0].split(' are ')[1].split(' and '))
    for got, value in ((a, mean - sigma * sd), (b, mean + sigma * sd)):
        eps = abs(float(fmt % value) - value) + 1e-9 * max(1.0, abs(value)) + 2e-6
        expect(abs(got - value) <= eps, 'statistics', f'{line[0]}, {value} expected; {what}')
    expect(f'Collected {n} elements' in s.out, 'statistics', what)
    return 'histogram'


def put(name, text, enc='utf-8'):
    path = os.path.join(scratch('h'), name)
    with open(path, 'wb') as f:
        f.write(text.encode(enc))
    return path


def rows_of(cols, n):
    """Rows of texts; the columns have different sequences of values, 'model' holds texts."""
    return [[('bc547', 'bc557', '1N4148')[r % 3] if c == 'model' else VALS[(r * (k + 1) + 3 * k) % len(VALS)] for k, c in enumerate(cols)] for r in range(n)]


def true(cond, row, cols):
    """cond: [column, operator, constant] | ['and'/'or', cond, cond]"""
    if cond[0] in ('and', 'or') and len(cond) == 3 and isinstance(cond[1], list):
        a, b = (true(c, row, cols) for c in cond[1:])
        return (a and b) if cond[0] == 'and' else (a or b)
    if len(cond) == 1:      # the value itself
        return bool(number(row[cols.index(cond[0])]))
    v = row[cols.index(cond[0])]
    if cond[2][:1] in '\'"':
        return OPS[cond[1]](v, cond[2][1:-1])
    return OPS[cond[1]](float(v), float(cond[2]))


def text_of(cond, space=False):
    if cond[0] in ('and', 'or') and len(cond) == 3 and isinstance(cond[1], list):
        return f' {cond[0]} '.join(text_of(c, space) for c in cond[1:])
    return (' ' if space else '').join(cond)


def table_case(case):
    from spicelib.scripts import histogram
    cols, n, sep, eol, enc, last, conds, col, o = case
    rows = rows_of(cols, n)
    text = eol.join(SEPS[sep].join(r) for r in [cols, *rows]) + (eol if last else '')
    path = put('t.txt', text, enc)
    want = [float(r[col]) for r in rows if all(true(c, r, cols) for c in conds)]
    o = dict(o, conditions=[text_of(c, k % 2) for k, c in enumerate(conds)])
    s = script(histogram.main, [*options(o), path, cols[col]])
    return judge(s, want, o, cols[col], f'{text!r}')


def values_case(case):
    from spicelib.scripts import histogram
    values, o = case
    path = put('v.txt', 'v\n' + ''.join(f'{v}\n' for v in values))
    s = script(histogram.main, [*options(o), path, 'v'])
    return judge(s, [float(v) for v in values], o, 'v', 'one column')


def clip_case(case):
    from spicelib.scripts import histogram
    kinds, eol, named, o = case
    kind_text = {'v': '{}', 'w': '-{}.5', 'e': '', 's': '   ', 't': 'none', 'h': '{}e-3'}
    lines = [kind_text[k].format(i + 1) for i, k in enumerate(kinds)]
    want = [number(x) for x in lines if number(x) is not None]
    if named is None:
        text = eol.join(lines)
        argv, trace = [], 'var'
    else:       # a table, the trace is its column `named`
        sep = SEPS[named[1]]
        cols = ['p', 'V(out)', 'q']
        text = eol.join([sep.join(cols)] + [sep.join(['7'] * named[0] + [x] + ['8'] * (2 - named[0])) if x.strip() else x for x in lines])
        argv, trace = [cols[named[0]]], cols[named[0]]
    s = script(histogram.main, ['-C', *options(o), *argv], clip=text)
    return judge(s, want, o, trace, f'clipboard {text!r}')


def lines_case(case):
    """A file whose lines are of several kinds."""
    from spicelib.scripts import histogram
    kinds, sep, eol, cond, o = case
    sp = SEPS[sep]
    form = {'v': '{i}' + sp + '{i}5', 'w': '-{i}.5' + sp + '2e{i}', 'e': '', 'm': '{i}', 't': '{i}' + sp + 'none'}
    lines = [form[k].format(i=i + 1) for i, k in enumerate(kinds)]
    path = put('l.txt', eol.join(['a' + sp + 'b', *lines]) + eol)
    want = []
    for k, x in zip(kinds, lines):
        c = x.split(sp)
        if len(c) == 2 and number(c[1]) is not None and (not cond or OPS[cond[1]](float(c[0]), float(cond[2]))):
            want.append(float(c[1]))
    o = dict(o, conditions=[''.join(cond)] if cond else [])
    s = script(histogram.main, [*options(o), path, 'b'])
    return judge(s, want, o, 'b', f'{lines}')


STEPS = {'none': [], 'v3': [[['freq', '10000']], [['freq', '12589.25']], [['freq', '1e+06']]],
         'w4': [[['vin', '1'], ['R1', '1000']], [['vin', '10'], ['R1', '1000']], [['vin', '1'], ['R1', '1e+06']], [['vin', '10'], ['R1', '1e+06']]],
         'm6': [[['model', m], ['temp', t]] for m in ('bc547', 'bc557') for t in ('-40', '27', '27.5')]}


def the_log(layout, pattern):
    steps = STEPS[layout]
    pick = lambda k, n: L.FLOATS[(3 * k + 2 * n) % 6] if (k + n) % 3 else f'{k}.{n}5'
    rows1 = [[pick(0, n), f'0.{n}', f'1.{n}'] if p == 'v' else 'FAIL' if p == 'F' else None for n, p in enumerate(pattern)]
    rows2 = [[pick(1, n), f'0.0{n + 1}'] for n in range(len(pattern))]
    return {'steps': steps, 'meas': [{'name': 'Vout_rms', 'kind': 'interval', 'rows': rows1}, {'name': 'gain', 'kind': 'point', 'rows': rows2}], 'style': 'old'}


def conditions(layout):
    """All the conditions on steps: none, one, two."""
    seen = []
    for s in STEPS[layout]:
        for v, t in s:
            for name in (v, v.upper()):
                if [name, '==', t] not in seen:
                    seen.append([name, '==', t])
    if layout in ('v3', 'w4'):
        seen.append([STEPS[layout][0][0][0], '==', '12345'])
    yield []
    for c in seen:
        yield [c]
    yield from (list(x) for x in itertools.permutations(seen[:8], 2) if x[0][0] != x[1][0])


def log_case(case):
    from spicelib.log.ltsteps import LTSpiceLogReader
    from spicelib.scripts import histogram
    layout, pattern, conds, trace, how, o = case
    log = the_log(layout, pattern)
    path = L.write('h.log', L.lines(log))
    vals = L.columns(log)[trace.lower()]

    def holds(n):
        for name, op, const in conds:
            if how == 'tlog' and name in ('gain', 'vout_rms'):
                v = L.columns(log)[name][n]
            else:
                v = next(L.number(t) for v, t in STEPS[layout][n] if v.lower() == name.lower())
            if not OPS[op](v, L.number(const.strip('"'))):
                return False
        return True
    want = [float(v) for n, v in enumerate(vals) if v is not None and holds(n)]
    if how == 'tlog':
        data = LTSpiceLogReader(path)
        path = os.path.join(scratch('log'), 'h.tlog')
        data.export_data(path)
    o = dict(o, conditions=[text_of(c, k % 2) for k, c in enumerate(conds)])
    s = script(histogram.main, [*options(o), path, trace])
    return judge(s, want, o, trace, f'{how} of {layout} {pattern}')


def measure_case(case):
    """plot_histogram of the measurements of a log."""
    from spicelib.log.ltsteps import LTSpiceLogReader
    layout, pattern, steps, trace, o = case
    log = the_log(layout, pattern)
    path = L.write('p.log', L.lines(log))
    vals = L.columns(log)[trace.lower()]
    picked = range(len(vals)) if steps is None else [steps] if isinstance(steps, int) else steps
    want = [float(vals[n]) for n in picked if vals[n] is not None]
    data = LTSpiceLogReader(path)
    keys = {'bins': 'bins', 'sigma': 'sigma', 'title': 'title', 'output': 'image_file'}
    args = {keys[k]: v for k, v in o.items() if k in keys}
    if o.get('nonorm'):
        args['normalized'] = False
    if steps is not None:
        args['steps'] = steps
    if not want:
        return 'no values'
    s = script(lambda: data.plot_histogram(trace, **args), [])
    return judge(s, want, dict(o, bins=o.get('bins', 50)), trace, f'{layout} {pattern} steps {steps}', False)


# ---- rawplot

def raw_case(case):
    from spicelib.scripts import rawplot
    layout, lens, picks, spread = case
    plot = layouts(extra=2)[layout](n=3, steps=lens)
    if spread:      # the steps have axes of their own
        at = plot.offsets()
        for k in range(len(lens)):
            first = plot.cols[0][at[k]]
            plot.cols[0][at[k]:at[k + 1]] = [first + (v - first) * (1 + k) for v in plot.cols[0][at[k]:at[k + 1]]]
    path = os.path.join(scratch('h'), 'f.qraw' if plot.dialect == 'qspice' else 'f.raw')
    with open(path, 'wb') as f:
        f.write(plot.bytes())
    names = plot.all_names()
    argv = [names[i] for i in picks]
    s = script(rawplot.main, [path, *argv])
    what = f'{layout} {lens} {argv}\n{s.out[-300:]}'
    picks = picks or list(range(len(names)))
    expect(s.exit is None and s.shown == 1 and s.fig is not None, 'no plot', what)
    rows = {}
    for ax in s.fig.axes:
        rows.setdefault(ax.get_subplotspec().rowspan.start, []).append(ax)
    expect(len(rows) == len(picks), 'axes', f'{len(rows)} rows; {what}')
    for r, i in enumerate(picks):
        main, *twins = rows[r]
        lines = main.get_lines()
        phases = [x for t in twins for x in t.get_lines()]
        nsteps = len(lens) if lens else 1
        expect(len(lines) == nsteps, 'lines', f'{len(lines)} lines of {names[i]}; {what}')
        expect(len(phases) == (nsteps if plot.complex else 0), 'phase lines', f'{len(phases)} of {names[i]}; {what}')
        expect(names[i] in main.get_ylabel(), 'trace label', f'{main.get_ylabel()!r} of {names[i]}; {what}')
        if 'log' in plot.flags:
            expect(main.get_xscale() == 'log', 'scale', what)
        for k in range(nsteps):
            x = plot.step(0, k) if plot.has_axis else range(plot.npoints)
            y = plot.step(i, k)
            gx, gy = lines[k].get_xdata(), lines[k].get_ydata()
            if plot.complex:
                expect(len(gx) == len(x) and all(close(a, abs(b)) for a, b in zip(gx, x)), 'plot x', f'{names[i]} step {k}: {gx} instead of {list(x)}; {what}')
                expect(len(gy) == len(y) and all(close(a, abs(b)) for a, b in zip(gy, y)), 'magnitude', f'{names[i]} step {k}: {gy} instead of {list(y)}; {what}')
                px, py = phases[k].get_xdata(), phases[k].get_ydata()
                expect(len(px) == len(x) and all(close(a, abs(b)) for a, b in zip(px, x)), 'phase x', f'{names[i]} step {k}: {px}; {what}')
                deg = [math.degrees(cmath.phase(complex(v))) for v in y]
                expect(len(py) == len(deg) and all(abs(a - b) < 1e-6 or abs(abs(a - b) - 360) < 1e-6 for a, b in zip(py, deg)), 'phase', f'{names[i]} step {k}: {py} instead of {deg}; {what}')
            else:
                expect(same(gx, x), 'plot x', f'{names[i]} step {k}: {gx} instead of {list(x)}; {what}')
                expect(same(gy, y), 'plot y', f'{names[i]} step {k}: {gy} instead of {list(y)}; {what}')
    return 'plot'


CASES = {'table': table_case, 'lines': lines_case, 'clip': clip_case, 'values': values_case, 'log': log_case, 'measure': measure_case, 'raw': raw_case}


def go(rec, kind, case):
    out = rec.run([kind, case], CASES[kind], case)
    rec.case(f'{kind}: {out}')
    rec.step()
    rec.state([kind, case])
    rec.trace()


def run_job(job, rec):
    what, tier, k, n = job
    for i, (kind, case) in enumerate(space(what, tier)):
        if i % n == k:
            go(rec, kind, case)
            if i == k:
                rec.sample({'kind': kind, 'case': case})


def col_ids_of(cols):
    return [c for c in range(len(cols)) if cols[c] != 'model']


def space(what, tier):
    quick = tier == 'quick'
    if what == 'table':
        for cols in COLS:
            col_ids = col_ids_of(cols)
            for sep, eol, enc, last in itertools.product(SEPS, ('\n', '\r\n'), ('utf-8', 'utf-16-le'), (True, False)):
                for col in col_ids:
                    for conds in ([], [[cols[0], '>', '0']]):
                        yield 'table', [cols, 8, sep, eol, enc, last, conds, col, {'bins': 2}]
            single = [[c, op, v] for c in cols if c != 'model' for op in OPS for v in ('2', '-0.5', '3e-6')] + [[cols[0]]]
            if 'model' in cols:
                single += [['model', op, v] for op in ('==', '!=') for v in ("'bc547'", '"1N4148"')]
            for c in single:
                for col in col_ids if quick else col_ids:
                    yield 'table', [cols, 8, 'tab', '\n', 'utf-8', True, [c], col, {'bins': 1}]
            few = [c for c in single if len(c) == 1 or c[2] in ('2', "'bc547'") and (c[1] in ('>', '==', '!=', '<=') or not quick)]
            for a, b in itertools.product(few, few):
                for form in ([a, b], [['and', a, b]], [['or', a, b]]):
                    if quick and (a == b or len(form) == 1 and few.index(a) > few.index(b)):
                        continue
                    yield 'table', [cols, 8, 'tab', '\n', 'utf-8', True, form, col_ids[-1], {'bins': 1}]
        for cols in COLS:       # three conditions, in every order
            nums = [c for c in cols if c != 'model']
            for a, b in itertools.product(nums, nums):
                conds = [[nums[0], '>', '-1'], [a, '<', '1000'], [b, '>=', '1']]
                for order in itertools.permutations(range(3)):
                    yield 'table', [cols, 8, 'semi', '\n', 'utf-8', True, [conds[i] for i in order], col_ids_of(cols)[0], {'bins': 1}]
    elif what == 'values':
        for low, high, mid, sigma in itertools.product((0, 1, 2), (0, 1, 2), (5, 40), (None, 1, 2, 4)):
            body = [(k % 7) / 2 - 1.5 for k in range(mid)]
            values = [-50 - k for k in range(low)] + body + [60 + 3 * k for k in range(high)]
            for order in (values, values[::-1]):
                for nonorm in (True, False):
                    for bins in (1, 3, len(values)):
                        o = {'bins': bins, 'sigma': sigma, 'nonorm': nonorm}
                        yield 'values', [order, {k: v for k, v in o.items() if v is not None}]
    elif what == 'lines':
        top = 4 if quick else 5
        for n in range(1, top + 1):
            for kinds in itertools.product('vwemt', repeat=n):
                for cond in (None, ['a', '>', '0']):
                    if cond and quick and n == top:
                        continue
                    yield 'lines', [''.join(kinds), 'tab' if n % 2 else 'comma', '\n' if n % 3 else '\r\n', cond, {'bins': 1}]
    elif what == 'clip':
        top = 4 if quick else 5
        for n in range(1, top + 1):
            for kinds in itertools.product('vwesth', repeat=n):
                if quick and n == top and kinds[0] not in 'vet':
                    continue
                yield 'clip', [''.join(kinds), '\n' if n % 2 else '\r\n', None, {'bins': 1}]
                if n < top:
                    for named in itertools.product(range(3), SEPS):
                        if n < top - 1 or named == (1, 'tab') or named == (2, 'comma'):
                            yield 'clip', [''.join(kinds), '\n' if n % 2 == 0 else '\r\n', list(named), {'bins': 1}]
    elif what == 'log':
        for layout in STEPS:
            n = max(1, len(STEPS[layout]))
            pats = [''.join(p) for p in itertools.product('vF-', repeat=n)] if n <= (3 if quick else 4) else ['v' * n, 'v' * (n - 1) + 'F', 'F' + 'v' * (n - 1), 'vF' * (n // 2), 'v-' * (n // 2)]
            for p in pats:
                if not p.strip('F-'):
                    continue
                for trace in ('Vout_rms', 'gain', 'vout_rms_from', 'GAIN_at'):
                    for conds in conditions(layout):
                        if len(conds) == 2 and (p.strip('v') and quick or trace[0] in 'vG'):
                            continue
                        yield 'log', [layout, p, conds, trace, 'log', {'bins': 1}]
                for trace in ('vout_rms', 'gain_at'):
                    for c in ([], *([[v, op, t]] for v, t in {(v, t) for s in STEPS[layout] for v, t in s} if number(t) is not None for op in OPS),
                              [['gain', '>', '0']]):
                        c = [[x[0].lower(), *x[1:]] for x in c]
                        if not p.strip('v') or len(c) == 0 or c[0][1] == '>':
                            yield 'log', [layout, p, c, trace, 'tlog', {'bins': 1}]
    elif what == 'measure':
        for layout in STEPS:
            n = max(1, len(STEPS[layout]))
            pats = [''.join(p) for p in itertools.product('vF-', repeat=n)] if n <= 3 else ['v' * n, 'v' * (n - 1) + 'F', 'F' + 'v' * (n - 1), 'vF' * (n // 2), 'v-' * (n // 2)]
            picks = [None, *range(n), *(list(c) for k in range(1, min(n, 4) + 1) for c in itertools.permutations(range(n), k) if k < 3 or list(c) == sorted(c) or not quick)]
            opts = [{}, {'bins': 1}, {'bins': 7, 'nonorm': True}, {'sigma': 1, 'bins': 3}, {'sigma': 2.5, 'nonorm': True, 'title': 'a_b', 'bins': 4}, {'output': 'image.png', 'bins': 2}]
            for k, (p, steps, trace) in enumerate(itertools.product(pats, picks, ('Vout_rms', 'gain', 'vout_rms_from', 'GAIN_at'))):
                for o in opts if not quick else [opts[k % len(opts)]]:
                    yield 'measure', [layout, p, steps, trace, o]
    elif what == 'options':
        for sigma, bins, rng, nonorm in itertools.product((None, 1, 2, 6), (None, 1, 3, 8, 9, 20), (None, '-1:1', '0:2000', '-10:5', '1m:2', '1.5:4'), (False, True)):
            if rng == '1m:2':
                continue
            o = {'sigma': sigma, 'bins': bins, 'range': rng, 'nonorm': nonorm}
            o = {k: v for k, v in o.items() if v is not None}
            for col, n in ((0, 8), (1, 24)):
                yield 'table', [['a', 'b'], n, 'tab', '\n', 'utf-8', True, [], col, o]
                if quick and rng:
                    break
        for fmt, title, output, col in itertools.product((None, '%3.4f', '%g', '%e', '%.1f'), (None, 'My title', 'a_b'), (None, 'image.png', 'sub dir/x.png'), (0, 1, 2)):
            o = {'format': fmt, 'title': title, 'output': output, 'bins': 4}
            yield 'table', [['step', 'V(N001)', 'gain_db'], 8, 'semi', '\n', 'utf-8', True, [], col, {k: v for k, v in o.items() if v is not None}]
    elif what == 'raw':
        for layout in layouts():
            if layout.startswith('xy'):     # the script has no way to name the dialect
                continue
            lensets = [None] + ([] if '-op-' in layout or layout.startswith(('ng', 'xy')) else [[2, 2], [3, 3], [2, 3, 2]])
            for lens in lensets:
                for picks in ([], [0], [1], [2], [1, 2], [2, 1], [2, 0], [2, 1, 0]):
                    if '-op-' in layout or 0 not in picks or not quick:
                        for spread in (False, True) if lens else (False,):
                            if not spread or not quick or picks in ([1], [2, 1]):
                                yield 'raw', [layout, lens, picks, spread]


def jobs(tier):
    parts = {'table': 6, 'measure': 4, 'values': 2, 'lines': 4, 'clip': 6, 'log': 8, 'options': 2, 'raw': 16}
    return [[what, tier, k, n] for what, n in parts.items() for k in range(n)]


def replay(case, rec):
    CASES[case[0]](case[1])
