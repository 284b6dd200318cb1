"""C21: exports of waveforms contain what was read. All column and step selections over every layout, in every format."""
import contextlib
import csv
import io
import itertools
import os
import sys

from mc.core import Violation, scratch
from mc.rawfile import Plot, layouts, same, samples
from checks.c18_rawload import build as build18, write as write18, keys as keys18

PROPERTY = 'C21'
LEVEL = 'exploration'
RULE = ('every layout (stepped or not, aliases, operating point, names containing separators) x every ordered selection of up to 3 '
        'columns (axis given or not, other case) x every step selection x format (dictionary, CSV with 4 separators, raw_convert to '
        'text and to CSV) and pairs of exports in a row. Non-trivial: distinct (file, columns, steps, format).')
ASSUMPTIONS = ['pandas is not installed here: the CSV export without pandas is what is checked; spreadsheet export needs pandas and is '
               'not checked', 'the axis is put first when it was not asked for (documented)',
               'numbers in text exports are compared as numbers']


def build(key):
    if key == 'names|plain':
        return [Plot(names=['time', 'V(a,b)', 'V(c;d)', 'V(e f)'], cols=[[0.0, 1.5, 2.5]] + [samples(i, 3) for i in (1, 2, 3)])]
    if key.startswith('op|'):
        n = int(key[3:])
        return [Plot(names=['V(in)', 'V(out)', 'I(R1)'], plotname='Operating Point', flags='real', steps=[1] * n,
                     cols=[samples(i, n) for i in range(3)])]
    if key == 'convert|plain':
        return [Plot(names=['time', 'V(out)', 'I(R1)', 'V(r1)'], cols=[[0.0, 1.5, 2.5]] + [samples(i, 3) for i in (1, 2, 3)])]
    if key == 'convert|steps':
        return [Plot(names=['time', 'V(out)', 'I(R1)', 'out'], steps=[3, 2], cols=[[0.0, 1.5, 2.5, 0.0, 0.75]] + [samples(i, 5) for i in (1, 2, 3)])]
    return build18(key)


def keys():
    return [k for k in keys18('quick') if not k.startswith('two|')] + ['names|plain', 'op|1', 'op|3', 'convert|plain', 'convert|steps']


def jobs(tier):
    return [[tier, k, m] for k in keys() for m in (['export', 'csv'] + (['script'] if k.split('|')[0] in ('convert', 'names', 'lt-ac-normal', 'op') else []))]


def columns(names):
    out = [None]
    for r in (1, 2, 3):
        out += [list(c) for c in itertools.permutations(names, r)]
    out.append([names[-1].lower()])
    out.append([names[-1], names[-1]])
    out.append([names[-1].upper(), names[0]])
    return out


def find(p, name):
    n = p.all_names()
    return n.index(name) if name in n else [x.lower() for x in n].index(name.lower())


def expected(p, cols, sel):
    import numpy as np
    names = p.all_names()
    axis = [names[0]] if p.has_axis else []
    cs = names if cols is None else (axis if names[0] not in cols else []) + cols
    ks = list(range(len(p.steps or [0]))) if sel == -1 else [sel] if isinstance(sel, int) else sel
    out = {}
    for c in cs:
        i = find(p, c)
        out[c] = np.concatenate([p.step(i, k) if p.has_axis or p.steps else p.wave(i) for k in ks])
    return out


def selections(p):
    n = len(p.steps or [0])
    return [-1] + list(range(n)) + [list(range(n))] + ([[n - 1, 0], [1]] if n > 1 else [])


def judge(case, got, want, tol):
    import numpy as np
    if list(got) != list(want):
        raise Violation('columns', f'{case}: columns {list(got)}, expected {list(want)}')
    for c in want:
        a, b = np.asarray(got[c]), want[c]
        if not (same(a, b) or (tol and a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=0))):
            raise Violation('values', f'{case}: column {c} {a!r}, expected {b!r}')


def opened(path, p, mode):
    from spicelib import RawRead
    return RawRead(path, mode, dialect=p.dialect if not p.command else None, verbose=False)


def do_export(raw, p, key, cols, sel):
    given = list(cols) if cols is not None else None
    d = raw.export(columns=given, step=list(sel) if isinstance(sel, list) else sel)
    if given != cols:
        raise Violation('argument-changed', f'{key} {cols}: the list given by the caller became {given}')
    judge([key, cols, sel], d, expected(p, cols, sel), 1e-12)


def export_case(path, p, key, calls, mode):
    raw = opened(path, p, mode)
    for cols, sel in calls:
        do_export(raw, p, key, cols, sel)
    names = p.all_names()
    for i, n in enumerate(names):   # the loaded data is as it was
        for k in range(len(p.steps or [0])):
            want = p.step(i, k) if p.has_axis else p.wave(i)
            import numpy as np
            got = raw.get_wave(n, k)
            if not (same(got, want) or (np.shape(got) == want.shape and np.allclose(got, want, rtol=1e-12, atol=0))):
                raise Violation('data-changed', f'{key} {calls}: afterwards {n} step {k} = {got!r}, the file holds {want!r}')
    if p.has_axis and not same(raw.get_axis(), p.step(0, 0)):
        raise Violation('data-changed', f'{key} {calls}: axis {raw.get_axis()!r}')


def number(t):
    try:
        return float(t)
    except ValueError:
        return complex(t)


def parse(text, sep):
    rows = list(csv.reader(io.StringIO(text), delimiter=sep))
    rows = [r for r in rows if r]
    if any(len(r) != len(rows[0]) for r in rows):
        raise Violation('csv-shape', f'lines of {sorted({len(r) for r in rows})} columns: {rows[:3]}')
    return {c: [number(r[i]) for r in rows[1:]] for i, c in enumerate(rows[0])}


def csv_case(path, p, key, cols, sel, sep, mode):
    raw = opened(path, p, mode)
    out = os.path.join(scratch('o'), 'x.csv')
    raw.to_csv(out, columns=list(cols) if cols is not None else None, step=list(sel) if isinstance(sel, list) else sel, separator=sep)
    with open(out, newline='') as f:
        judge([key, cols, sel, sep], parse(f.read(), sep), expected(p, cols, sel), 1e-6 if any(p.kind(i) == 'f' for i in range(len(p.names))) else 1e-12)


def script_case(path, p, key, traces, sep, target):
    from spicelib.scripts import raw_convert
    out = os.path.join(scratch('o'), 'y.csv')
    if os.path.exists(out):
        os.remove(out)
    argv = ['raw_convert'] + (['-s', sep] if sep else []) + (['-o', out] if target == 'file' else []) + [path] + list(traces)
    buf = io.StringIO()
    old = sys.argv
    sys.argv = argv
    code = None
    try:
        with contextlib.redirect_stdout(buf):
            raw_convert.main()
    except SystemExit as e:
        code = e.code
    finally:
        sys.argv = old
    names = p.names
    found = []
    for t in traces:
        for c in (t, f'V({t})', f'I({t})'):
            if c in names:
                found.append(c)
                break
    if traces and not found:
        if code in (0, None):
            raise Violation('script-missing', f'{argv}: none of the traces exists, exit code {code}')
        return
    if code not in (0, None):
        raise Violation('script-failed', f'{argv}: exit code {code}: {buf.getvalue()[:300]}')
    cols = found if traces else None
    want = expected(p, cols, -1)
    if target == 'file':
        text = open(out, newline='').read()
    else:
        lines = buf.getvalue().splitlines(keepends=True)
        at = next((i for i, x in enumerate(lines) if x.rstrip('\r\n') == (sep or '\t').join(want)), None)
        if at is None:
            raise Violation('script-columns', f'{argv}: no line with the columns {list(want)} in {buf.getvalue()[:300]!r}')
        n = len(next(iter(want.values())))
        text = ''.join(lines[at:at + n + 1])
        if ''.join(lines[at + n + 1:]).strip():
            raise Violation('script-lines', f'{argv}: more than {n} lines: {lines[at + n + 1:]}')
    judge([key, argv[1:-1 - len(traces)], traces], parse(text, sep or '\t'), want, 1e-6)


def run_job(job, rec):
    tier, key, fmt = job
    plots = build(key)
    p = plots[0]
    d = scratch('d')
    path = write18(plots, d)
    names = p.all_names()
    sels = selections(p)
    if fmt == 'export':
        all_calls = [(c, s) for c in columns(names) for s in sels]
        for mode in (None, '*'):
            for a in all_calls:
                case = ['export', key, [a], mode]
                rec.run(case, export_case, path, p, key, [a], mode)
                rec.case('export')
                rec.state(case)
        short = [(c, s) for c in columns(names)[:2 + len(names) * (1 if tier == 'quick' else 3)] for s in sels[:4]]
        for a in short:
            for b in short:
                case = ['export', key, [a, b], None]
                rec.run(case, export_case, path, p, key, [a, b], None)
                rec.case('two exports')
                rec.state(case)
    elif fmt == 'csv':
        for c in columns(names)[:None if tier != 'quick' else 12]:
            for s in sels:
                for sep in (',', ';', '\t', ' '):
                    case = ['csv', key, c, s, sep, None]
                    rec.run(case, csv_case, path, p, key, c, s, sep, None)
                    rec.case('csv')
                    rec.state(case)
    else:
        short = sorted({n[2:-1] for n in p.names if n[1:2] == '('})
        pool = names + [x for x in short if x not in names] + ['nosuch']
        for r in (0, 1, 2):
            for traces in itertools.permutations(pool, r):
                for sep in (None, ';'):
                    for target in ('print', 'file'):
                        if target == 'print' and sep == ';' and key == 'names|plain':
                            continue
                        case = ['script', key, list(traces), sep, target]
                        rec.run(case, script_case, path, p, key, list(traces), sep, target)
                        rec.case('script ' + target)
                        rec.state(case)
    rec.sample({'case': case})


def replay(case, rec):
    plots = build(case[1])
    path = write18(plots, scratch('d'))
    {'export': export_case, 'csv': csv_case, 'script': script_case}[case[0]](path, plots[0], *case[1:])
