"""C18: the content of a RAW file does not depend on how it is loaded. All short access histories on every layout."""
import itertools
import os

from mc import rawheader
from mc.core import Violation, scratch
from mc.rawfile import Plot, layouts, same, samples

PROPERTY = 'C18'
LEVEL = 'model_checking'
RULE = ('every storage layout (simulators x binary normal/fast, ASCII, single/double/complex, stepped or not, aliases, two plots) x '
        'every way of opening (header only, *, each subset of the traces, as list, tuple or text) x every sequence of up to 2 '
        '(thorough 3) accesses; after each access the answer, and at the end every trace, is compared with the reference values. '
        'States: (layout, set of traces already read, last access).')
ASSUMPTIONS = ['files are written by an independent writer following doc/varia/raw_file.rst',
               'time samples are delivered as absolute values (documented workaround)',
               'trace names do not differ only by case']


def build(key):
    """-> list of plots of the file named by key."""
    name, variant = key.split('|')
    if name == 'two':
        ls = layouts()
        a, b = variant.split('+')
        return [ls[a](3), ls[b](2)]
    if name == 'qs-alias':
        p = layouts()['qs-tran-ascii' if variant == 'ascii' else 'qs-tran-normal'](4, steps=[2, 2] if variant == 'steps' else None)
        p.names = ['Time', 'V(n01)', 'V(out)']
        a, b = p.cols[1], p.cols[2]
        if variant == 'params':
            p.names = ['Time', 'V(n01)', 'I(R3)']
            p.params = ['R=2K', 'gain=1.5m', 'temp = 27']
            p.aliases = [('V(b)', '(50ohm*I(R3))', [50 * y for y in b]), ('I(R2)', '(V(n01)/R)', [x / 2000 for x in a]),
                         ('I(R4)', '(gain*V(0,n01))', [-1.5e-3 * x for x in a]), ('P(R3)', 'V(n01)*I(R3)', [x * y for x, y in zip(a, b)]),
                         ('v2', '2*pi*V(n01,0)+temp', [2 * 3.1415926536 * x + 27 for x in a])]
            return [p]
        if variant in ('dots', 'bullets', 'signs'):    # names inside of blocks, and of nodes with other characters
            x, y = {'dots': ('x1.n01', 'x1.x2.out'), 'bullets': ('n01•X1', 'out•X2•X1'), 'signs': ('n-1', 'n+1')}[variant]
            p.names = ['Time', f'V({x})', f'V({y})']
            p.aliases = [('I(R2)', f'(0.001mho*V({x},{y}))', [0.001 * (x - y) for x, y in zip(a, b)]),
                         (f'I(R1•{x})', f'(0.5mho*V(0,{y}))', [0.5 * -x for x in b]), ('I(R3)', f'(2mho*V({x},0)-V({y}))', [2 * x - y for x, y in zip(a, b)])]
            return [p]
        p.aliases = [('I(R2)', '(0.001mho*V(n01,out))', [0.001 * (x - y) for x, y in zip(a, b)]),
                     ('I(R1)', '(0.5mho*V(0,n01))', [0.5 * -x for x in a])]
        return [p]
    if name == 'qs-dc-alias':      # what is swept has the name of a part of a node
        p = layouts()['qs-dc-normal'](3)
        p.names = ['V1', 'V(nV1)', 'V(R1)']
        p.aliases = [('I(R1)', '(0.5mho*V(nV1,R1))', [0.5 * (x - y) for x, y in zip(p.cols[1], p.cols[2])]), ('I(R2)', '(2mho*V(0,nV1))', [-2 * x for x in p.cols[1]]),
                     ('twice', '2*V1', [2 * x for x in p.cols[0]])]
        return [p]
    if name == 'qs-ac-alias':
        p = layouts()['qs-ac-normal'](3)
        p.names = ['Frequency', 'V(n01)', 'V(out)']
        p.aliases = [('Freq', 'Frequency', list(p.cols[0])),
                     ('Omega', '2*pi*Frequency', [2 * 3.1415926536 * x for x in p.cols[0]]),
                     ('I(R1)', '(0.01mho*V(n01,0))', [0.01 * x for x in p.cols[1]])]
        return [p]
    if variant == 'neg':   # LTspice sometimes writes negative times
        p = layouts()[name](4)
        p.cols[0] = [(-v if k == 2 else v) for k, v in enumerate(p.cols[0])]
        return [p]
    return [layouts(extra=3 if variant == '3' else 2)[name](4, steps=[2, 2] if variant == 'steps' else None)]


def keys(tier):
    out = []
    for n in layouts():
        out.append(f'{n}|plain')
        if '-op-' not in n and n[:2] in ('lt', 'qs'):
            out.append(f'{n}|steps')
        if '-tran-' in n and n.startswith('lt'):
            out.append(f'{n}|neg')
        if tier != 'quick':
            out.append(f'{n}|3')
    out += ['qs-alias|plain', 'qs-alias|steps', 'qs-alias|ascii', 'qs-alias|params', 'qs-alias|dots', 'qs-alias|bullets', 'qs-alias|signs', 'qs-dc-alias|plain', 'qs-ac-alias|plain']
    out += ['two|' + a + '+' + b for a, b in
            [('ng-tran-normal', 'ng-op-normal'), ('ng-ac-normal', 'ng-dc-normal'), ('ng-ac-ascii', 'ng-ac-ascii'),
             ('xy-tran-ascii', 'xy-tran-ascii'), ('lt-tran-fast', 'lt-tran-fast'), ('ng-op-normal', 'ng-tran-normal')]]
    return out


def jobs(tier):
    return [[tier, k] for k in keys(tier)] + [[tier, ['header', n]] for n in rawheader.LAYOUTS]


def close(a, b, exact):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    return same(a, b) if exact else a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0)


def openings(names):
    out = [None, '*']
    for r in range(0, len(names) + 1):
        for s in itertools.combinations(names, r):
            out.append(list(s))
    out += [tuple(names[-1:]), ','.join(names[1:]), list(reversed(names)), [n.upper() for n in names[-1:]], names[-1].lower()]
    return out


def accesses(plots):
    p = plots[0]
    n = p.all_names()
    ops = [['get', i] for i in range(len(n))] + [['upper', i] for i in range(len(n))] + [['lower', len(n) - 1]]
    ops += [['index', i] for i in range(len(p.names))]
    ops += [['axis'], ['len'], ['axisprop'], ['export'], ['exportcols', len(n) - 1], ['points', len(n) - 1], ['names'], ['missing'],
            ['read', 0], ['read', len(n) - 1], ['item', 0], ['item', len(n) - 1], ['iter', 0], ['iter', len(n) - 1]]
    if p.steps:
        ops += [['step', 0, 1], ['step', len(n) - 1, 1], ['exportstep', 1]]
    if len(plots) > 1:
        ops += [['second', i] for i in range(len(plots[1].names))]
    return ops


def expect_wave(p, i, k=0):
    return p.step(i, k) if p.has_axis else p.wave(i)


def act(raw, plots, op):
    import numpy as np
    p = plots[0]
    n = p.all_names()
    exact = lambda i: i < len(p.names)  # noqa: E731

    def check(i, got, k=0):
        if not close(got, expect_wave(p, i, k), exact(i)):
            raise Violation('values', f'{op}: {n[i]} gives {np.asarray(got)!r}, the file holds {expect_wave(p, i, k)!r}')
    kind = op[0]
    if kind == 'get':
        t = raw.get_trace(n[op[1]])
        check(op[1], t.get_wave())
        kinds = {'V': 'voltage', 'I': 'current'}
        said = p.types[op[1]] if exact(op[1]) else kinds.get(n[op[1]][0]) if '(' in n[op[1]] else None
        if t.name != n[op[1]] or said and t.whattype != said:
            raise Violation('trace', f'{op}: trace {t.name!r} of {t.whattype!r}, the file has {n[op[1]]!r} of {said!r}')
    elif kind == 'upper':
        check(op[1], raw.get_wave(n[op[1]].upper()))
    elif kind == 'lower':
        check(op[1], raw.get_wave(n[op[1]].lower()))
    elif kind == 'index':
        check(op[1], raw.get_wave(op[1]))
    elif kind == 'step':
        check(op[1], raw.get_wave(n[op[1]], op[2]), op[2])
    elif kind in ('axis', 'axisprop'):
        if p.has_axis:
            check(0, raw.get_axis() if kind == 'axis' else raw.axis.get_wave())
        else:
            try:
                got = raw.get_axis() if kind == 'axis' else raw.axis
            except RuntimeError:
                got = None
            if got is not None:
                raise Violation('axis', f'plot without axis returns {got!r}')
    elif kind == 'len':
        want = p.npoints if not p.has_axis else len(p.step(0, 0))
        if raw.get_len() != want:
            raise Violation('length', f'get_len() = {raw.get_len()}, expected {want}')
    elif kind in ('export', 'exportcols', 'exportstep'):
        cols = None if kind != 'exportcols' else [n[op[1]]]
        steps = list(range(len(p.steps or [0]))) if kind != 'exportstep' else [op[1]]
        d = raw.export(columns=cols, step=op[1] if kind == 'exportstep' else -1)
        names = n if cols is None else ([n[0]] if p.has_axis and cols[0] != n[0] else []) + cols
        if list(d) != names:
            raise Violation('export-names', f'{op}: columns {list(d)}, expected {names}')
        for name in names:
            i = n.index(name)
            want = np.concatenate([expect_wave(p, i, k) for k in steps])
            if not close(d[name], want, exact(i)):
                raise Violation('export-values', f'{op}: column {name} {d[name]!r}, expected {want!r}')
    elif kind == 'points':
        t = raw.get_trace(n[op[1]])
        w = expect_wave(p, op[1])
        got = [t.get_point(k) for k in range(len(w))]
        check(op[1], got)
    elif kind in ('item', 'iter'):
        t = raw.get_trace(n[op[1]])
        if p.steps:   # refused, as it is not known which step is meant
            try:
                got = t[0] if kind == 'item' else next(iter(t))
            except AssertionError:
                got = None
            if got is not None and (kind == 'item' or op[1] == 0):
                raise Violation('stepped-item', f'{op}: answered {got!r} for stepped data')
        else:
            w = expect_wave(p, op[1])
            if len(t) != len(w):
                raise Violation('length', f'{op}: len() = {len(t)}, the file holds {len(w)}')
            check(op[1], [t[k] for k in range(len(w))] if kind == 'item' else list(t))
            if kind == 'item':
                check(op[1], t[:])
                check(op[1], [t[k - len(w)] for k in range(len(w))])
    elif kind == 'names':
        if raw.get_trace_names() != n:
            raise Violation('names', f'{raw.get_trace_names()} != {n}')
    elif kind == 'missing':
        try:
            raw.get_trace('V(not there)')
        except IndexError:
            pass
        else:
            raise Violation('missing', 'a trace that is not there was found')
    elif kind == 'read':
        raw.plots[0].read_trace_data([n[op[1]]])
    elif kind == 'second':
        q = plots[1]
        got = raw.plots[1].get_wave(q.names[op[1]])
        if not same(got, expect_wave(q, op[1])):
            raise Violation('second-plot', f'{q.names[op[1]]}: {got!r}, the file holds {expect_wave(q, op[1])!r}')
    else:
        raise AssertionError(op)


def final(raw, plots):
    act(raw, plots, ['names'])
    for i in reversed(range(len(plots[0].all_names()))):
        for k in range(len(plots[0].steps or [0])):
            act(raw, plots, ['step', i, k])
    act(raw, plots, ['axis'])
    if raw.get_nr_plots() != len(plots):
        raise Violation('plots', f'{raw.get_nr_plots()} plots, the file holds {len(plots)}')
    for i in range(len(plots[1].names) if len(plots) > 1 else 0):
        act(raw, plots, ['second', i])


def write(plots, d):
    ext = '.qraw' if plots[0].dialect == 'qspice' else '.raw'
    path = os.path.join(d, 'f' + ext)
    with open(path, 'wb') as f:
        f.write(b''.join(p.bytes() for p in plots))
    if plots[0].steps:
        n = len(plots[0].steps)
        with open(os.path.join(d, 'f.log'), 'w') as f:
            if plots[0].dialect == 'qspice':
                f.write(''.join(f'{k + 1} of {n} steps:  .step a={k + 1}\n' for k in range(n)))
            else:
                f.write('Circuit: * test\n\n' + ''.join(f'.step a={k + 1}\n' for k in range(n)) + '\nDate: x\n')
    return path


def one(path, plots, opening, seq):
    from spicelib import RawRead
    given = list(opening) if isinstance(opening, list) else opening
    dialect = plots[0].dialect if not plots[0].command else None
    raw = RawRead(path, given, dialect=dialect, verbose=False)
    if isinstance(opening, list) and given != opening:
        raise Violation('argument-changed', f'the list of traces became {given}')
    for op in seq:
        act(raw, plots, op)
    final(raw, plots)


def run_job(job, rec):
    tier, key = job
    if isinstance(key, list):
        for case in rawheader.cases(key[1], tier):
            out = rec.run(['header', case], rawheader.check, case)
            rec.case(out)
            rec.state(case)
            rec.step()
            rec.trace()
        return
    plots = build(key)
    path = write(plots, scratch('d'))
    ops = accesses(plots)
    depth = 2 if tier == 'quick' else 3
    for o, opening in enumerate(openings(plots[0].names)):
        for d in range(depth + 1):
            if d == 3 and o not in (0, 1, 3, 5):
                continue
            for seq in itertools.product(ops, repeat=d):
                case = [key, opening, list(seq)]
                rec.run(case, one, path, plots, opening, seq)
                rec.case(f'{key} {len(seq)}')
                rec.step(d)
                rec.trace()
                read = frozenset(str(s[1:]) for s in seq)
                rec.state([key, opening if not isinstance(opening, tuple) else list(opening), sorted(read), seq[-1] if seq else None])
    rec.sample({'file': key, 'opening': opening, 'accesses': list(seq)})


def replay(case, rec):
    if case[0] == 'header':
        rawheader.check(case[1])
        return
    key, opening, seq = case
    plots = build(key)
    one(write(plots, scratch('d')), plots, opening, seq)
