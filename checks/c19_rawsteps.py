"""C19: steps partition the data of a RAW file. Every composition of a bounded number of points into steps."""
import itertools
import os

from mc.core import Violation, scratch
from mc.rawfile import Plot, same, samples

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = ('every composition of 1..6 (thorough 8) points into steps x axis shape (time from 0, time from later, time with negative '
        'signs, frequency decades, ascending and descending sweeps, unordered list, varying start) x simulator x storage layout x '
        'step information (log with one or two parameters and every value type, log without end of line, no log); all accesses of '
        'all steps, all queries over the parameter values. Non-trivial: distinct stepped files read.')
ASSUMPTIONS = ['each step has its points in one direction, or, when they are in no order, starts at the same value and does not '
               'come back to it; steps that start at different values have at least two points each and need the log',
               'when the steps cannot be told from the axis, refusing the file is accepted',
               'the log describes as many steps as the file holds']

SHAPES = ['time', 'late', 'neg', 'freq', 'noise', 'up', 'down', 'list', 'starts', 'startsdown']
INFO = ['one', 'two', 'text', 'eng', 'noeol', 'none']
LAYOUT = {'lt': ['normal', 'fast', 'ascii', 'double'], 'qs': ['normal', 'ascii']}


def compositions(n):
    for bars in itertools.product((0, 1), repeat=n - 1):
        out, c = [], 1
        for b in bars:
            if b:
                out.append(c)
                c = 1
            else:
                c += 1
        yield out + [c]


def axis(shape, lens):
    out = []
    for s, m in enumerate(lens):
        for i in range(m):
            out.append({'time': i * 0.25, 'late': 1e-3 + i * (0.25 + s), 'neg': (i * 0.25) * (-1) ** (i // 2), 'freq': 10.0 ** i,
                        'noise': 10.0 ** i, 'up': -1 + i * 0.5 * (s + 1), 'down': 2 - i * 0.5 * (s + 1),
                        'list': [1.0, 5.0, 3.0, 4.0, 0.5, 7.0, 2.0, 9.0][i], 'starts': (s * 7) % 3 + i * 0.5,
                        'startsdown': (s * 2) % 3 - i * 0.5}[shape])
    return out


def make(sim, layout, shape, lens):
    n = sum(lens)
    ac = shape == 'freq'
    time = shape in ('time', 'late', 'neg')
    name = 'time' if time else ('Frequency' if sim == 'qs' else 'frequency') if shape in ('freq', 'noise') else 'v1'
    return Plot(dialect='ltspice' if sim == 'lt' else 'qspice', names=[name, 'V(out)', 'I(R1)'],
                plotname='Transient Analysis' if time else 'AC Analysis' if ac else
                'Noise Spectral Density' if shape == 'noise' else 'DC transfer characteristic',
                cols=[axis(shape, lens), samples(1, n, ac), samples(2, n, ac)], flags='complex forward log' if ac else 'real forward',
                ascii=layout == 'ascii', fast=layout == 'fast', double=layout == 'double',
                encoding='utf_8' if sim == 'qs' or layout == 'ascii' else 'utf_16_le', steps=lens,
                aliases=[('I(R2)', '(0.5mho*V(out,0))', [0.5 * x for x in samples(1, n, ac)])] if sim == 'qs' else [])


def stepinfo(info, n):
    """[(text of the log, reference dict)] of each step."""
    if info in ('one', 'noeol'):
        return [(f'a={10 + k}', {'a': 10 + k}) for k in range(n)]
    if info == 'two':
        return [(f'a={k // 2} temp={25 + (k % 2)}', {'a': k // 2, 'temp': 25 + (k % 2)}) for k in range(n)]
    if info == 'text':
        return [(f'm=mod{"abc"[k % 3]} r=1', {'m': f'mod{"abc"[k % 3]}', 'r': 1}) for k in range(n)]
    if info == 'eng':
        return [(f'c=1.5e-0{k + 1} b={-k}.5', {'c': float(f'1.5e-0{k + 1}'), 'b': float(f'{-k}.5')}) for k in range(n)]
    return None


def write(plot, info, d):
    sim = plot.dialect
    path = os.path.join(d, 'f.raw' if sim == 'ltspice' else 'f.qraw')
    with open(path, 'wb') as f:
        f.write(plot.bytes())
    log = os.path.join(d, 'f.log')
    if os.path.exists(log):
        os.remove(log)
    si = stepinfo(info, len(plot.steps))
    if si:
        n = len(si)
        with open(log, 'w') as f:
            if sim == 'qspice':
                text = ''.join(f'{k + 1} of {n} steps:  .step {t}\n' for k, (t, _) in enumerate(si)) + '\n'
            else:
                text = 'Circuit: * test\n\n' + ''.join(f'.step {t}\n' for t, _ in si) + '\nDate: today\n'
            if info == 'noeol':
                text = text[:text.rindex('=') + 3]
            f.write(text)
    return path, ([r for _, r in si] if si else [{'run': k + 1} for k in range(len(plot.steps))])


def check(case):
    import numpy as np
    from spicelib import RawRead
    from spicelib.raw.raw_classes import SpiceReadException
    sim, layout, shape, info, lens, lazy = case
    plot = make(sim, layout, shape, lens)
    path, ref = write(plot, info, scratch('d'))
    may_refuse = shape in ('starts', 'startsdown') and len(lens) > 1
    try:
        raw = RawRead(path, None if lazy else '*', verbose=False)
        raw.get_axis(0)
    except SpiceReadException:
        if may_refuse:
            return 'refused'
        raise
    if len(lens) != len(raw.get_steps()) or list(raw.get_steps()) != list(range(len(lens))):
        raise Violation('steps', f'{case}: steps {list(raw.get_steps())}, the file holds {len(lens)}')
    if [dict(s) for s in raw.steps] != ref:
        raise Violation('step-info', f'{case}: {raw.steps}, the log says {ref}')
    names = plot.all_names()
    order = range(len(names)) if not lazy else reversed(range(len(names)))
    for i in order:
        t = raw.get_trace(names[i])
        for k, m in enumerate(lens):
            want = plot.step(i, k)
            for how, got in (('trace.get_wave', t.get_wave(k)), ('raw.get_wave', raw.get_wave(names[i], k))):
                if not same(got, want):
                    raise Violation('wave', f'{case}: {how}({names[i]}, {k}) = {np.asarray(got)!r}, step holds {want!r}')
            if t.get_len(k) != m:
                raise Violation('length', f'{case}: {names[i]}.get_len({k}) = {t.get_len(k)}, step has {m} points')
            if not same([t.get_point(j, k) for j in range(m)], want):
                raise Violation('point', f'{case}: points of {names[i]} step {k}: {[t.get_point(j, k) for j in range(m)]}, not {want!r}')
            try:
                got = t.get_point(m, k)
            except IndexError:
                pass
            else:
                raise Violation('point-beyond', f'{case}: get_point({m}, {k}) of {names[i]} gives {got!r} of another step')
    for k, m in enumerate(lens):
        if raw.get_len(k) != m or not same(raw.get_axis(k), plot.step(0, k)):
            raise Violation('axis', f'{case}: axis of step {k}: {raw.get_len(k)} {raw.get_axis(k)!r}, expected {plot.step(0, k)!r}')
        if shape not in ('list', 'neg'):
            lookup(case, raw, plot, k)
    queries(case, raw, ref)
    exports(case, raw, plot, lens)
    return f'{sim} {shape} {info} {len(lens)}'


def lookup(case, raw, plot, k):
    x, y = plot.step(0, k).real, plot.step(1, k)
    t = raw.get_trace(plot.names[1])
    for j in range(len(x)):
        if t.get_point_at(x[j], k) != y[j]:
            raise Violation('lookup', f'{case}: at {x[j]} of step {k}: {t.get_point_at(x[j], k)!r}, step holds {y[j]!r}')
        if j + 1 < len(x):
            for f in (0.25, 0.5):
                at = x[j] + f * (x[j + 1] - x[j])
                got, want = t.get_point_at(at, k), y[j] + f * (y[j + 1] - y[j])
                if abs(got - want) > 1e-5 * (abs(y[j]) + abs(y[j + 1])):
                    raise Violation('lookup', f'{case}: at {at} of step {k}: {got!r}, expected about {want!r}')
    d = -1 if len(x) > 1 and x[1] < x[0] else 1
    for at in (x[0] - d, x[-1] + d):
        if plot.names[0] == 'time' and at < 0:
            continue
        if len(x) == 1 and d:
            pass
        try:
            got = t.get_point_at(at, k)
        except IndexError:
            continue
        raise Violation('lookup-outside', f'{case}: at {at}, outside of step {k}: {got!r}')


def queries(case, raw, ref):
    keys = list(ref[0])
    for r in range(len(keys) + 1):
        for ks in itertools.combinations(keys, r):
            for vals in itertools.product(*[sorted({str(s[k]): s[k] for s in ref}.values(), key=str) + [-99] for k in ks]):
                q = dict(zip(ks, vals))
                want = [i for i, s in enumerate(ref) if all(s[k] == v for k, v in q.items())]
                if list(raw.get_steps(**q)) != want:
                    raise Violation('query', f'{case}: get_steps({q}) = {list(raw.get_steps(**q))}, expected {want}')
    if list(raw.get_steps(nosuch=1)) != []:
        raise Violation('query', f'{case}: a parameter that does not exist matches')


def exports(case, raw, plot, lens):
    import numpy as np
    n = len(lens)
    sels = [-1] + list(range(n)) + [list(range(n))] + ([[n - 1, 0]] if n > 1 else [])
    for sel in sels:
        ks = list(range(n)) if sel == -1 else [sel] if isinstance(sel, int) else sel
        d = raw.export(step=list(sel) if isinstance(sel, list) else sel)
        for i, name in enumerate(plot.all_names()):
            want = np.concatenate([plot.step(i, k) for k in ks])
            if not same(d[name], want):
                raise Violation('export', f'{case}: export(step={sel})[{name}] = {d[name]!r}, expected {want!r}')


def op_case(sim, n, info, lazy):
    """Stepped operating point: no axis, one point per step."""
    from spicelib import RawRead
    plot = Plot(dialect='ltspice' if sim == 'lt' else 'qspice', names=['V(in)', 'V(out)'], plotname='Operating Point',
                cols=[samples(1, n), samples(2, n)], flags='real', steps=[1] * n, encoding='utf_8' if sim == 'qs' else 'utf_16_le')
    path, ref = write(plot, info, scratch('d'))
    raw = RawRead(path, None if lazy else '*', verbose=False)
    if list(raw.get_steps()) != list(range(n)) or [dict(s) for s in raw.steps] != ref:
        raise Violation('steps', f'operating point of {n} steps: {raw.steps}')
    queries(['op', sim, n, info, lazy], raw, ref)
    for i, name in enumerate(plot.names):
        got = [raw.get_trace(name).get_point(0, k) for k in range(n)]
        if not same(got, plot.wave(i)):
            raise Violation('op-point', f'{name}: {got}, the file holds {plot.wave(i)!r}')
        for k in range(n):
            if not same(raw.export(step=k)[name], plot.wave(i)[k:k + 1]):
                raise Violation('op-export', f'export(step={k})[{name}] = {raw.export(step=k)[name]!r}, expected {plot.wave(i)[k:k + 1]!r}')
        if not same(raw.export()[name], plot.wave(i)):
            raise Violation('op-export', f'export()[{name}] = {raw.export()[name]!r}')
    return f'op {n}'


def allowed(shape, lens, info):
    if shape in ('starts', 'startsdown'):
        return info != 'none' and all(m >= 2 for m in lens)
    if shape == 'list':
        return True
    return True


def jobs(tier):
    n = 6 if tier == 'quick' else 8
    return [[sim, lay, shape, info, n] for sim in LAYOUT for lay in LAYOUT[sim] for shape in SHAPES for info in INFO] + \
        [['op', sim, n, info] for sim in LAYOUT for info in INFO]


def run_job(job, rec):
    if job[0] == 'op':
        _, sim, n, info = job
        for m in range(1, n + 1):
            for lazy in (0, 1):
                case = ['op', sim, m, info, lazy]
                rec.case(rec.run(case, op_case, *case[1:]))
                rec.state(case)
        return
    sim, lay, shape, info, n = job
    for m in range(1, n + 1):
        for lens in compositions(m):
            if not allowed(shape, lens, info):
                continue
            for lazy in (0, 1):
                case = [sim, lay, shape, info, lens, lazy]
                out = rec.run(case, check, case)
                rec.case(out)
                if out != 'refused':
                    rec.state(case)
            rec.sample({'file': case})


def replay(case, rec):
    if case[0] == 'op':
        op_case(*case[1:])
    else:
        check(case)
