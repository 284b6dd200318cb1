"""C27: merging waveform files keeps samples aligned. All pairs of small axes, all merge options, all short import histories."""
import itertools
import os
from fractions import Fraction as F

from mc import gather
from mc.core import Violation, scratch
from mc.rawfile import Plot

PROPERTY = 'C27'
LEVEL = 'model_checking'
RULE = ('every pair (and triples over a smaller grid) of axes that are subsets of a grid of 5 (thorough 6) positions x analysis '
        '(transient, AC with complex axis, descending sweep, noise) x aligned / not aligned x step of the source x destination made of '
        'traces or of an earlier import; the saved file is read and each sample is compared with the source at the same position '
        '(exact linear interpolation between source samples), the axis with the union of both over the common range. '
        'every sequence of up to 3 (thorough 4) of imports (same axis, other axis, other steps, '
        'other kind of analysis, missing trace, no trace), traces of the user and saves. States: (axes already imported, options).')
ASSUMPTIONS = ['positions nearer to each other than admissible_error, or than rounding, count as the same position',
               'outside of the range that is common to the axes there is nothing to align: those points are left out, and axes without '
               'common range are refused', 'exact comparison within single precision of the largest neighbouring sample']

GRID = {'tran': [0.0, 1e-3, 2.5e-3, 3e-3, 7e-3, 8e-3], 'ac': [10.0, 100.0, 1e3, 1e4, 1e5, 1e6], 'down': [5.0, 4.0, 2.5, 1.0, -1.0, -2.0],
        'noise': [1.0, 2.0, 5.0, 10.0, 100.0, 200.0]}


def axes(n, sizes):
    return [list(c) for r in sizes for c in itertools.combinations(range(n), r)]


FLAGS = {'ac': 'complex forward log', 'tran': 'real forward', 'down': 'real', 'noise': 'real log'}


def source(kind, idx, seed, steps=None, grid=None):
    pos = [GRID[grid or kind][i] for s in (steps or [idx]) for i in s]
    cplx = kind == 'ac'
    val = [((k * 7 + seed * 5) % 11) - 4 + seed * 0.5 for k in range(len(pos))]
    val2 = [((k * 3 + seed * 2) % 13) * 0.25 + 1 for k in range(len(pos))]
    if cplx:
        val = [complex(a, b) for a, b in zip(val, val2)]
    return Plot(names=[{'tran': 'time', 'ac': 'frequency', 'down': 'v1', 'noise': 'frequency'}[kind], 'V(out)', 'I(R1)'],
                plotname={'tran': 'Transient Analysis', 'ac': 'AC Analysis', 'down': 'DC transfer characteristic',
                          'noise': 'Noise Spectral Density - (V/Hz½ or A/Hz½)'}[kind],
                flags=FLAGS[kind], steps=[len(s) for s in steps] if steps else None,
                types=['time' if kind == 'tran' else 'frequency' if kind != 'down' else 'voltage', 'voltage', 'device_current'],
                cols=[pos, val, [complex(v, -1) for v in val2] if cplx else val2])


def put(plot, name):
    path = os.path.join(scratch('d'), name + '.raw')
    with open(path, 'wb') as f:
        f.write(plot.bytes())
    log = path[:-4] + '.log'
    if os.path.exists(log):
        os.remove(log)
    if plot.steps:
        with open(log, 'w') as f:
            f.write('Circuit: * t\n\n' + ''.join(f'.step a={k}\n' for k in range(len(plot.steps))) + '\nDate:\n')
    return path


def interp(xs, ys, x):
    """Exact linear interpolation; None outside of the range."""
    xs = [F(float(complex(v).real)) for v in xs]
    x = F(float(x))
    if xs[0] > xs[-1]:
        xs, ys = xs[::-1], ys[::-1]
    for i, v in enumerate(xs):
        if v == x:
            return complex(ys[i])
    for i in range(len(xs) - 1):
        if xs[i] < x < xs[i + 1]:
            f = float((x - xs[i]) / (xs[i + 1] - xs[i]))
            return complex(ys[i]) + f * (complex(ys[i + 1]) - complex(ys[i]))
    return None


def snapshot(raw):
    return [(n, raw.get_trace(n).name, [raw.get_wave(n, k).tolist() for k in raw.get_steps()]) for n in raw.get_trace_names()]


def check(case):
    """case = [kind, base, imports]; base = None | axis indexes (traces made by the user); imports = [[idx or steps, step, force, rename]]"""
    import numpy as np
    from spicelib import RawWrite, RawRead, Trace
    kind, base, imports = case
    w = RawWrite(fastacces=len(imports) % 2 == 0)
    want = []      # (name, positions, values)
    cur = None     # axis of the result, as grid positions
    if base is not None:
        p = source(kind, base, 9)
        x = p.cols[0]
        w.add_trace(Trace(p.names[0], np.array(x, dtype=complex) if kind == 'ac' else np.array(x), whattype=p.types[0],
                          numerical_type='complex' if kind == 'ac' else 'double'))
        w.add_trace(Trace('V(base)', list(p.cols[1]), whattype='voltage', numerical_type='complex' if kind == 'ac' else 'real'))
        want.append(('V(base)', x, p.cols[1]))
        cur = list(x)
    outcome = []
    for n, (idx, step, force, rename) in enumerate(imports):
        steps = idx if isinstance(idx[0], list) else None
        p = source(kind, idx, n + 1, steps)
        other = RawRead(put(p, f's{n}'), '*', verbose=False)
        before = snapshot(other)
        kw = dict(force_axis_alignment=force)
        if step:
            kw['step'] = step
        names = ['V(out)', 'I(R1)']
        if rename == 'tag':
            kw['add_tag'] = f't{n}'
            new = [f'V(out_t{n})', f'I(R1_t{n})']
        else:
            kw['rename_format'] = '{}_' + str(n)
            new = [f'V(out_{n})', f'I(R1_{n})']
        ox = [float(v) for v in p.step(0, step).real]
        lo, hi = min(ox), max(ox)
        if cur is not None:
            lo, hi = max(lo, min(cur)), min(hi, max(cur))
        common = lo <= hi
        must_refuse = cur is not None and ((not force and cur != ox) or (force and not common))
        try:
            w.add_traces_from_raw(other, names if n % 2 == 0 else tuple(names), **kw)
        except Exception as e:
            if not must_refuse:
                raise Violation('refused', f'{case}: import {n} of axis {ox} into {cur} refused: {type(e).__name__} {e}')
            outcome.append('refused')
            if snapshot(other) != before:
                raise Violation('source-changed', f'{case}: the refused import changed the source')
            continue
        if must_refuse:
            raise Violation('misaligned', f'{case}: axis {ox} imported into {cur} with force_axis_alignment={force} was not refused')
        if snapshot(other) != before:
            raise Violation('source-changed', f'{case}: {snapshot(other)} was {before}')
        if cur is None:
            cur = ox
        else:
            pts = sorted({x for x in cur + ox if lo <= x <= hi}, reverse=kind == 'down')
            cur = pts
        for i, nm in enumerate(new):
            want.append((nm, ox, [complex(v) if kind == 'ac' else float(v) for v in p.step(i + 1, step)]))
        outcome.append('aligned' if force else 'same')
    if not want:
        return 'nothing'
    out = os.path.join(scratch('d'), 'out.raw')
    w.save(out)
    r = RawRead(out, verbose=False)
    flags = set(r.get_raw_property('Flags').split()) - {'fastaccess', 'double', 'stepped'}
    if base is None and flags != set(FLAGS[kind].split()):     # those of what is imported
        raise Violation('flags', f'{case}: the file says {flags}, expected {FLAGS[kind]}')
    if r.get_trace_names()[1:] != [x[0] for x in want]:
        raise Violation('names', f'{case}: {r.get_trace_names()}, expected {[x[0] for x in want]}')
    ax = [float(v) for v in np.real(r.get_axis())]
    if len(ax) != len(cur) or any(abs(a - b) > 1e-10 + 1e-9 * abs(b) for a, b in zip(ax, cur)):
        raise Violation('axis', f'{case}: axis {ax}, expected {cur}')
    for nm, xs, ys in want:
        got = r.get_wave(nm)
        if len(got) != len(ax):
            raise Violation('length', f'{case}: {nm} has {len(got)} samples, the axis has {len(ax)}')
        for x, g in zip(cur, got):
            ref = interp(xs, ys, x)
            if ref is None:
                raise Violation('outside', f'{case}: {nm} at {x} is outside of the source {xs}')
            if abs(complex(g) - ref) > 2e-6 * (1 + abs(ref)) + 1e-5:
                raise Violation('sample', f'{case}: {nm} at {x} is {g!r}, the source says {ref!r} (axis {xs} values {ys})')
    return f'{kind} {"+".join(outcome)} {len(ax)}'


OTHER = {'tran': 'noise', 'noise': 'tran', 'ac': 'tran', 'down': 'tran'}
SAME, SHIFTED, STEPS = [0, 1, 3], [0, 2, 3, 4], [[1, 2, 3], [0, 1, 4], [0, 3]]


def history(case):
    """case = [kind, base, ops]: imports, refused imports, traces of the user and saves in any order; every save is checked."""
    import numpy as np
    from spicelib import RawWrite, RawRead, Trace
    kind, base, ops = case
    w = RawWrite()
    want, cur = [], None
    cplx = kind == 'ac'
    out = os.path.join(scratch('d'), 'out.raw')

    def user(name, seed):
        if cur is None:
            p = source(kind, base or SAME, seed)
            x = p.cols[0]
            w.add_trace(Trace(p.names[0], np.array(x, dtype=complex) if cplx else np.array(x), whattype=p.types[0],
                              numerical_type='complex' if cplx else 'double'))
        x = [float(v) for v in np.real(w.get_trace(0).data)]
        y = [complex(k % 3, seed) if cplx else float(k * seed % 5) for k in range(len(x))]
        w.add_trace(Trace(name, y, whattype='voltage', numerical_type='complex' if cplx else 'real'))
        want.append((name, x, y))
        return x

    if base is not None:
        cur = user('V(base)', 9)
    for n, op in enumerate(ops):
        if op == 'save':
            if not want:
                continue
            w.save(out)
            verify(case, out, want, cur, kind)
            for nm, xs, ys in want:
                for x, g in zip(cur, w[nm].data):
                    if abs(complex(g) - interp(xs, ys, x)) > 1e-4:
                        raise Violation('sample', f'{case}: {nm} of the writer at {x} is {g!r}')
        elif op == 'trace':
            ax = user(f'I(u{n})', n + 2)
            if cur is None:
                cur = ax
        else:
            what, force = op[:-1], op[-1] == '!'
            other = OTHER[kind] if what == 'kind' else kind
            idx = {'same': SAME, 'shifted': SHIFTED, 'kind': SAME, 'missing': SAME, 'none': SAME, 'plain': SAME}.get(what, STEPS)
            step = int(what[4:]) if what.startswith('step') else 0
            p = source(other, idx, n + 1, STEPS if idx is STEPS else None, kind)    # another kind at the same positions
            raw = RawRead(put(p, f's{n}'), '*', verbose=False)
            before = snapshot(raw)
            names = {'missing': ['V(out)', 'V(none)'], 'none': [], 'plain': 'I(R1)'}.get(what, ['V(out)', 'I(R1)'])
            kw = {'force_axis_alignment': force}
            if step:
                kw['step'] = step
            if what != 'plain':
                kw['add_tag'] = f't{n}'
            ox = [float(v) for v in p.step(0, step).real]
            lo, hi = min(ox + [9e9]), max(ox)
            if cur is not None:
                lo, hi = max(lo, min(cur)), min(hi, max(cur))
            refuse = what == 'missing' or (cur is not None and (what == 'kind' or (names and not force and cur != ox)))
            if what == 'kind' and cur is None:
                continue
            try:
                w.add_traces_from_raw(raw, names, **kw)
                done = True
            except Exception as e:
                if not refuse:
                    raise Violation('refused', f'{case}: {op} at {n} refused: {type(e).__name__} {e}')
                done = False
            if snapshot(raw) != before:
                raise Violation('source-changed', f'{case}: {snapshot(raw)} was {before}')
            if not done:
                continue
            if refuse:
                raise Violation('misaligned', f'{case}: {op} at {n} was not refused')
            if what == 'none':
                if cur is None:
                    cur = ox
                continue
            cur = ox if cur is None else sorted({x for x in cur + ox if lo <= x <= hi}, reverse=kind == 'down')
            for nm, key in ([('I(R1)', 2)] if what == 'plain' else [(f'V(out_t{n})', 1), (f'I(R1_t{n})', 2)]):
                want.append((nm, ox, [complex(v) if cplx else float(v) for v in p.step(key, step)]))
    if want:
        w.save(out)
        verify(case, out, want, cur, kind)
    return f'{kind} history'


def verify(case, path, want, cur, kind):
    import numpy as np
    from spicelib import RawRead
    r = RawRead(path, verbose=False)
    if sorted(r.get_trace_names()[1:]) != sorted(x[0] for x in want):
        raise Violation('names', f'{case}: {r.get_trace_names()}, expected {[x[0] for x in want]}')
    ax = [float(v) for v in np.real(r.get_axis())]
    if len(ax) != len(cur) or any(abs(a - b) > 1e-10 + 1e-9 * abs(b) for a, b in zip(ax, cur)):
        raise Violation('axis', f'{case}: axis {ax}, expected {cur}')
    for nm, xs, ys in want:
        got = r.get_wave(nm)
        if len(got) != len(ax):
            raise Violation('length', f'{case}: {nm} has {len(got)} samples, the axis has {len(ax)}')
        for x, g in zip(cur, got):
            ref = interp(xs, ys, x)
            if ref is None or abs(complex(g) - ref) > 2e-6 * (1 + abs(ref)) + 1e-5:
                raise Violation('sample', f'{case}: {nm} at {x} is {g!r}, the source says {ref!r} (axis {xs} values {ys})')


HOPS = ['same-', 'same!', 'shifted-', 'shifted!', 'step1!', 'step2!', 'kind!', 'missing!', 'none-', 'trace', 'save']


def histories(kind, first, rec, tier):
    for base in (None, SAME):
        for k in range(0, 3 if tier == 'quick' else 4):
            for rest in itertools.product(HOPS, repeat=k):
                case = [kind, base, [first, *rest]]
                out = rec.run(['history', case], history, case)
                rec.case(out)
                rec.state(case)
                rec.step(k + 1)
                rec.trace()
    case = [kind, None, ['plain-', 'same!', 'save']]
    rec.run(['history', case], history, case)


def jobs(tier):
    n = 5 if tier == 'quick' else 6
    return [[tier, kind, i] for kind in GRID for i in range(len(axes(n, (2, 3, 4))))] + \
        [[tier, kind, ['steps', k]] for kind in GRID for k in range(3)] + [[tier, kind, 'fine'] for kind in ('tran', 'ac')] + \
        [[tier, kind, ['hist', op]] for kind in GRID for op in HOPS] + [[tier, kind, ['gather', k]] for kind in GRID for k in range(4)] + \
        [[tier, 'tran', ['naming', k]] for k in range(4)]


def run(rec, case):
    out = rec.run(case, check, case)
    rec.case(out)
    rec.state([case[0], case[1], case[2]])
    rec.step(len(case[2]))
    rec.trace()


def run_job(job, rec):
    tier, kind, i = job
    n = 5 if tier == 'quick' else 6
    if i == 'fine':
        return fine(kind, rec)
    if isinstance(i, list) and i[0] == 'naming':
        for n, case in enumerate(namings()):
            if n % 4 == i[1]:
                rec.case(rec.run(['naming', case], naming, case))
                rec.state(case)
                rec.step(len(case[1]))
                rec.trace()
        return
    if isinstance(i, list) and i[0] == 'gather':
        for n, case in enumerate(gather.cases(kind, tier)):
            if n % 4 == i[1]:
                out = rec.run(['gather', case], gather.case_, case)
                rec.case(f'gather {out}')
                rec.state(case)
                rec.step(len(case[1]))
                rec.trace()
        return
    if isinstance(i, list) and i[0] == 'hist':
        return histories(kind, i[1], rec, tier)
    if isinstance(i, list):
        return stepped(kind, i[1], rec, tier)
    all_axes = axes(n, (2, 3, 4))
    a = all_axes[i]
    for b in all_axes:
        for force in (True, False):
            run(rec, [kind, a, [[b, 0, force, 'tag']]])
            run(rec, [kind, None, [[a, 0, False, 'format'], [b, 0, force, 'format']]])
    third = axes(4 if tier == 'quick' else 5, (2, 3))
    if a in third:
        for b in third:
            for c in third:
                for f2 in (True, False):
                    run(rec, [kind, None, [[a, 0, True, 'tag'], [b, 0, True, 'tag'], [c, 0, f2, 'tag']]])
                    run(rec, [kind, a, [[b, 0, True, 'tag'], [c, 0, f2, 'tag']]])
    rec.sample({'kind': kind, 'axis': a, 'with': b})


def stepped(kind, k, rec, tier):
    """The same stepped file imported step by step, in every order."""
    tails = [[0, 1, 2], [0, 2], [0, 1, 3], [0, 3, 4]]
    for lens in itertools.product(tails, repeat=2 if tier == 'quick' else 3):
        for base in (None, [0, 1, 2, 3]):
            for order in itertools.permutations(range(len(lens)), 2):
                for force in (True, False):
                    if k == 0:
                        run(rec, [kind, base, [[list(lens), order[0], force, 'tag'], [list(lens), order[1], force, 'tag']]])
                    elif k == 1:
                        run(rec, [kind, base, [[list(lens), order[0], force, 'format']]])
                    else:
                        run(rec, [kind, base, [[[0, 1, 3], 0, True, 'tag'], [list(lens), order[0], force, 'tag']]])
    rec.sample({'kind': kind, 'steps': list(lens)})


def fine_case(kind, spacing, shift, m):
    """Axes with spacing below admissible_error: nothing is lost and samples stay at their position."""
    import numpy as np
    from spicelib import RawWrite, RawRead, Trace
    x = [k * spacing for k in range(m)]
    w = RawWrite()
    ys = [float(k * k % 7) for k in range(m)]
    a = Plot(names=['time', 'V(a)'], cols=[x, ys])
    b = Plot(names=['time', 'V(b)'], cols=[[v + shift for v in x], ys])
    w.add_traces_from_raw(RawRead(put(a, 'a'), verbose=False), 'V(a)')
    w.add_traces_from_raw(RawRead(put(b, 'b'), verbose=False), 'V(b)', force_axis_alignment=True)
    out = os.path.join(scratch('d'), 'out.raw')
    w.save(out)
    r = RawRead(out, verbose=False)
    ax = r.get_axis()
    if shift == 0 and not np.array_equal(ax, x):
        raise Violation('fine-axis', f'identical axes {x} became {ax!r}')
    if np.any(np.diff(ax) <= 0):
        raise Violation('fine-axis', f'axis not increasing: {ax!r}')
    for name, src in (('V(a)', x), ('V(b)', [v + shift for v in x])):
        for t, g in zip(ax, r.get_wave(name)):
            want = np.interp(t, src, ys)
            if abs(g - want) > 1e-4:
                raise Violation('fine-sample', f'{name} at {t}: {g}, source {want}')


def fine(kind, rec):
    for spacing in (1e-12, 3e-12, 1e-11, 1e-10, 1e-6):
        for shift in (0, 1e-13, 0.25 * spacing, 0.5 * spacing, spacing, 1e-11, 2e-11):
            for m in (2, 3, 5, 8):
                if shift > spacing * (m - 1):
                    continue
                case = ['fine', kind, spacing, shift, m]
                rec.run(case, fine_case, kind, spacing, shift, m)
                rec.case('fine')
                rec.state(case)
                rec.trace()


NAMES = ['V(out)', 'v(out)', 'I(R1)', 'i(r1)', 'V(a,b)', 'V(µ 1)', 'I(x1:R1)', 'Ix(u1:+)', 'Id(M1)', 'onoise', '@r1[i]', 'gain']
# keywords, and the name that a trace gets inside of its V() or I()
RENAMES = {'none': ({}, '{}'), 'tag': ({'add_tag': 't1'}, '{}_t1'), 'number': ({'add_tag': 7}, '{}_7'),
           'format': ({'rename_format': '{}_x'}, '{}_x'), 'prefix': ({'rename_format': 'p_{}'}, 'p_{}'), 'fixed': ({'rename_format': 'new'}, 'new'),
           'keyword': ({'rename_format': '{}_{temp}_{run}', 'temp': 27, 'run': 'a'}, '{}_27_a'),
           'both': ({'rename_format': '{}_z', 'add_tag': 'q'}, '{}_z')}


def naming(case):
    """case = [names, rename of every import, forced]: the tag goes inside of V() and I(), whatever their case."""
    from spicelib import RawRead, RawWrite
    names, renames, force = case
    w = RawWrite()
    want = []
    for n, how in enumerate(renames):
        x = [0.0, 1.0, 2.0] if not (n and force) else [0.0, 0.5, 2.0]
        p = Plot(names=['time'] + names, cols=[x] + [[float(3 * n + k), float(k - n), 1.5] for k in range(len(names))],
                 types=['time'] + ['voltage' if nm[0] in 'Vv' else 'device_current' for nm in names])
        kw, form = RENAMES[how]
        w.add_traces_from_raw(RawRead(put(p, f'n{n}'), '*', verbose=False), names, force_axis_alignment=force, **kw)
        for nm, y in zip(names, p.cols[1:]):
            inside = nm[1] == '(' and nm[0] in 'VvIi'
            end = nm.index(')') if inside else None
            new = nm[:2] + form.format(nm[2:end]) + ')' if inside else form.format(nm)
            want.append((new, p.types[1 + names.index(nm)], x, y))
    out = os.path.join(scratch('d'), 'out.raw')
    w.save(out)
    r = RawRead(out, '*', verbose=False)
    if r.get_trace_names()[1:] != [x[0] for x in want]:
        raise Violation('names', f'{case}: {r.get_trace_names()[1:]}, expected {[x[0] for x in want]}')
    ax = [float(v) for v in r.get_axis()]
    for nm, what, x, y in want:
        t = r.get_trace(nm)
        if t.whattype != what or any(abs(float(g) - interp(x, y, a).real) > 1e-5 for a, g in zip(ax, r.get_wave(nm))):
            raise Violation('sample', f'{case}: {nm} {t.whattype} {list(r.get_wave(nm))}')
    return f'naming {len(want)}'


def namings():
    pairs = list(itertools.permutations(NAMES, 2))
    sets = [[a] for a in NAMES] + [list(p) for p in pairs if p[0].lower() != p[1].lower()]
    for names in sets:
        for force in (False, True):
            for how in RENAMES:
                if len(names) == 1 or how != 'fixed':
                    yield [names, [how], force]
            for a, b in itertools.permutations(['none', 'tag', 'format', 'keyword'], 2):
                yield [names, [a, b], force]


def replay(case, rec):
    if case[0] == 'gather':
        gather.case_(case[1])
    elif case[0] == 'naming':
        naming(case[1])
    elif case[0] == 'history':
        history(case[1])
    elif case[0] == 'fine':
        fine_case(*case[1:])
    else:
        check(case)
