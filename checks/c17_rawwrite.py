"""C17: waveform files written by RawWrite are read back unchanged. Every combination of the bounded configuration space."""
import itertools
import os

from mc.core import Violation, scratch
from mc.rawfile import same

PROPERTY = 'C17'
LEVEL = 'exploration'
RULE = ('first trace kind (7) x plot name given (5) x numtype (4) x storage order (2) x encoding (2) x types of up to 2 '
        '(thorough 3) further traces (4 each) x 1..4 points (thorough 6) x container (2, overwritten by the caller afterwards); each file is written by RawWrite and '
        'read back by RawRead, eagerly and lazily. Non-trivial: distinct accepted configurations.')
ASSUMPTIONS = ['time samples are not negative (the reader documents taking their absolute value)',
               'trace names are distinct and contain neither tabs nor line ends; at least one point',
               'complex samples in a file that is not complex may be refused, never mangled',
               'samples are compared exactly after rounding to the numerical type given to their trace']

FIRST = [('time', 'time', ''), ('time', 'time', 'double'), ('frequency', 'frequency', 'complex'),
         ('frequency', 'frequency', 'double'), ('v1', 'voltage', ''), ('I1', 'current', 'double'), ('V(op)', 'param', '')]
PLOTNAMES = [None, 'AC Analysis', 'Operating Point', 'Noise Spectral Density - (V/Hz½ or A/Hz½)', 'Transfer Function']
TYPES = ['', 'real', 'double', 'complex']
NUMTYPES = ['auto', 'real', 'double', 'complex']
OFFSETS = [0.0, 1.2345678901234567, -3.3e-7, 1e-15, 123456789.125]
NAMES = ['V(out)', 'I(µ:R 1)', 'V(a,b)', 'Ix(u1:+)']
VALUES = [0.1, -2.5, 3.25e-9, float('inf'), -7.0, 1 / 3, 0.0, float('nan'), -1e-30, 65537.5, 2e19]


def jobs(tier):
    n = 2 if tier == 'quick' else 3
    return [[n, 4 if tier == 'quick' else 6, f, p] for f in range(len(FIRST)) for p in range(len(PLOTNAMES))]


def cases(n, points, f, p):
    for nt in NUMTYPES:
        for fast in (True, False):
            for enc in ('utf_16_le', 'utf_8'):
                for k in range(n + 1):
                    for types in itertools.product(TYPES, repeat=k):
                        for pts in range(1, points + 1):
                            yield [f, p, nt, fast, enc, list(types), pts]


def values(i, pts, cplx):
    out = [VALUES[(3 * i + k) % len(VALUES)] for k in range(pts)]
    return [complex(v, 0.25 - k - i) for k, v in enumerate(out)] if cplx else out


def cut(data, enc):
    """The file without its date."""
    k = data.index('Plotname'.encode(enc))
    return data[k:]


def check(case, container):
    import numpy as np
    from spicelib import RawWrite, RawRead, Trace
    f, p, nt, fast, enc, types, pts = case
    name, what, ntype = FIRST[f]
    w = RawWrite(plot_name=PLOTNAMES[p], fastacces=fast, numtype=nt, encoding=enc)
    w.offset = OFFSETS[(f + pts + len(types) + p) % len(OFFSETS)]
    box = (lambda v: np.array(v)) if container else (lambda v: list(v))
    boxes = []
    axis = [0.5 * k for k in range(pts)] if ntype != 'complex' else [complex(10.0 ** k, 0) for k in range(pts)]
    given = [(name, what, ntype, axis)]
    for i, t in enumerate(types):
        given.append((NAMES[i], 'voltage' if i % 2 == 0 else 'device_current', t, values(i, pts, t == 'complex')))
    mixed = any(g[2] == 'complex' for g in given)
    path = os.path.join(scratch(), 'w.raw')
    try:
        for g in given:
            boxes.append(box(g[3]))
            w.add_trace(Trace(g[0], boxes[-1], whattype=g[1], numerical_type=g[2]))
            boxes[-1][:] = [77] * pts  # the caller uses its own container again
        w.save(path)
        with open(path, 'rb') as a:
            first = a.read()
        w.save(path)  # saving changes nothing
        with open(path, 'rb') as a:
            again = a.read()
        if len(first) != len(again) or cut(first, enc) != cut(again, enc):
            raise Violation('saved-twice', f'{case}: the second file differs')
    except ValueError:
        if mixed:
            return 'refused'
        raise
    keep = {'real': np.float32, '': np.float32, 'double': np.float64, 'complex': np.complex128}
    plotname = w.plot_name
    if PLOTNAMES[p] is not None and plotname != PLOTNAMES[p]:
        raise Violation('plot-name', f'asked {PLOTNAMES[p]!r}, got {plotname!r}')
    for mode in ('*', None, given[-1][0]):
        r = RawRead(path, mode)
        if r.get_nr_plots() != 1:
            raise Violation('plots', f'{case}: {r.get_nr_plots()} plots')
        if r.get_plot_name() != plotname or r.encoding != enc or r.dialect != 'ltspice':
            raise Violation('properties', f'{case}: {r.get_plot_name()!r} {r.encoding} {r.dialect}')
        if r.nPoints != pts or r.nVariables != len(given) or int(r.get_raw_property('No. Points')) != pts:
            raise Violation('properties', f'{case}: {r.nPoints} points {r.nVariables} variables')
        if abs(float(r.get_raw_property('Offset')) - w.offset) > 1e-14 * abs(w.offset):
            raise Violation('offset', f"{case}: offset {r.get_raw_property('Offset')} was written {w.offset!r}")
        if r.get_trace_names() != [g[0] for g in given]:
            raise Violation('names', f'{case}: {r.get_trace_names()}')
        for g in reversed(given):
            t = r.get_trace(g[0])
            if t.whattype != g[1] or t.name != g[0]:
                raise Violation('trace-kind', f'{case}: {t.name} {t.whattype}')
            typ = keep[g[2] if g[0] not in ('time',) else 'double']
            with np.errstate(all='ignore'):
                want = np.array(g[3]).astype(typ)
                got = np.asarray(t.get_wave())
                if len(got) != pts or not same(got.astype(typ) if not np.iscomplexobj(got) or typ is np.complex128 else
                                               got.real.astype(typ), want) or (
                        np.iscomplexobj(got) and typ is not np.complex128 and np.any(got.imag != 0)):
                    raise Violation('samples', f'{case} mode={mode}: trace {g[0]} read {got!r}, written {want!r}')
        if r.has_axis:
            if not same(np.asarray(r.get_axis()), np.asarray(r.get_wave(0))) or len(r.get_axis()) != pts:
                raise Violation('axis', f'{case}: {r.get_axis()}')
    return f'{plotname}/{r.get_raw_property("Flags")}/{len(given)}'


def run_job(job, rec):
    for case in cases(*job):
        for c in (0, 1):
            out = rec.run([case, c], check, case, c)
            rec.case(out)
            if out and out != 'refused':
                rec.state([case, c])
    rec.sample({'case': case})


def replay(case, rec):
    check(*case)
