"""C20: a truncated RAW file is never read as wrong data. Every truncation length of a file of every layout."""
import os

from mc.core import Violation, scratch
from mc.rawfile import layouts, same
from checks.c18_rawload import build as build18

PROPERTY = 'C20'
LEVEL = 'fault_enumeration'
RULE = ('crash points: every length 0..n of a file of every storage layout (24 layouts, stepped with and without log, two plots), '
        'opened header-only and eagerly; every trace of every plot presented is then read. Non-trivial: distinct (file, length).')
ASSUMPTIONS = ['a file cut exactly between two plots, or inside the header of a later plot, is a readable file of the earlier plots',
               'any exception counts as a reported error']


def keys(tier):
    out = []
    for n in layouts():
        out.append(f'{n}|plain')
        if '-op-' not in n and n[:2] in ('lt', 'qs'):
            out += [f'{n}|steps', f'{n}|stepsnolog']
        if tier != 'quick':
            out.append(f'{n}|3')
    out += ['qs-alias|plain', 'qs-ac-alias|plain']
    out += ['two|' + a + '+' + b for a, b in
            [('ng-tran-normal', 'ng-op-normal'), ('ng-ac-normal', 'ng-dc-normal'), ('ng-ac-ascii', 'ng-ac-ascii'),
             ('xy-tran-ascii', 'xy-tran-ascii'), ('lt-tran-fast', 'lt-tran-fast'), ('lt-ac-ascii', 'lt-tran-ascii')]]
    return out


def jobs(tier):
    return [[k, part] for k in keys(tier) for part in range(2)]


def build(key):
    n, v = key.split('|')
    return build18(f'{n}|steps' if v == 'stepsnolog' else key)


def prepare(key):
    plots = build(key)
    d = scratch('d')
    log = os.path.join(d, 'f.log')
    if os.path.exists(log):
        os.remove(log)
    if key.endswith('|steps'):
        with open(log, 'w') as f:
            if plots[0].dialect == 'qspice':
                f.write('1 of 2 steps:  .step a=1\n2 of 2 steps:  .step a=2\n')
            else:
                f.write('Circuit: * test\n\n.step a=1\n.step a=2\n\nDate: x\n')
    path = os.path.join(d, 'f' + ('.qraw' if plots[0].dialect == 'qspice' else '.raw'))
    return plots, path, b''.join(p.bytes() for p in plots)


def check(key, plots, path, data, cut, mode):
    from spicelib import RawRead
    with open(path, 'wb') as f:
        f.write(data[:cut])
    dialect = plots[0].dialect if not plots[0].command else None
    try:
        raw = RawRead(path, mode, dialect=dialect, verbose=False)
    except Exception:
        if cut == len(data):
            raise
        return 'refused'
    errors, good = 0, 0
    shown = raw.plots
    if len(shown) > len(plots):
        raise Violation('invented-plot', f'{key} cut at {cut}: {len(shown)} plots')
    pos = 0
    for n, p in enumerate(plots):
        head = len(p.header())
        if n >= len(shown):
            if cut >= pos + head + len(p.data()):
                raise Violation('plot-lost', f'{key} cut at {cut}: plot {n} is complete and is not presented')
            if cut >= pos + head and cut > pos:
                raise Violation('silent', f'{key} cut at {cut}: plot {n}, cut inside of its data, is silently missing')
            break
        q = shown[n]
        if q.get_trace_names() != p.all_names() or q.nPoints != p.npoints:
            raise Violation('header', f'{key} cut at {cut}: plot {n} presented with {q.get_trace_names()} x {q.nPoints}')
        for i, name in reversed(list(enumerate(p.all_names()))):
            for k in range(len(p.steps or [0])):
                for how in ('wave', 'axis', 'export'):
                    if how == 'axis' and i:
                        continue
                    try:
                        if how == 'wave':
                            got = q.get_wave(name, k)
                        elif how == 'axis':
                            got = q.get_axis(k)
                        else:
                            got = q.export(columns=[name], step=k)[name]
                    except Exception:
                        errors += 1
                        if cut == len(data) and not (how == 'axis' and not p.has_axis):
                            raise
                        continue
                    want = p.step(i, k) if p.has_axis else p.wave(i)
                    import numpy as np
                    if not (same(got, want) if i < len(p.names) else np.shape(got) == want.shape and np.allclose(got, want, rtol=1e-12, atol=0)):
                        raise Violation('wrong-data', f'{key} cut at {cut} of {len(data)}: {how} of {name} step {k} gives {got!r}, '
                                                      f'written {want!r}')
                    good += 1
        pos += head + len(p.data())
    if not shown:
        for f in (lambda: raw.get_wave('V(out)'), lambda: raw.get_axis(), lambda: raw.get_trace(0)):
            try:
                got = f()
            except Exception:
                continue
            raise Violation('invented', f'{key} cut at {cut}: a file without plots returned {got!r}')
        return 'nothing'
    return 'part' if errors and good else 'error' if errors else 'complete'


def run_job(job, rec):
    key, part = job
    plots, path, data = prepare(key)
    for cut in range(len(data) + 1):
        if cut % 2 != part:
            continue
        for mode in (None, '*'):
            case = [key, cut, mode]
            rec.case(rec.run(case, check, key, plots, path, data, cut, mode))
            rec.state(case)
    rec.sample({'file': key, 'length': len(data)})


def replay(case, rec):
    key, cut, mode = case
    plots, path, data = prepare(key)
    check(key, plots, path, data, cut, mode)
