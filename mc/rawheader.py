"""What the header of a RAW file says is what the accessors answer."""
import itertools
import os
from pathlib import Path

from .core import Violation, scratch
from .rawfile import layouts, same

LAYOUTS = ['lt-tran-normal', 'lt-ac-fast', 'lt-op-ascii', 'lt-tran-utf8', 'lt-tran-ascii16', 'qs-tran-normal', 'qs-ac-ascii', 'ng-dc-normal', 'ng-op-normal', 'xy-tran-ascii']
TITLES = ['* test', '', 'C:\\a: b\\c.net', '* 10µ ½', 'Binary: no', '  .param x=1']
BACK = [[], ['u1 1 2 3'], ['_in1 1 2', 'x:u1 100 101', 'u1 1 2 3']]
EXTRA = [[], ['.param temp=27'], ['Output: C:\\x y\\z.out'], ['.alias I(R7) (0.5mho*V(out))', '.param a=b=c']]
STYLES = ['usual', 'order', 'case', 'spaces']


def cases(name, tier):
    for t, b, x, s in itertools.product(range(len(TITLES)), range(len(BACK)), range(len(EXTRA)), STYLES):
        if any(e.startswith('.alias') for e in EXTRA[x]) and not name.startswith('qs'):
            continue
        for two in ((False, True) if name[:2] in ('ng', 'xy', 'lt') else (False,)):
            yield [name, t, b, x, s, two]


def header(p, title, back, extra, style):
    items = [('Title', title), ('Date', 'Thu Jan  1 00:00:00 2026'), ('Plotname', p.plotname), ('Flags', p.flags), ('No. Variables', str(len(p.names))),
             ('No. Points', str(p.npoints)), ('Offset', '0.0000000000000000e+000')]
    if p.command:
        items.append(('Command', p.command))
    if style == 'order':
        items = items[:1] + items[:0:-1]
    lines = [f'{k.upper() if style == "case" and k != "Title" else k}:{"   " if style == "spaces" else " "}{v}{"  " if style == "spaces" else ""}' for k, v in items]
    lines += [f'Backannotation: {b}' for b in back] + extra
    lines.append('Variables:')
    lines += [f'\t{i}\t{n}\t{t}' for i, (n, t) in enumerate(zip(p.names, p.types))]
    lines.append('Values:' if p.ascii else 'Binary:')
    return ''.join(x + p.eol for x in lines).encode(p.encoding), dict(items)


def check(case):
    from spicelib import RawRead
    name, t, b, x, style, two = case
    plots = [layouts()[name](3)]
    if two:
        plots.append(layouts()[name](2))
    data, said = b'', []
    for k, p in enumerate(plots):
        h, props = header(p, TITLES[t - k], BACK[b - k], EXTRA[x if name.startswith('qs') else min(x, 2)], style)
        data += h + p.data()
        said.append((props, BACK[b - k], EXTRA[x]))
    path = os.path.join(scratch('d'), 'h' + ('.qraw' if name.startswith('qs') else '.raw'))
    with open(path, 'wb') as f:
        f.write(data)
    for traces in (None, '*'):
        r = RawRead(path, traces, dialect=None if plots[0].command else plots[0].dialect, verbose=False)
        if r.get_nr_plots() != len(plots) or r.get_plot_names() != [p.plotname for p in plots] or r.get_plot_name() != plots[0].plotname:
            raise Violation('header-plots', f'{case}: {r.get_nr_plots()} {r.get_plot_names()} {r.get_plot_name()!r}')
        if r.dialect != plots[0].dialect or r.encoding.replace('-', '_') != plots[0].encoding:
            raise Violation('header-file', f'{case}: {r.dialect} {r.encoding}')
        for where, p, (props, back, extra) in [(r, plots[0], said[0])] + [(r.plots[k], q, said[k]) for k, q in enumerate(plots)]:
            got = where.get_raw_properties()
            if where.get_raw_property() != got or where.raw_params != got:
                raise Violation('header-properties', f'{case}: {where.get_raw_property()} and {got}')
            for k, v in props.items():
                answers = {where.get_raw_property(q) for q in (k, k.upper(), k.lower(), k.title())}
                if answers != {v.strip()}:
                    raise Violation('header-property', f'{case}: {k} is {answers}, the file says {v!r}')
            known = {k.lower() for k in props} | {'filename', 'variables'} | ({'backannotation'} if back else set()) | {e.split(':')[0].lower() for e in extra if e[0] != '.'}
            if {k.lower() for k in got} != known:
                raise Violation('header-names', f'{case}: properties {sorted(got)}, the file has {sorted(known)}')
            if Path(where.get_raw_property('Filename')) != Path(path) or list(where.get_raw_property('Variables')) != p.names:
                raise Violation('header-property', f"{case}: {where.get_raw_property('Filename')} {where.get_raw_property('Variables')}")
            try:
                where.get_raw_property('Nothing')
            except ValueError:
                pass
            else:
                raise Violation('header-property', f'{case}: a property that is not there was found')
            if list(where.backannotations) != back:
                raise Violation('header-backannotations', f'{case}: {where.backannotations}, the file says {back}')
            if (where.nPoints, where.nVariables, where.raw_type) != (p.npoints, len(p.names), 'values:' if p.ascii else 'binary:'):
                raise Violation('header-sizes', f'{case}: {where.nPoints} {where.nVariables} {where.raw_type}')
            if list(where.flags) != p.flags.split() or where.steps is not None or where.has_axis != p.has_axis:
                raise Violation('header-flags', f'{case}: {where.flags} {where.steps} {where.has_axis}')
            want = {e.split(' ', 2)[1]: e.split(' ', 2)[2] for e in extra if e.startswith('.alias')}
            if dict(where.aliases) != want:
                raise Violation('header-aliases', f'{case}: {where.aliases}, the file says {want}')
            if where.get_trace_names() != p.names + list(want):
                raise Violation('header-traces', f'{case}: {where.get_trace_names()}')
            if p.names[0] == 'time' and not same(where.get_time_axis(), p.step(0, 0)):
                raise Violation('header-time', f'{case}: {where.get_time_axis()!r}')
            if not same(where.get_wave(p.names[1]), p.wave(1)):
                raise Violation('header-values', f'{case}: {where.get_wave(p.names[1])!r}, the file holds {p.wave(1)!r}')
    return f'header {name} {style} {len(plots)}'
