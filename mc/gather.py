"""create_raw_file_with(): the traces of several runs in one RAW file."""
import itertools
import os
from pathlib import Path

from .core import Violation, fresh_dir
from .rawfile import Plot

GRID = {'tran': [0.0, 1e-3, 2.5e-3, 3e-3, 7e-3, 8e-3], 'ac': [10.0, 100.0, 1e3, 1e4, 1e5, 1e6], 'down': [5.0, 4.0, 2.5, 1.0, -1.0, -2.0],
        'noise': [1.0, 2.0, 5.0, 10.0, 100.0, 200.0]}
AXES = [[0, 1, 3, 5], [0, 2, 3, 4], [1, 2, 4], [4, 5], [0, 1]]
# what a run leaves: an axis, nothing after a failure, a RAW file after a failure, no RAW file at all
RUNS = [0, 1, 2, 3, 4, 'failed', 'failed+raw', 'none']
SAVES = [['V(out)'], 'V(out)', ['V(out)', 'I(R1)'], ('I(R1)', 'V(out)')]
CONDITIONS = ['all', 'first', 'list', 'function', 'nothing']
TAGS = [1, 2, 1, 3]


def source(kind, idx, k):
    x = [GRID[kind][i] for i in idx]
    a = [float((3 * i + k * 5) % 11) - 4 for i in range(len(x))]
    b = [float((7 * i + k) % 13) * 0.25 for i in range(len(x))]
    cplx = kind == 'ac'
    return Plot(names=[{'tran': 'time', 'ac': 'frequency', 'down': 'v1', 'noise': 'frequency'}[kind], 'V(out)', 'I(R1)'],
                plotname={'tran': 'Transient Analysis', 'ac': 'AC Analysis', 'down': 'DC transfer characteristic',
                          'noise': 'Noise Spectral Density - (V/Hz½ or A/Hz½)'}[kind],
                flags='complex forward log' if cplx else 'real forward',
                types=['time' if kind == 'tran' else 'frequency' if kind != 'down' else 'voltage', 'voltage', 'device_current'],
                cols=[x, [complex(p, q) for p, q in zip(a, b)] if cplx else a, [complex(q, -1) for q in b] if cplx else b])


def interp(xs, ys, x):
    pairs = sorted(zip(xs, ys))
    for p, v in pairs:
        if p == x:
            return complex(v)
    for (p, v), (q, w) in zip(pairs, pairs[1:]):
        if p < x < q:
            return complex(v) + (complex(w) - complex(v)) * ((x - p) / (q - p))
    return None


def chosen(cond, k):
    return {'all': True, 'first': TAGS[k] == 1, 'list': TAGS[k] in (2, 3), 'function': TAGS[k] != 2, 'nothing': False}[cond]


def case_(case):
    """case = [kinds, runs, save, conditions]"""
    import numpy as np
    from spicelib import RawRead, SimRunner, SpiceEditor
    from spicelib.sim.simulator import Simulator
    kinds, runs, save, cond = case
    d = Path(fresh_dir('gather'))
    data = [source(kinds[k], AXES[r if isinstance(r, int) else 0], k) for k, r in enumerate(runs)]

    class Sim(Simulator):
        spice_exe = ['fake']
        process_name = 'fake'
        raw_extension = '.raw'

        @classmethod
        def valid_switch(cls, switch, parameter=''):
            return [switch]

        @classmethod
        def run(cls, netlist_file, cmd_line_switches=None, timeout=None, *, cwd=None, stdout=None, stderr=None, exe_log=False):
            n = Path(netlist_file)
            k = len(seen)
            seen.append(n)
            n.with_suffix('.log').write_text('Circuit: * t\n')
            if runs[k] not in ('failed', 'none'):
                n.with_suffix('.raw').write_bytes(data[k].bytes())
            return 1 if str(runs[k]).startswith('failed') else 0
    seen = []
    net = d / 'c.net'
    net.write_text('* t\nR1 out 0 1k\n.param tag=0\n.tran 1\n.end\n')
    runner = SimRunner(simulator=Sim, parallel_sims=1, output_folder=str(d / 'out'))
    e = SpiceEditor(net, encoding='utf-8')
    for k in range(len(runs)):
        e.set_parameter('tag', TAGS[k])
        runner.run_now(e, run_filename=f'r{k}.net')
    if len(seen) != len(runs):
        raise Violation('launches', f'{case}: {len(seen)} launches')
    conditions = {'all': None, 'first': {'tag': '1'}, 'list': {'tag': ['2', '3']}, 'nothing': {'tag': '77'},
                  'function': lambda t: int(t.edits.parameter('tag')) != 2}[cond]
    match = [k for k in range(len(runs)) if chosen(cond, k)]
    good = [k for k in match if isinstance(runs[k], int)]
    axes = [[GRID[kinds[k]][i] for i in AXES[runs[k]]] for k in good]
    refuse = len({kinds[k] for k in good}) > 1 or (axes and max(min(a) for a in axes) > min(max(a) for a in axes))
    out = d / 'all.raw'
    before = sorted((p, p.read_bytes()) for p in d.rglob('*') if p.is_file())
    if isinstance(save, str):
        want_save = [save]
    else:
        want_save = list(save)
    try:
        res = runner.create_raw_file_with(out, save, conditions)
    except Exception as exc:
        if not refuse:
            raise Violation('gather-failed', f'{case}: {type(exc).__name__} {exc}')
        return 'refused'
    if refuse and res:
        raise Violation('gather-misaligned', f'{case}: answered {res}')
    after = sorted((p, p.read_bytes()) for p in d.rglob('*') if p.is_file() and p != out)
    if after != before:
        raise Violation('gather-files', f'{case}: other files changed')
    if bool(res) != (bool(good) and good == match):
        raise Violation('gather-answer', f'{case}: answered {res}; runs {[k + 1 for k in match]} meet the conditions, {[k + 1 for k in good]} have a RAW file')
    if not out.exists():
        if res:
            raise Violation('gather-missing', f'{case}: the file was not written')
        return 'nothing'
    if refuse:
        return 'partial'
    r = RawRead(out, verbose=False)
    names = []
    for k in good:
        for t in want_save:
            names.append(t.replace(')', f'_{k + 1})'))
    if sorted(r.get_trace_names()[1:]) != sorted(names):
        raise Violation('gather-names', f'{case}: {r.get_trace_names()}, expected {names}')
    if r.get_plot_name() != data[good[0]].plotname:
        raise Violation('gather-type', f'{case}: {r.get_plot_name()}')
    lo, hi = max(min(a) for a in axes), min(max(a) for a in axes)
    pts = sorted({x for a in axes for x in a if lo <= x <= hi}, reverse=kinds[good[0]] == 'down')
    ax = [float(v) for v in np.real(r.get_axis())]
    if len(ax) != len(pts) or any(abs(a - b) > 1e-10 + 1e-9 * abs(b) for a, b in zip(ax, pts)):
        raise Violation('gather-axis', f'{case}: axis {ax}, expected {pts}')
    for k, a in zip(good, axes):
        for t in want_save:
            col = data[k].cols[data[k].names.index(t)]
            for x, g in zip(pts, r.get_wave(t.replace(')', f'_{k + 1})'))):
                ref = interp(a, col, x)
                if abs(complex(g) - ref) > 2e-6 * (1 + abs(ref)) + 1e-5:
                    raise Violation('gather-sample', f'{case}: {t} of run {k + 1} at {x} is {g!r}, the run says {ref!r}')
    return 'complete' if res else 'partial'


def cases(kind, tier):
    for n in range(1, 3 if tier == 'quick' else 4):
        for runs in itertools.product(RUNS, repeat=n):
            for cond in CONDITIONS:
                for s in range(len(SAVES)) if n < 3 else (n % len(SAVES),):
                    yield [[kind] * n, list(runs), SAVES[s], cond]
    other = {'tran': 'noise', 'noise': 'tran', 'ac': 'tran', 'down': 'ac'}[kind]
    for runs in itertools.product((0, 1, 'failed'), repeat=3):
        for kinds in itertools.product((kind, other), repeat=3):
            for cond in CONDITIONS[:4]:
                yield [list(kinds), list(runs), SAVES[2], cond]
