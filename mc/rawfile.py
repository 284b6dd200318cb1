"""Independent writer of RAW files in every layout, with the values a reader has to return (reference)."""
import struct

import numpy as np

TAB = '\t'


class Plot:
    """One plot: names[0] is the axis unless has_axis is False. cols[i][k] are Python floats/complex."""

    def __init__(self, dialect='ltspice', plotname='Transient Analysis', names=('time', 'V(a)'), types=None, cols=(),
                 flags='real forward', ascii=False, fast=False, double=False, encoding='utf_16_le', command=None,
                 aliases=(), has_axis=None, steps=None, eol='\n', title='* test'):
        self.dialect, self.plotname, self.names, self.cols = dialect, plotname, list(names), [list(c) for c in cols]
        self.types = list(types) if types else [self.guess(n) for n in names]
        self.flags = flags + (' double' if double else '') + (' fastaccess' if fast else '') + (' stepped' if steps else '')
        self.ascii, self.fast, self.double, self.encoding, self.eol = ascii, fast, double, encoding, eol
        self.aliases = list(aliases)          # (name, formula, values)
        self.params = []                      # lines of parameters
        self.steps = steps                    # list of step lengths
        self.title = title
        self.complex = 'complex' in flags or plotname.lower() == 'ac analysis'
        self.has_axis = plotname.lower() not in ('operating point', 'transfer function', 'integrated noise') \
            if has_axis is None else has_axis
        self.command = command if command is not None else {
            'ltspice': 'Linear Technology Corporation LTspice XVII', 'qspice': 'QSPICE64, Build Feb 11 2025 08:06:48',
            'ngspice': 'ngspice-44.2, Build ', 'xyce': ''}[dialect]

    @staticmethod
    def guess(n):
        return n if n in ('time', 'frequency') else 'voltage' if n[:1].upper() == 'V' else 'device_current'

    @property
    def npoints(self):
        return len(self.cols[0])

    def kind(self, i):
        """'d', 'f' or 'c': how trace i is stored (documented rules of each simulator)."""
        if self.complex:
            return 'd' if i == 0 and self.dialect == 'qspice' else 'c'
        if self.dialect != 'ltspice' or self.double or i == 0:
            return 'd'
        return 'f'

    def header(self):
        lines = [f'Title: {self.title}', 'Date: Thu Jan  1 00:00:00 2026', f'Plotname: {self.plotname}', f'Flags: {self.flags}',
                 f'No. Variables: {len(self.names)}', f'No. Points: {self.npoints:12}', 'Offset:   0.0000000000000000e+000']
        if self.command:
            lines.append(f'Command: {self.command}')
        lines += [f'.param {x}' for x in self.params]
        lines += [f'.alias {a} {f}' for a, f, _ in self.aliases]
        lines.append('Variables:')
        lines += [f'\t{i}\t{n}\t{t}' for i, (n, t) in enumerate(zip(self.names, self.types))]
        lines.append('Values:' if self.ascii else 'Binary:')
        return ''.join(x + self.eol for x in lines).encode(self.encoding)

    @staticmethod
    def pack(kind, v):
        if kind == 'c':
            v = complex(v)
            return struct.pack('<dd', v.real, v.imag)
        return struct.pack('<d' if kind == 'd' else '<f', v)

    def data(self):
        n = len(self.names)
        if self.ascii:
            out = []
            for k in range(self.npoints):
                for i in range(n):
                    v = self.cols[i][k]
                    if self.kind(i) == 'c':
                        v = complex(v)
                        t = f'{v.real:.17e},{v.imag:.17e}'
                    else:
                        t = f'{v:.17e}'
                    out.append((f'{k}\t\t' if i == 0 else '\t') + t + self.eol)
            return ''.join(out).encode(self.encoding)
        if self.fast:
            return b''.join(self.pack(self.kind(i), v) for i in range(n) for v in self.cols[i])
        return b''.join(self.pack(self.kind(i), self.cols[i][k]) for k in range(self.npoints) for i in range(n))

    def bytes(self):
        return self.header() + self.data()

    # ---- reference values
    def dtype(self, i):
        return {'d': np.float64, 'f': np.float32, 'c': np.complex128}[self.kind(i)]

    def wave(self, i):
        """All the points of trace i, as a reader has to deliver them."""
        if i >= len(self.names):
            return np.array(self.aliases[i - len(self.names)][2])
        w = np.array(self.cols[i], dtype=self.dtype(i))
        if i == 0 and self.has_axis and self.names[0] == 'time':
            w = np.abs(w)
        return w

    def offsets(self):
        o = [0]
        for n in (self.steps or [self.npoints]):
            o.append(o[-1] + n)
        return o

    def step(self, i, k):
        o = self.offsets()
        return self.wave(i)[o[k]:o[k + 1]]

    def all_names(self):
        return self.names + [a for a, _, _ in self.aliases]


def same(a, b):
    """Exact comparison of two vectors (NaN equals NaN, signed zeros alike)."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def samples(seed, n, complex_=False):
    """Distinct, exactly distinguishable samples; deterministic."""
    special = [0.1, -2.5, 3.25e-9, 1e30, -7.0, 1 / 3, 1234.5678, -1e-30, 0.0, 65536.0]
    out = []
    for k in range(n):
        v = special[(seed * 3 + k) % len(special)] + (seed + 1) * 0.001 * (k + 1)
        out.append(complex(v, -v / 7 + seed + k) if complex_ else v)
    return out


def layouts(n=4, extra=2):
    """name -> function(n points) -> Plot with `extra` traces besides the axis; every storage layout."""
    out = {}

    def add(name, **kw):
        kind = kw.pop('kind', 'tran')

        def build(n=n, steps=None, **over):
            k = dict(kw)
            k.update(over)
            lens = steps or [n]
            if kind == 'tran':
                names = ['time', 'V(out)', 'I(R1)', 'V(n_µ)'][:extra + 1]
                ax = [v for m in lens for v in [i * 1.5e-3 for i in range(m)]]
                cplx = False
            elif kind == 'dc':
                names = ['v1', 'V(out)', 'I(R1)', 'V(N2)'][:extra + 1]
                ax = [v for m in lens for v in [5 - i * 0.5 for i in range(m)]]
                cplx = False
            elif kind == 'op':
                names = ['V(in)', 'V(out)', 'I(R1)', 'V(N2)'][:extra + 1]
                ax = samples(7, sum(lens))
                cplx = False
            else:
                names = ['frequency' if k.get('dialect') != 'qspice' else 'Frequency', 'V(out)', 'I(R1)', 'V(N2)'][:extra + 1]
                ax = [v for m in lens for v in [10.0 ** i for i in range(m)]]
                cplx = True
            if k.get('dialect') == 'ngspice':
                names = [x.lower() for x in names]
            total = sum(lens)
            cols = [ax] + [samples(i + 1, total, cplx) for i in range(extra)]
            k.setdefault('plotname', {'tran': 'Transient Analysis', 'dc': 'DC transfer characteristic', 'op': 'Operating Point',
                                      'ac': 'AC Analysis'}[kind])
            k.setdefault('flags', {'tran': 'real forward', 'dc': 'real forward', 'op': 'real', 'ac': 'complex forward log'}[kind])
            return Plot(names=names, cols=cols, steps=steps, **k)
        out[name] = build
    for kind in ('tran', 'dc', 'ac', 'op'):
        add(f'lt-{kind}-normal', kind=kind)
        add(f'lt-{kind}-fast', kind=kind, fast=True)
        add(f'lt-{kind}-ascii', kind=kind, ascii=True, encoding='utf_8', eol='\r\n')
        add(f'qs-{kind}-normal', kind=kind, dialect='qspice', encoding='utf_8')
        add(f'ng-{kind}-normal', kind=kind, dialect='ngspice', encoding='utf_8')
    add('lt-tran-double', double=True)
    add('lt-tran-double-fast', double=True, fast=True)
    add('lt-tran-utf8', encoding='utf_8')
    add('lt-tran-ascii16', ascii=True)
    add('qs-tran-ascii', dialect='qspice', ascii=True, encoding='utf_8')
    add('qs-ac-ascii', kind='ac', dialect='qspice', ascii=True, encoding='utf_8')
    add('ng-ac-ascii', kind='ac', dialect='ngspice', ascii=True, encoding='utf_8')
    add('xy-tran-normal', dialect='xyce', encoding='utf_8')
    add('xy-tran-ascii', dialect='xyce', encoding='utf_8', ascii=True)
    for kind in ('dc', 'ac', 'op'):
        add(f'xy-{kind}-normal', kind=kind, dialect='xyce', encoding='utf_8', flags='complex' if kind == 'ac' else 'real')
    add('xy-ac-ascii', kind='ac', dialect='xyce', encoding='utf_8', ascii=True, flags='complex')
    return out
