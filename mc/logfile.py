"""Logs printed from a model, in the layouts of LTspice and QSPICE.

A log is {'steps': [[var, text], ...] per step, 'meas': [{'name', 'kind', 'rows'}], 'style', 'enc', 'eol', 'four'}.
rows: one entry per step (one in all for a log without steps): a list of texts (value and its FROM/TO or at), 'FAIL' or None
(nothing printed for that step).
"""
import math
import os
import re

from mc.core import scratch

FLOATS = ['0.632016', '-0.0186257', '1', '0', '1e-05', '8.18166e+006', '1.5E+3', '-12', '1.00000000000000000001e+308', 'inf', '-inf']
COMPLEX = ['(-3.0103dB,-45°)', '(0.5,-0.25)', '(1e-05dB,1e+02°)', '(1.5,30°)', '(0,0)']
STEPVALS = ['1', '1000', '1e-06', '-40', '12589.2541179417', '1e+06', 'bc547', '0']
KINDS = {'interval': ['_from', '_to'], 'trig': ['_from', '_to'], 'point': ['_at'], 'expr': []}


def number(text):
    """The value a text stands for: a float, a complex, or the text itself."""
    m = re.fullmatch(r'\((.*?)(dB)?,(.*?)(°)?\)', text)
    if m:
        a, b = float(m.group(1)), float(m.group(3))
        if not m.group(4):
            return complex(a, b)
        mag = 10 ** (a / 20) if m.group(2) else a
        return complex(mag * math.cos(math.radians(b)), mag * math.sin(math.radians(b)))
    try:
        return float(text)
    except ValueError:
        return text.strip()


def same(got, want):
    """`got` (what was read) stands for `want` (float, complex, text or None: nothing there)."""
    if want is None:
        return got is None or (isinstance(got, str) and 'fail' in got.lower()) or (isinstance(got, float) and got != got)
    if isinstance(want, str):
        return got == want
    if isinstance(got, (list, tuple)) and len(got) == 2 and isinstance(want, complex):
        got = complex(*got)
    if isinstance(got, bool) or not isinstance(got, (int, float, complex)):
        return False
    if isinstance(want, complex) and hasattr(got, 'mag_db'):  # the ways of reading a complex value agree
        ph = math.degrees(math.atan2(want.imag, want.real))
        near = [(got.mag, abs(want)), (got.ph, ph), (got.ph_rad(), math.radians(ph))]
        if want:
            near.append((got.mag_db(), 20 * math.log10(abs(want))))
        if any(abs(a - b) > 1e-9 * max(1, abs(b)) for a, b in near):
            return False
    if isinstance(want, complex) or isinstance(got, complex):
        return abs(complex(got) - complex(want)) <= 1e-9 * max(1e-6, abs(want))
    return float(got) == want


def columns(log):
    """{column: value of each step} for the columns a log defines (lower case)."""
    out = {}
    for m in log['meas']:
        sfx = ['', *KINDS[m['kind']]]
        for k, s in enumerate(sfx):
            out[m['name'].lower() + s] = [number(r[k]) if isinstance(r, (list, tuple)) else None for r in m['rows']]
    return out


HEAD = {'old': ['Circuit: * C:\\my files\\a=b c.asc', '', '.OP point found by inspection.'],
        'new': ['LTspice 24.1.9 for Windows', 'Circuit: C:\\my files\\a=1.net', 'Start Time: Sun Mar  8 21:28:04 2026',
                'Options: plotwinsize=0 numdgt=15 measdgt=15', 'solver = Normal', 'tnom = 27', 'method = trap'],
        'mout': []}
TAIL = ['', '', 'Date: Sat Sep 30 11:00:38 2023', 'Total elapsed time: 0.115 seconds.', '', 'tnom = 27', 'temp = 27',
        'method = modified trap', 'totiter = 2162', 'matrix size = 3']
SYM = '¡µ°'


def lines(log):
    style = log.get('style', 'old')
    out = list(HEAD[style])
    steps, meas = log['steps'], log['meas']
    four = log.get('four', [])
    sp = log.get('space', '')
    if style != 'mout':
        if steps:
            for n, s in enumerate(steps):
                out.append('.step ' + sp + ' '.join(f'{v}={t}' for v, t in s) + sp)
                out += fourier(four, n)
        else:
            if log.get('bare'):
                out.append('.step ')
            out += fourier(four, 0)
        out += ['', '']
    stepped = steps or style == 'mout'
    for m in meas:
        expr = {'interval': 'RMS(V(OUT))', 'trig': m['name'], 'point': 'v(out)', 'expr': 'vout_rms/vin_rms'}[m['kind']]
        if stepped:
            out.append('Measurement: ' + m['name'])
            out.append('\t'.join(['  step', expr, *{'interval': ['FROM', 'TO'], 'trig': ['FROM', 'TO'], 'point': ['at'], 'expr': []}[m['kind']]]))
            for n, r in enumerate(m['rows']):
                if r is not None:
                    out.append('\t'.join([f'{n + 1:6d}', *(["FAIL'ed"] if r == 'FAIL' else r)]))
            out.append('')
        else:
            r = m['rows'][0]
            if r == 'FAIL' or r is None:
                out.append(f'Measurement "{m["name"]}" FAIL\'ed')
            elif m['kind'] == 'interval':
                out.append(f'{m["name"]}: {expr}={r[0]} FROM {r[1]} TO {r[2]}')
            elif m['kind'] == 'trig':
                out.append(f'{m["name"]}={r[0]} FROM {r[1]} TO {r[2]}')
            elif m['kind'] == 'point':
                out.append(f'{m["name"]}: {expr}={r[0]} at {r[1]}')
            else:
                out.append(f'{m["name"]}: {expr}={r[0]}')
    if style != 'mout':
        out += TAIL
    return out


def fourier(four, step):
    out = []
    for f in four:
        b = f['steps'][step] if step < len(f['steps']) else None
        if b is None:
            continue
        out += [f'N-Period={f["n"]}', f'Fourier components of {f["signal"]}', f'DC component:{b[0]}', '',
                'Harmonic\tFrequency\t Fourier \tNormalized\t Phase  \tNormalized',
                ' Number \t  [Hz]   \tComponent\t Component\t[degree]\tPhase [deg]']
        for k, h in enumerate(b[1]):
            out.append(f'    {k + 1}   \t {h[0]}\t {h[1]}\t {h[2]}\t {h[3]:>8}°\t {h[4]:>8}°')
        if f.get('phd'):
            out.append(f'Partial Harmonic Distortion: {f["phd"]}%')
        out += [f'Total Harmonic Distortion:   {f["thd"]}%', '', '']
    return out


def write(name, text_lines, enc='utf-8', eol='\n'):
    path = os.path.join(scratch('log'), name)
    data = eol.join(text_lines) + eol
    with open(path, 'wb') as f:
        f.write(data.encode(enc))
    return path


def qspice_lines(log):
    """(lines of the .log, lines of the .meas)"""
    n = len(log['steps'])
    a = []
    for k, s in enumerate(log['steps']):
        a.append(f'{k + 1} of {n} steps:  .step ' + ' '.join(f'{v}={t}' for v, t in s))
        if k == 0:
            a.append('C:\\my files\\a=b.net')
    if not n:
        a.append('C:\\my files\\a=b.net')
    a += ['', 'Total elapsed time: 0.126016 seconds.']
    b = []
    for m in log['meas']:
        typ = log.get('type', 'tran ')
        b.append(f'.meas {typ}{m["name"]} {m.get("expr", "find v(out) at 1m")}:')
        for k, r in enumerate(m['rows']):
            if r is None:
                continue
            vals = ['failed'] if r == 'FAIL' else r
            b.append((f'{k:4d}' if n else '') + ''.join(f' {v:>12}' for v in vals))
        if log.get('blank'):
            b.append('')
    return a, b


def qspice_columns(log):
    out = {}
    for m in log['meas']:
        width = max([len(r) for r in m['rows'] if isinstance(r, (list, tuple))], default=0)
        for k in range(width):
            out[m['name'].lower() + (f'_{k}' if k else '')] = [number(r[k]) if isinstance(r, (list, tuple)) and k < len(r) else None
                                                               for r in m['rows']]
    return out
