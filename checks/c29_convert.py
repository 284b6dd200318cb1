"""C29: conversion of LTspice schematics to QSPICE: every record of every small schematic, found again in the converted file."""
import contextlib
import io
import itertools
import math
import os
import re
import sys

from mc import qschdoc as Q
from mc.core import Violation, fresh_dir
from spicelib.editor.asc_editor import AscEditor
from spicelib.editor.base_schematic import Line, Point
from spicelib.editor.qsch_editor import QschEditor
from spicelib.scripts import asc_to_qsch

PROPERTY = 'C29'
LEVEL = 'model_checking'
RULE = ('all schematics made of up to the stated number of records (maxima) of an alphabet of components, wires, labels, directives, comments and drawings, '
        'in both orders; every part in every orientation at several places with every value; all symbols of a small grammar of .asy files; every '
        'way of naming the files and symbol directories, also one conversion after another; each one converted by the real code, read by an independent '
        'reader of .qsch files and loaded again by the real editor. All wires of small extents against the points around them, and pairs of them')
ASSUMPTIONS = ['coordinates: x*6.25, y*-6.25, rounded in any direction', 'the mirrored orientations M90 and M270 are those of the current code (rotation, then mirroring)',
               'quotes inside texts, arcs of ellipses that do not begin and end on an axis, hierarchical schematics, subcircuits and symbols that can not be found are not covered; the angle of a label and the sizes of texts are free']

S = 6.25
PREFIX = {'res': 'R', 'cap': 'C', 'voltage': 'V', 'npn': 'QN'}
PINS = {'res': [(16, 16), (16, 96)], 'cap': [(16, 0), (16, 64)], 'voltage': [(0, 16), (0, 96)], 'npn': [(64, 0), (0, 48), (64, 96)]}
DRAW = {'res': 'LINE Normal 16 88 16 96\nRECTANGLE Normal 0 24 32 88\n', 'cap': 'LINE Normal 16 36 16 64\nLINE Normal 32 28 0 28 1\n', 'voltage': 'CIRCLE Normal -32 24 32 88\n',
        'npn': 'LINE Normal 16 80 16 16\n'}


def asy(prefix='R', pins=((16, 16), (16, 96)), draw='', windows=((0, 36, 40), (3, 36, 76)), desc='A part', value='', names=('A', 'B', 'C'), extra='', first='Version 4\nSymbolType CELL\n', order=(1, 2, 3), just=('NONE 0',), late=False):
    out = [first + draw.rstrip('\n')] if draw else [first.rstrip('\n')]
    out += [f'WINDOW {n} {x} {y} Left 2' for n, x, y in windows]
    if value:
        out.append(f'SYMATTR Value {value}')
    if prefix:
        out.append(f'SYMATTR Prefix {prefix}')
    if desc is not None:
        out.append(f'SYMATTR Description {desc}')
    if extra:
        out.append(extra)
    for i, (x, y) in enumerate(pins):
        out.append(f'PIN {x} {y} {just[i % len(just)]}')
        more = [f'PINATTR PinName {names[i]}'] if names else []
        more.insert(0 if late else 1, f'PINATTR SpiceOrder {order[i]}')
        out += more
    return '\n'.join(out) + '\n'


LIB = {n: asy(PREFIX[n], PINS[n], DRAW[n]) for n in PREFIX}
ROT = ['R0', 'R90', 'R180', 'R270', 'M0', 'M90', 'M180', 'M270']
TURN = {   # where LTspice shows the point (x, y) of a symbol
    'R0': lambda x, y: (x, y), 'R90': lambda x, y: (-y, x), 'R180': lambda x, y: (-x, -y), 'R270': lambda x, y: (y, -x),
    'M0': lambda x, y: (-x, y), 'M90': lambda x, y: (y, x), 'M180': lambda x, y: (x, -y), 'M270': lambda x, y: (-y, -x)}

VALUES = ['10k', '{r*2}', 'PULSE(0 5 1n 1n)', '10µ', 'a b', 'v=V(a,b)', '1N4148', '-5', '<x>', "'{p}'", 'a;b', '[1,2]', '(0,1)']
PLACES = [(0, 0), (176, -64), (-48, 320), (8, 24), (-5, 3)]
DIRECTIVES = ['.tran 1m', '.param a=1 b={a*2}', '.step param x 1 2 1\\n.op', '.lib a.lib', ".meas m param '1+x'", '.model D D(Is=1)', '* .op', '.param x=5µ ; b', 'K1 L1 L2 1', '.save V(a) I(R1)',
              '.func f(x) {x<3}', '.inc (1,2)']
LABELS = ['0', 'out', 'a(1)', 'V+', '$G_x', 'COM', 'net-1', 'N001']


def comp(sym, x, y, rot, ref, value='1k', attrs=()):
    out = [f'SYMBOL {sym} {x} {y} {rot}', f'SYMATTR InstName {ref}']
    if value is not None:
        out.append(f'SYMATTR Value {value}')
    return '\n'.join(out + [f'SYMATTR {a} {v}' for a, v in attrs])


def asc(*records):
    return 'Version 4\nSHEET 1 880 680\n' + ''.join(r + '\n' for r in records)


ALPHABET = [
    comp('res', 96, 64, 'R0', 'R1', '10k'), comp('res', 96, 400, 'R90', 'R2', '22k'), comp('cap', 240, 160, 'M0', 'C1', '1µ'), comp('voltage', 0, 80, 'R0', 'V1', 'SINE(0 1 1k)'),
    comp('npn', -96, 48, 'R270', 'Q1', 'BC547', [('Value2', 'area=2')]), comp('cap', 400, 160, 'R180', 'C12', None),
    'WIRE 112 80 0 80', 'WIRE 112 160 112 400', 'WIRE -16 80 0 80', 'FLAG 0 80 0', 'FLAG 112 160 out', 'FLAG 256 160 in\nIOPIN 256 160 In', 'TEXT 8 300 Left 2 !.tran 1m', 'TEXT -40 340 Left 2 !.param r=2',
    'TEXT 8 400 Left 2 ;a note', 'LINE Normal 0 16 640 -256 2', 'RECTANGLE Normal 16 32 -64 128', 'CIRCLE Normal 0 0 64 64']
RECORDS = {'quick': 4, 'thorough': 6}


# --- the source, read independently
def source(text):
    out = {'parts': [], 'wires': [], 'labels': [], 'texts': [], 'line': [], 'rect': [], 'ellipse': [], 'arc3p': []}
    for line in text.split('\n'):
        f = line.split(' ')
        if f[0] == 'ARC':
            out['arc3p'].append(tuple(map(int, f[2:10])))
        if f[0] == 'SYMBOL':
            out['parts'].append({'sym': ' '.join(f[1:-3]), 'at': (int(f[-3]), int(f[-2])), 'rot': f[-1], 'attrs': {}})
        elif f[0] == 'SYMATTR':
            out['parts'][-1]['attrs'][f[1]] = ' '.join(f[2:])
        elif f[0] == 'WIRE':
            out['wires'].append(tuple(map(int, f[1:5])))
        elif f[0] == 'FLAG':
            out['labels'].append((int(f[1]), int(f[2]), f[3]))
        elif f[0] == 'TEXT':
            s = ' '.join(f[5:])
            out['texts'].append((int(f[1]), int(f[2]), s[0], s[1:].strip()))
        elif f[0] in ('LINE', 'RECTANGLE', 'CIRCLE'):
            out[{'LINE': 'line', 'RECTANGLE': 'rect', 'CIRCLE': 'ellipse'}[f[0]]].append(tuple(map(int, f[2:6])))
    return out


def symbol(text):
    out = {'pins': [], 'line': [], 'rect': [], 'ellipse': [], 'arc3p': [], 'attrs': {}}
    for line in text.split('\n'):
        f = line.split(' ')
        if f[0] == 'ARC':
            out['arc3p'].append(tuple(map(int, f[2:10])))
        if f[0] == 'PIN':
            out['pins'].append([int(f[1]), int(f[2]), None, 0])
        elif f[0] == 'PINATTR' and f[1] == 'PinName':
            out['pins'][-1][2] = ' '.join(f[2:])
        elif f[0] == 'PINATTR' and f[1] == 'SpiceOrder':
            out['pins'][-1][3] = int(f[2])
        elif f[0] == 'SYMATTR':
            out['attrs'][f[1]] = ' '.join(f[2:])
        elif f[0] in ('LINE', 'RECTANGLE', 'CIRCLE'):
            out[{'LINE': 'line', 'RECTANGLE': 'rect', 'CIRCLE': 'ellipse'}[f[0]]].append(tuple(map(int, f[2:6])))
    return out


def xy(s):
    m = re.fullmatch(r'\((-?\d+(?:\.\d+)?),(-?\d+(?:\.\d+)?)\)', s)
    if not m:
        raise Violation('format', f'coordinates {s!r}')
    return float(m[1]), float(m[2])


def near(got, want):
    """want in LTspice units"""
    return abs(got[0] - want[0] * S) < 1.01 and abs(got[1] + want[1] * S) < 1.01


def match(got, want, same, what):
    got = list(got)
    for w in want:
        for g in got:
            if same(g, w):
                got.remove(g)
                break
        else:
            raise Violation(f'{what}-lost', f'{w} is not in the converted schematic: {got}')
    if got:
        raise Violation(f'{what}-extra', f'{got} is not in the source')


def ends(g, w):
    a, b = (w[0], w[1]), (w[2], w[3])
    return near(g[0], a) and near(g[1], b) or near(g[0], b) and near(g[1], a)


def arc(g, w):
    """An arc of LTspice: two corners of the box, and the directions of its start and end. QSPICE: start, end, center"""
    c = (w[0] + w[2]) / 2, (w[1] + w[3]) / 2
    r = abs(w[2] - w[0]) / 2, abs(w[3] - w[1]) / 2
    want = []
    for x, y in (w[4:6], w[6:8]):
        n = math.hypot(x - c[0], y - c[1])
        want.append((c[0] + r[0] * (x - c[0]) / n, c[1] + r[1] * (y - c[1]) / n))
    return all(abs(a[0] - b[0] * S) < 2.5 and abs(a[1] + b[1] * S) < 2.5 for a, b in zip(g, want + [c]))


def three_points(n):
    f = n.head.split(' ')
    return xy(f[1]), xy(f[2]), xy(f[3])


def labels_at(wire, src):
    """Names of the net of a wire"""
    def on(x, y, w):
        return (w[2] - w[0]) * (y - w[1]) == (w[3] - w[1]) * (x - w[0]) and min(w[0], w[2]) <= x <= max(w[0], w[2]) and min(w[1], w[3]) <= y <= max(w[1], w[3])

    group = [wire]
    for g in group:
        group += [w for w in src['wires'] if w not in group and (on(w[0], w[1], g) or on(w[2], w[3], g) or on(g[0], g[1], w) or on(g[2], g[3], w))]
    return {s for x, y, s in src['labels'] if any(on(x, y, g) for g in group)}


def two_points(n):
    f = n.head.split(' ')
    return xy(f[1]), xy(f[2])


TURN_Q = [lambda x, y: (x, y), lambda x, y: (-y, x), lambda x, y: (-x, -y), lambda x, y: (y, -x)]


def check(text, syms, out, note):
    src = source(text)
    with open(out, encoding='cp1252') as f:
        root = Q.read(f.read())
    # components
    nodes = root.all('component')
    if len(nodes) != len(src['parts']):
        raise Violation('components', f'{len(nodes)} components for {len(src["parts"])}')
    first = {}
    left = list(nodes)
    for p in src['parts']:
        p['ref'] = p['attrs']['InstName']
        f0 = first.setdefault(p['sym'], p)
        for n in left:
            f = n.head.split(' ')
            if near(xy(f[1]), p['at']) and part_texts(n)[:1] in ([p['ref']], [f0['ref']]):
                break
        else:
            raise Violation('component-lost', f'{p["ref"]} at {p["at"]}: {[(n.head, part_texts(n)) for n in left]}')
        left.remove(n)
        check_part(n, p, f0, symbol(syms[p['sym']]), note)
    # connections
    match([two_points(n) for n in root.all('wire')], src['wires'], ends, 'wire')
    match([(xy(n.head.split(' ')[1]), n.head.split('"')[1]) for n in root.all('net')], src['labels'], lambda g, w: near(g[0], w[:2]) and g[1] == w[2], 'label')
    for n in root.all('wire'):
        net = n.head.split('"')[1]
        names = labels_at([w for w in src['wires'] if ends(two_points(n), w)][0], src)
        if net == '0' and '0' not in names:
            note('wire-net', f'the wire {n.head} is in the net 0, it is in {sorted(names) or "one without name"}')
        elif names and net not in names:
            raise Violation('wire-name', f'{n.head} is in {sorted(names)}')
    # texts
    got = [(xy(n.head.split(' ')[1]), n.str, n.comment) for n in root.all('text')]
    lost = []
    for x, y, kind, s in src['texts']:
        for g in got:
            if not near(g[0], (x, y)):
                continue
            if kind == '!' and g[1:] == (Q.Q + s, False):
                break
            if kind == ';' and g[1] == s:
                break
            if kind == ';' and g[1:] == (Q.Q + s, False):
                note('comment-live', f'the comment {s!r} is a directive in the converted schematic')
                break
        else:
            lost.append((x, y, kind, s))
            continue
        got.remove(g)
    if lost or got:
        raise Violation('texts', f'lost {lost}, more {got}')
    for k in ('line', 'rect', 'ellipse'):
        match([two_points(n) for n in root.all(k)], src[k], ends, k)
    match([three_points(n) for n in root.all('arc3p')], src['arc3p'], arc, 'arc')
    # loaded again
    e = QschEditor(out)
    want = {p['shown_ref']: p['shown_value'] for p in src['parts']}
    if sorted(e.get_components()) != sorted(want):
        raise Violation('load-components', f'{e.get_components()} instead of {sorted(want)}')
    for ref, v in want.items():
        if e.get_component_value(ref) != v:
            raise Violation('load-value', f'{ref} is {e.get_component_value(ref)!r} instead of {v!r}')
    return src


def part_texts(n):
    return [t.str for s in n.all('symbol') for t in s.all('text')]


def check_part(n, p, f0, sym, note):
    f = n.head.split(' ')
    a = p['attrs']
    if f[3:] and f[3] != '0':
        raise Violation('disabled', f'{p["ref"]} {n.head}')
    boxes = n.all('symbol')
    if len(boxes) != 1:
        raise Violation('symbol-lost', f'{p["ref"]} has {len(boxes)} symbols')
    box = boxes[0]
    t = part_texts(n)
    default = sym['attrs'].get('Value')
    shown = t[1:2]
    # the value, with the second value and the parameters in the same text or in the ones after it
    want = [a[k] for k in ('Value', 'Value2', 'SpiceLine', 'SpiceLine2') if a.get(k)]
    if p is not f0 and t[:2] == first_texts(f0) and t[:2] != [p['ref'], a.get('Value')]:
        note('reused-symbol', f'{p["ref"]} = {a.get("Value")} is written as {t[0]} = {t[1]}, the first component with the symbol {p["sym"]}')
        p['shown_ref'], p['shown_value'] = t[:2]
        f0['shown_ref'] = t[0]
    else:
        if t[:1] != [p['ref']]:
            raise Violation('reference', f'{p["ref"]} is called {t[:1]}')
        if 'Value' not in a and shown == ['<val>']:
            if default is not None:
                note('no-value', f'{p["ref"]} has the value <val>, the symbol has {default!r}')
        elif 'Value' not in a and default is not None and want == []:
            if shown != [default]:
                raise Violation('value', f'{p["ref"]} has {t} and no value of its own, the symbol has {default!r}')
        else:
            value = [a[k] for k in ('Value', 'Value2') if a.get(k)]
            if t[1:] == value != want:
                note('parameters', f'{p["ref"]} has lost the parameters {want[len(value):]}')
            elif ' '.join(t[1:]) != ' '.join(want):
                raise Violation('value', f'{p["ref"]} has {t[1:]} instead of {want}')
            if shown != want[:1]:
                raise Violation('value', f'{p["ref"]} has the value {shown} instead of {want[:1]}')
        p['shown_ref'], p['shown_value'] = p['ref'], shown[0]
    typ = box.all('type:')
    if len(typ) != 1 or typ[0].head.split(' ')[1:] != [sym['attrs'].get('Prefix', 'X').upper()]:
        raise Violation('type', f'{p["ref"]} has the type {[x.head for x in typ]}')
    desc = [d.head.partition(' ')[2] for d in box.all('description:')]
    if desc and desc != [sym['attrs'].get('Description', '')]:
        raise Violation('description', f'{desc}')
    # pins, where they are in the schematic
    k = int(f[2])
    pins = []
    for q in box.all('pin'):
        x, y = xy(q.head.split(' ')[1])
        x, y = TURN_Q[k % 8 // 2](x, y)
        pins.append((x if k < 8 else -x, y, q.head.split('"')[1]))
    ox, oy = xy(f[1])
    if k % 2 or not 0 <= k < 16:
        raise Violation('orientation', n.head)
    # QSPICE: the nodes in the netlist are in the order of the pins
    want = [(*TURN[p['rot']](x, y), name or '') for x, y, name, _ in sorted(sym['pins'], key=lambda q: q[3])]
    same = [abs(g[0] - w[0] * S) < 1.01 and abs(g[1] + w[1] * S) < 1.01 and g[2] == w[2] for g, w in zip(pins, want)]
    if len(pins) != len(want) or not all(same):
        raise Violation('pins', f'{p["ref"]} in {p["rot"]} has the pins {pins} around its place, instead of {want} (times 6.25, -6.25)')
    for kind in ('line', 'rect', 'ellipse'):
        match([two_points(x) for x in box.all(kind)], sym[kind], ends, f'symbol-{kind}')
    match([three_points(x) for x in box.all('arc3p')], sym['arc3p'], arc, 'symbol-arc')


def first_texts(f0):
    return [f0['shown_ref'], f0['shown_value']]


# --- conversion
@contextlib.contextmanager
def new_dir():
    d = fresh_dir('conv')
    yield os.path.realpath(d)


def write(path, text, enc='utf-8'):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding=enc, newline='') as f:
        f.write(text)


def convert(a, q, paths=None, cli=None):
    with contextlib.redirect_stdout(io.StringIO()):
        if cli is None:
            asc_to_qsch.convert_asc_to_qsch(a, q, *([] if paths is None else [paths]))
        else:
            old = sys.argv
            sys.argv = ['asc_to_qsch'] + cli
            try:
                asc_to_qsch.main()
            except SystemExit as e:
                if e.code:
                    raise Violation('exit', f'{cli}: {e.code}')
            finally:
                sys.argv = old


def judge(case, rec, note):
    with new_dir() as d:
        syms = dict(LIB, **case.get('syms', {}))
        for n in {s['sym'] for s in source(case['text'])['parts']}:
            write(f'{d}/{n}.asy', syms[n])
        write(f'{d}/s.asc', case['text'], case.get('enc', 'utf-8'))
        before = open(f'{d}/s.asc', 'rb').read()
        convert(f'{d}/s.asc', f'{d}/t.qsch')
        check(case['text'], syms, f'{d}/t.qsch', note)
        if open(f'{d}/s.asc', 'rb').read() != before:
            raise Violation('source-changed', 'the conversion changed the source')
        if rec is not None:
            rec.state(case['text'] + repr(case.get('syms')))


A = asc(comp('res', 96, 64, 'R0', 'R1', '10k'), 'WIRE 112 80 0 80', 'FLAG 0 80 0', 'TEXT 8 300 Left 2 !.tran 1m')
B = asc(comp('res', -96, 0, 'R180', 'R7', '33'), comp('cap', 0, 0, 'R0', 'C1', '2µ'), 'FLAG 16 80 b', 'TEXT 0 0 Left 2 !.op')
OTHER = {'res': asy('R', [(0, 0), (0, 160)], 'LINE Normal 0 0 0 160\n', desc='Another one', names='+-')}
# where the schematic is, how it is named (cwd is d), output name, extra symbol directories, where symbols are
CALLS = [(sub, absolute, out, paths, where, cli)
         for sub in ('', 'in', 'my dir/a.b')
         for absolute in (0, 1)
         for out in ('same', 'new', 'over')
         for where in ('beside', 'below', 'extra', 'extra-below', 'cwd', 'custom', 'custom-misc', 'two')
         for paths in ((['lib'],) if where.startswith('extra') else (['lib', 'alt'], ['alt', 'lib'], ['none', 'alt', 'lib']) if where == 'two' else ([], ['lib'], ['none', 'lib']))
         for cli in (0, 1)]


def judge_call(case, rec, note):
    sub, absolute, out, paths, where, cli = case['call']
    cwd = os.getcwd()
    with new_dir() as d:
        work = os.path.join(d, 'work')
        base = os.path.join(work, sub)
        os.makedirs(base)
        place = {'beside': base, 'below': os.path.join(base, 'sym'), 'extra': os.path.join(d, 'lib'), 'extra-below': os.path.join(d, 'lib', 'x y'),
                 'cwd': os.path.join(work, 'other'), 'custom': os.path.join(d, 'own'), 'custom-misc': os.path.join(d, 'own', 'Misc'), 'two': os.path.join(d, 'lib', 'a')}[where]
        os.makedirs(os.path.join(d, 'lib'), exist_ok=True)
        for n in ('res', 'cap'):
            write(f'{place}/{n}.asy', LIB[n])
        syms = LIB
        if where == 'two':      # in both folders: the first one given has the symbols
            write(f'{d}/alt/res.asy', OTHER['res'])
            if paths.index('alt') < paths.index('lib'):
                syms = dict(LIB, **OTHER)
        a = os.path.join(base, 's.asc')
        text = B.replace('SYMBOL ', 'SYMBOL Misc\\\\') if where == 'custom-misc' else B
        write(a, text)
        target = os.path.splitext(a)[0] + '.qsch' if out == 'same' else os.path.join(work, 'out.qsch')
        if out == 'over':
            write(target, Q.schematic(Q.comp('R', 'R99', '1')))
        os.chdir(work)
        if where.startswith('custom'):
            AscEditor.set_custom_library_paths(os.path.join(d, 'own'))
        try:
            src, dst = (a, target) if absolute else (os.path.relpath(a), os.path.relpath(target))
            lib = [os.path.join(d, p) if absolute else os.path.join('..', p) for p in paths]
            if cli:
                convert(None, None, cli=[x for p in lib for x in ('-a', p)] + ([src] if out == 'same' else [src, dst]))
            else:
                convert(src, dst, lib or None)
        finally:
            os.chdir(cwd)
            AscEditor.set_custom_library_paths()
        check(B, syms, target, note)
        if rec is not None:
            rec.state(case)


def judge_twice(case, rec, note):
    """Conversions one after another in one process: each is as if it were alone."""
    with new_dir() as d:
        for i, (text, own) in enumerate(case['seq']):
            syms = dict(LIB, **(OTHER if own else {}))
            base = f'{d}/{case["dirs"][i]}'
            for n in ('res', 'cap'):
                write(f'{base}/{n}.asy', syms[n])
            write(f'{base}/s.asc', text)
            convert(f'{base}/s.asc', f'{base}/t{i}.qsch')
            check(text, syms, f'{base}/t{i}.qsch', note)
        if rec is not None:
            rec.state(case)


# --- the space
def parts():
    for sym in PREFIX:
        for rot in ROT:
            for x, y in PLACES:
                for v in VALUES:
                    yield {'text': asc(comp(sym, x, y, rot, PREFIX[sym][0] + '1', v))}
    for v in VALUES:
        for sym in ('res', 'voltage'):
            yield {'text': asc(comp(sym, 0, 0, 'R0', 'X1'[0:0] + PREFIX[sym] + 'a', v))}
            for k in ('Value2', 'SpiceLine', 'SpiceLine2'):
                yield {'text': asc(comp(sym, 0, 0, 'R90', PREFIX[sym] + '_1', v, [(k, 'tc=1 m=2')]))}
                yield {'text': asc(comp(sym, 0, 0, 'R90', PREFIX[sym] + '_1', '5', [(k, v)]))}
    for enc in ('utf-8', 'cp1252', 'utf-16'):
        yield {'text': asc(comp('res', 0, 0, 'R0', 'R1', '10µ'), 'TEXT 0 0 Left 2 !.param x=5µ', 'FLAG 0 0 µ'), 'enc': enc}
    for s in ('–', '€', '²'):
        yield {'text': asc(comp('res', 0, 0, 'R0', 'R1', s), f'TEXT 0 0 Left 2 !.param x={s}')}
    for n in range(5):
        for order in itertools.permutations(['Value', 'Value2', 'SpiceLine', 'SpiceLine2'], n):
            yield {'text': asc(comp('res', 0, 0, 'R0', 'R1', None, [(k, f'v{i}') for i, k in enumerate(order)] if 'Value' in order else [('Value', '1')] + [(k, f'v{i}') for i, k in enumerate(order)]))}
            yield {'text': asc('SYMBOL res 0 0 R0\nWINDOW 0 8 40 Left 2\nWINDOW 3 8 80 Left 2\nWINDOW 123 0 0 Left 0\n' + '\n'.join(f'SYMATTR {k} {v}' for k, v in
                                                                                   [(k, f'w{i}') for i, k in enumerate(order)] + [('InstName', 'R5')] + ([] if 'Value' in order else [('Value', '1')])))}


def texts():
    for i, s in enumerate(DIRECTIVES):
        for x, y in PLACES:
            for al in ('Left', 'Right', 'Center', 'Top', 'VLeft'):
                yield {'text': asc(f'TEXT {x} {y} {al} {i % 8} !{s}')}
        yield {'text': asc(f'TEXT 0 0 Left 2 ;{s}')}
        for t in DIRECTIVES:
            yield {'text': asc(f'TEXT 0 0 Left 2 !{s}', f'TEXT 0 32 Left 2 !{t}')}
    for s in LABELS:
        for x, y in PLACES:
            yield {'text': asc(f'FLAG {x} {y} {s}')}
        for t in LABELS:
            yield {'text': asc('WIRE 0 0 0 96', f'FLAG 0 0 {s}', f'FLAG 0 96 {t}')}
        for io_ in ('In', 'Out', 'BiDir'):
            yield {'text': asc(f'FLAG 0 16 {s}', f'IOPIN 0 16 {io_}', 'FLAG 16 16 z')}
    for a, b in itertools.product(PLACES, repeat=2):
        yield {'text': asc(f'WIRE {a[0]} {a[1]} {b[0]} {b[1]}')}
        for k in ('LINE', 'RECTANGLE', 'CIRCLE'):
            for style in ('', ' 1', ' 4'):
                yield {'text': asc(f'{k} Normal {a[0]} {a[1]} {b[0]} {b[1]}{style}')}


def symbols():
    one = asc(comp('s', 32, 48, 'R0', 'R1', '4k7'))
    two = asc(comp('s', 32, 48, 'M0', 'R1', '4k7', [('Value2', 'tc=1')]))
    wins = [(0, 36, 40), (3, 36, 76), (123, 0, 100), (39, 5, 5), (38, 7, 7)]
    for n in range(len(wins) + 1):
        for w in itertools.permutations(wins, n):
            if n > 3 and w[:1] != ((3, 36, 76),):
                continue
            yield {'text': one, 'syms': {'s': asy(windows=w)}}
            yield {'text': two, 'syms': {'s': asy(windows=w)}}
    for prefix in ('R', 'r', 'QN', 'MN', 'D'):
        for desc in (None, '', 'x', 'a (b, c): d', 'A 1'):
            for names in (None, ('1', '2'), ('in p', 'out n'), ('+', '-'), ('a=1', 'b|2'), ('', 'x'), ('a(1)', '(0,0)')):
                for value in ('', 'D', '1k'):
                    yield {'text': one, 'syms': {'s': asy(prefix, desc=desc, names=names, value=value)}}
    for first in ('Version 4\nSymbolType CELL\n', 'Version 4.1\nSymbolType CELL\n', 'VERSION 4\nSymbolType CELL\n'[:0] + 'Version 4\nSymbolType CELL\n'):
        for d in ('', 'LINE Normal -16 8 16 -8\n', 'CIRCLE Normal 4 4 12 12\n', 'RECTANGLE Normal 0 0 8 8 2\n', 'TEXT 0 0 Left 2 note\n', 'LINE Normal 0 0 1 1\nTEXT 16 16 Left 2 note\n'):
            for n in range(4):
                for p in itertools.permutations([(0, 0), (-16, 32), (48, -8)], n):
                    yield {'text': one, 'syms': {'s': asy(pins=p, draw=d, first=first)}}
    for order in list(itertools.permutations((1, 2, 3))) + [(2, 10, 1), (3, 11, 20), (10, 9, 100)]:
        for just in (('NONE 0',), ('LEFT 8', 'RIGHT 8'), ('TOP 8', 'BOTTOM 4'), ('VLEFT 8', 'VRIGHT 8', 'VTOP 0'), ('VBOTTOM 8', 'NONE 8')):
            for late in (False, True):
                for rot in ('R0', 'M90'):
                    yield {'text': asc(comp('s', 32, 48, rot, 'Q1', '4k7')), 'syms': {'s': asy('QN', pins=PINS['npn'], order=order, just=just, late=late, names=('C', 'B', 'E') if rot == 'R0' else None)}}
    for v in ('D', '1k', '10µ'):
        yield {'text': asc(comp('s', 0, 0, 'R0', 'D1', None)), 'syms': {'s': asy('D', value=v)}}
    yield {'text': asc(comp('s', 0, 0, 'R0', 'D1', None)), 'syms': {'s': asy('D', value='')}}


def arcs():
    """Arcs of every box, in every order of its corners, from every direction to every other one"""
    for rx, ry in ((16, 16), (160, 160), (4, 4), (32, 16), (8, 48), (5, 5), (7, 3)):
        for cx, cy in ((0, 0), (96, -64), (-11, 300)):
            around = [(1, 0), (0, 1), (-1, 0), (0, -1)] + ([(3, 4), (-4, 3), (-1, -1), (5, -12)] if rx == ry else [])
            for sx, sy in itertools.product((1, -1), repeat=2):
                for (ax, ay), (bx, by) in itertools.permutations(around, 2):
                    k, m = (rx, ry) if rx == ry else (100, 200)
                    a = f'ARC Normal {cx - sx * rx} {cy - sy * ry} {cx + sx * rx} {cy + sy * ry} {cx + ax * k} {cy + ay * k} {cx + bx * m} {cy + by * m}'
                    style = ' 2' if ax == 1 else ''
                    yield {'text': asc(a + style)}
                    if (cx, sx) != (96, -1):
                        yield {'text': asc(comp('s', 32, 48, 'R90', 'R1', '4k7')), 'syms': {'s': asy(draw=a + style + '\n')}}


def sequences():
    for n in (2, 3):
        for seq in itertools.product([(A, 0), (B, 0), (A, 1), (B, 1)], repeat=n):
            yield {'seq': seq, 'dirs': ['a', 'b', 'c'][:n]}
            if len({o for _, o in seq}) == 1:
                yield {'seq': seq, 'dirs': ['a'] * n}


def calls():
    for c in CALLS:
        yield {'call': c}


GROUPS = {'parts': (parts, judge), 'texts': (texts, judge), 'symbols': (symbols, judge), 'arcs': (arcs, judge), 'twice': (sequences, judge_twice), 'calls': (calls, judge_call)}


def jobs(tier):
    out = [[g, i, 4] for g in GROUPS for i in range(4)]
    out += [['wires', i, tier] for i in range(4)]
    out += [['records', i, RECORDS[tier]] for i in range(len(ALPHABET))]
    return out


def judge_any(case, rec, known):
    """Differences of the known kinds are collected, the rest of the schematic is still compared."""
    fn = judge_call if 'call' in case else judge_twice if 'seq' in case else judge
    fn(case, rec, known)


def run_case(case, rec, kind):
    rec.run(case, judge_any, case, rec, lambda key, msg: rec.violation(key, msg, case))
    rec.case(kind)


def passes(a, b, p):
    """The point is on the segment, coordinates are integers."""
    return (b[0] - a[0]) * (p[1] - a[1]) == (b[1] - a[1]) * (p[0] - a[0]) and all(min(a[k], b[k]) <= p[k] <= max(a[k], b[k]) for k in (0, 1))


def wire(a, b):
    return Line(Point(*a), Point(*b))


def check_touch(case):
    """A wire touches the points that it passes through, two of them intercept when an end of one is on the other."""
    a, b, margin = case
    w = wire(a, b)
    n = 0
    dx, dy = b[0] - a[0], b[1] - a[1]
    if margin:    # all points around
        pts = [(x, y) for x in range(min(a[0], b[0]) - margin, max(a[0], b[0]) + margin + 1) for y in range(min(a[1], b[1]) - margin, max(a[1], b[1]) + margin + 1)]
    else:         # the ones near to the line
        pts = [(a[0] + k, a[1] + k * dy // (dx or 1) + j) for k in range(min(0, dx) - 1, max(0, dx) + 2) for j in (-1, 0, 1)]
    for p in pts:
        want = passes(a, b, p)
        n += want
        if bool(w.touches(Point(*p))) != want:
            raise Violation('touch', f'wire {a} - {b}: touches({p}) is {w.touches(Point(*p))}')
    return f'touch {n}'


def check_intercept(case):
    a, b, c, d = case
    want = passes(a, b, c) or passes(a, b, d) or passes(c, d, a) or passes(c, d, b)
    for p, q in (((a, b), (c, d)), ((b, a), (c, d)), ((c, d), (b, a))):
        if bool(wire(*p).intercepts(wire(*q))) != want:
            raise Violation('touch', f'wires {p} and {q}: intercepts is {not want}')
    return f'intercepts {want}'


def wires(i, n):
    top = {'quick': 9, 'thorough': 20}[n]
    for dx in range(-top, top + 1):
        for dy in range(-top, top + 1):
            if (dx + dy) % 4 == i:
                for a in ((0, 0), (-3, 5), (176, -1024)):
                    yield 'touch', [a, (a[0] + dx, a[1] + dy), 1]
    top = {'quick': 120, 'thorough': 400}[n]
    for dx in range(1, top):
        for dy in range(1, top):
            if (dx + dy) % 4 == i and (dx < 9 or dy < 9 or (dx * dy) % 7 == 0):
                yield 'touch', [(0, 0), (dx, dy), 0]
                yield 'touch', [(16, 48), (16 - 16 * dx, 48 + 16 * dy), 0] if dx * 16 < 300 else [(7, 0), (7 - dx, dy), 0]
    grid = list(itertools.product(range(3 if n == 'quick' else 4), repeat=2))
    for a, b, c, d in itertools.product(grid, repeat=4):
        if (a[0] + b[1] + c[0] + d[1]) % 4 == i:
            yield 'intercepts', [a, b, c, d]


def run_job(job, rec):
    g, i, n = job
    if g == 'wires':
        for what, case in wires(i, n):
            rec.case(rec.run({what: case}, check_touch if what == 'touch' else check_intercept, case))
            rec.state(case)
        return
    if g == 'records':
        rec.maximum('records', n)
        for k in range(n):
            for rest in itertools.combinations(range(i + 1, len(ALPHABET)), k):
                r = [ALPHABET[j] for j in (i, *rest)]
                for t in (r, r[::-1])[:1 if k == 0 else 2]:
                    run_case({'text': asc(*t)}, rec, 'records')
        return
    for j, case in enumerate(GROUPS[g][0]()):
        if j % n == i:
            run_case(case, rec, g)
            if j < 8:
                rec.sample(case)


def replay(case, rec):
    for what, fn in (('touch', check_touch), ('intercepts', check_intercept)):
        if what in case:
            fn([tuple(x) if isinstance(x, list) else x for x in case[what]])
            return
    notes = []
    judge_any(case, None, lambda key, msg: notes.append((key, msg)))
    if notes:
        raise Violation(*notes[0])
