"""C07: LTspice schematics: edit sequences and round trips of every form of text, label, symbol and shape."""
import itertools
import os

from mc import ascdoc as A
from mc import routes
from mc import sheets as S
from mc.core import Violation

PROPERTY = 'C07'
LEVEL = 'model_checking'
RULE = ('all sequences of up to the stated number of edits (depth in maxima) over the operation alphabet of each base schematic, on a freshly '
        'loaded real AscEditor, once reading everything after every edit and once only at the end; states are the distinct '
        'reference documents reached. Round trip: all combinations of the listed forms of TEXT, FLAG, SYMBOL, WINDOW and '
        'shapes in files of one encoding each')
ASSUMPTIONS = ['reference reader of .asc files in mc/ascdoc.py; values compared as numbers when they are numbers, blanks around texts not compared',
               'the value of a component is Value followed by Value2; setting it needs a Value attribute',
               'DATAFLAG lines are not kept (documented), widths other than Normal are not covered',
               'the blocks of a schematic are edited in the file of their schematic, which is saved with it',
               'Value can not be removed with None (left open)']

V = 4700
ALPHABET = {
    'elements': [('val', 'R1', V), ('val', 'R10', '{x}'), ('item', 'M1', 'NM 2'), ('val', 'V1', 'PULSE(0 1 0 1n)'), ('attr', 'V1', 1e-3), ('pyval', 'R10', 0.5),
                 ('val', 'C1', '1u'), ('val', 'R99', 1), ('cpar', 'R1', {'pwr': 0.5}), ('cpar', 'R1', {'pwr': None}), ('cpar', 'R1', {'tol': '5%', 'temp': 3}),
                 ('cpar', 'R10', {'temp': None}), ('cpar', 'R10', {'tc1': 6, 'tc': 7}), ('cpar', 'C1', {'Rser': None, 'x': None}), ('cpar', 'C1', {'V': 50}),
                 ('cpar', 'C1', {'Value': '1u'}), ('cpar', 'R1', {'value': 330}), ('cpar', 'V1', {'Value2': 'AC 2'}), ('cpar', 'V1', {'Value2': None}),
                 ('cpar', 'M1', {'SpiceModel': 'mos'}), ('cpar', 'M1', {'SpiceLine': 'l=1u w=2u'}), ('pypar', 'M1', {'l': '5u'}), ('cpar', 'C1', {'SpiceLine2': None}),
                 ('cpar', 'R99', {'a': 1}), ('model', 'R1', 'res2'), ('pos', 'R1', 16, -32, 'M270'), ('pos', 'V1', 0, 0, 'R180'), ('cattr', 'R10', 'Manufacturer', 'Other one'),
                 ('cattr', 'R1', 'Part', 'X 1'), ('del', 'R1'), ('del', 'R99'), ('add', 'R1', ('res', 16, 32, 'R0'), {'Value': '5'}),
                 ('add', 'R2', ('res', 16, 32, 'M90'), {'Value': '5', 'SpiceLine': 'temp=1'}), ('val', 'R2', 7), ('cval', 'R1', 33), ('cval', 'M1', '2N7002'), ('citem', 'R1', {'pwr': 2}), ('citem', 'C1', {'x': 4}), ('save',)],
    'params': [('par', 'x', 1.5e-6), ('par', 'X', '{y/2}'), ('par', 'xx', 11), ('par', 'y', 8), ('par', 'yy', '{z}'), ('par', 'my_x', 2), ('par', 'a', 5), ('par', 'c', '1k'),
               ('par', 'x', None), ('par', 'xx', None), ('par', 'yy', None), ('par', 'a', None), ('par', 'c', None), ('par', 'b', 4), ('par', 'gone', 2), ('par', 'gone', None),
               ('par', 'new', '{x+1}'), ('save',)],
    'empty': [('par', 'x', 1), ('par', 'x', 2), ('par', 'y', '{x}'), ('par', 'x', None), ('add', 'R1', ('my sym', 0, 0, 'R0'), {'Value': '1'}),
              ('add', 'C1', ('cap', -16, 160, 'M180'), {'Value': '1u', 'SpiceLine': 'Rser=1'}), ('add', 'V1', ('voltage', 5, 5, 'R270'), {}),
              ('del', 'R1'), ('val', 'R1', 5), ('val', 'V1', 5), ('cpar', 'C1', {'Rser': None}), ('cpar', 'V1', {'Rser': 2}), ('pos', 'C1', 1, 2, 'R90'), ('save',)],
}
SHEETS = [('val', 'R1', 5), ('val', 'X1:R1', 6), ('item', 'U2:R1', 7), ('attr', 'U2:C1', '2u'), ('pyval', 'X1:X1:R1', 8), ('val', 'U2:U1:R1', 9), ('val', 'X3:R1', 4), ('attr', 'X1:U1:V1', '5'),
          ('cpar', 'X1:R1', {'tol': None}), ('cpar', 'U2:R1', {'temp': 3}), ('cpar', 'X3:V1', {'Value2': None}), ('pypar', 'X1:X1:R1', {'pwr': 2}), ('citem', 'U2:C1', {'Rser': 1}), ('cpar', 'X1', {'q': 3}),
          ('model', 'X1:R1', 'res2'), ('model', 'U2:X1:R1', 'res2'), ('pos', 'X1:C1', 16, -32, 'M270'), ('pos', 'X1:X1:V1', 1, 2, 'R90'), ('pos', 'U2', 5, 6, 'R0'), ('cattr', 'X1:R1', 'Part', 'X 1'),
          ('cattr', 'U2:U1:R1', 'Part', 'Y 1'), ('del', 'X1:C1'), ('del', 'U2:X1'), ('del', 'X1'), ('del', 'X3:R1'), ('del', 'X1:R9'), ('val', 'U4:R1', 5), ('item', 'XU5:R1', 5), ('val', 'U4:R9', 5), ('val', 'X6:R1', 5),
          ('val', 'R1:R1', 5), ('val', 'X9:R1', 5), ('val', 'X1:X9:R1', 5), ('cpar', 'R1:R1', {'a': 1}), ('cattr', 'X9:R1', 'Part', 'a'), ('par', 'g', 3), ('in', 'X1', ('par', 'q', 5)), ('in', 'U2', ('par', 'r', '1k')),
          ('in', 'X1:X1', ('par', 's', 2)), ('in', 'X3', ('add', 'R9', ('res', 16, 32, 'R0'), {'Value': '5'})), ('in', 'X1', ('val', 'X1:R1', 3)), ('in', 'U2', ('del', 'R1')), ('in', 'U2', ('reset',)), ('model', 'X1', 'inner'), ('model', 'U1', 'blk'), ('model', 'X1:U1', 'opa'), ('model', 'X9', 'opa'), ('reset',), ('save',), ('read',)]
DEPTH = {'quick': {'elements': 2, 'params': 3, 'empty': 3}, 'thorough': {'elements': 3, 'params': 4, 'empty': 4}}

ALIGN = ['Left', 'Right', 'Top', 'Bottom', 'Center', 'Invisible', 'VLeft', 'VRight', 'VTop', 'VBottom', 'VCenter', 'VInvisible']
TEXTS = ['!.tran 1m', ';a comment', '!.param a=1\\n.param b=2', '; indented', ';', '!* comment', ';.param z=1', '!.op ; why', ';µ and ; !', '!+ x', ";A  B   C", '!;.dc V1 1 2 3']
NAMES = ['0', 'out', 'V+', 'a.b', 'µ1', 'NC_01', 'com']
DIRS = ['', 'In', 'Out', 'BiDir']
SHAPES = ['LINE Normal 1 2 3 4', 'LINE Normal 1 2 3 4 2', 'RECTANGLE Normal 5 6 -7 8', 'RECTANGLE Normal 5 6 -7 8 1', 'CIRCLE Normal 1 1 2 2', 'CIRCLE Normal 1 1 2 2 4',
          'ARC Normal 1 2 3 4 5 6 7 8', 'ARC Normal 1 2 3 4 5 6 7 8 3']
ATTRS = [[], ['Value 1k'], ['Value 1k', 'Value2 AC 1'], ['SpiceModel M1', 'Value'], ['SpiceLine a=1 b', 'SpiceLine2 c = 2'], ['Prefix X', 'Value sub', 'Def_Sub x'],
         ['Value {a;b}'], ['Value ""', 'Desc some  text']]
ENCODINGS = ['utf-8', 'cp1252', 'utf-16-le']


def round_trips():
    for al in ALIGN:
        for size in range(8):
            for t in TEXTS:
                yield 'text', [f'TEXT -8 {size} {al} {size} {t}']
    for a, b in itertools.product(TEXTS, repeat=2):
        yield 'texts', [f'TEXT 0 0 Left 2 {a}', f'TEXT 0 8 Left 2 {b}']
    for n in NAMES:
        for d in DIRS:
            for n2 in NAMES:
                for d2 in DIRS:
                    yield 'flag', [f'FLAG 1 -2 {n}'] + ([f'IOPIN 1 -2 {d}'] if d else []) + [f'FLAG 16 32 {n2}'] + ([f'IOPIN 16 32 {d2}'] if d2 else [])
    for sym in ('res', 'my sym'):
        for rot in A.ROT:
            for al in ALIGN:
                for num in (0, 3, 123, 39):
                    yield 'symbol', [f'SYMBOL {sym} 16 -32 {rot}', f'WINDOW {num} 1 -2 {al} 2', 'SYMATTR InstName R1', 'SYMATTR Value 1']
    for a, b in itertools.product(ATTRS, repeat=2):
        yield 'attributes', (['SYMBOL res 0 0 R0', 'WINDOW 0 1 2 Left 2', 'WINDOW 3 3 4 VTop 3', 'SYMATTR InstName R1'] + ['SYMATTR ' + x for x in a if x != 'Value']
                             + ['SYMBOL cap 0 0 M0', 'SYMATTR InstName C1'] + ['SYMATTR ' + x for x in b if x != 'Value'])
    for n in (1, 2, 3):
        for c in itertools.product(SHAPES, repeat=n):
            yield 'shapes', list(c)


REFS = ['R1', 'R10', 'M1', 'V1']
EDITS = [('value', 'R1', 4700), ('value', 'R10', '{x}'), ('value', 'V1', '5'), ('value', 'M1', 'NM2'), ('parameter', 'R1', 'temp', 5), ('parameter', 'R10', 'temp', None), ('parameter', 'C1', 'Lser', '{x}'),
         ('parameter', 'C1', 'Rser', None), ('parameter', 'V1', 'Value2', 'AC 2'), ('parameter', 'V1', 'Value2', None), ('parameter', 'M1', 'SpiceLine', 'l=1u w=2u'), ('clear', 'R10'), ('clear', 'C1'), ('clear', 'M1')]


SPECS = {'elements': (lambda: A.load(A.BASES['elements']), A.save, REFS, EDITS), 'sheets': (*routes.sheets(A, A.SYMBOLS), *routes.blocks('U2'))}


def jobs(tier):
    out = routes.jobs(SPECS, tier) + [['sheets', 0, []]] + [['sheets', {'quick': 2, 'thorough': 3}[tier], [i]] for i in range(len(SHEETS))] + [['round', enc, i, 4] for enc in ENCODINGS for i in range(4)]
    for base, alpha in ALPHABET.items():
        out.append([base, 0, []])
        for i in range(len(alpha)):
            if tier == 'thorough':
                out.append([base, 1, [i]])
                out += [[base, DEPTH[tier][base], [i, k]] for k in range(len(alpha))]
            else:
                out.append([base, DEPTH[tier][base], [i]])
    return out


def judge(case, rec, eager):
    if case['base'] == 'sheets':
        S.judge(A, A.SHEETS, A.SYMBOLS, A.block, case, rec)
        return
    base, ops = case['base'], [tuple(o) for o in case['ops']]
    if eager:
        e, doc = A.run_ops(base, ops, lambda e, d: A.check_getters(e, d, 'read'))
    else:
        e, doc = A.run_ops(base, ops)
    txt = A.save(e)
    A.check_text(txt, doc, 'saved')
    A.check_getters(e, doc, 'read')
    if A.save(e) != txt:
        raise Violation('save-twice', 'the second save differs from the first one')
    again = A.load(txt, 'again.asc')
    A.check_getters(again, doc, 'reloaded')
    A.check_text(A.save(again), doc, 'resaved')
    if rec is not None:
        rec.state(doc.canon())


def judge_round(case, rec):
    txt = '\n'.join(['Version 4', 'SHEET 1 880 680', 'WIRE 0 0 16 0', 'WIRE 16 0 16 -16'] + case['lines']) + '\n'
    e = A.load(txt, 'n.asc', case['encoding'])
    doc = A.Doc(txt)
    A.check_getters(e, doc, 'read')
    out = os.path.join(A.scratch(), 'out.asc')
    e.save_netlist(out)
    with open(out, encoding=case['encoding']) as f:
        A.check_text(f.read(), doc, 'saved')
    e.reset_netlist()
    A.check_text(A.save(e), doc, 'reset')
    e2 = A.AscEditor(out)
    A.check_text(A.save(e2), doc, 'resaved')
    if rec is not None:
        rec.state(txt)


def run_job(job, rec):
    if job[0] == 'round':
        _, enc, i, n = job
        for j, (kind, lines) in enumerate(round_trips()):
            if j % n != i:
                continue
            if enc != 'utf-8' and kind in ('shapes', 'symbol'):
                continue
            case = {'encoding': enc, 'lines': lines}
            rec.run(case, judge_round, case, rec)
            rec.case(kind)
        return
    if job[0] == 'routes':
        routes.run(SPECS, job, rec)
        return
    base, depth, first = job
    alpha = SHEETS if base == 'sheets' else ALPHABET[base]
    rec.maximum(f'depth_{base}', depth)
    for n in range(len(first), max(depth, len(first)) + 1):
        for rest in itertools.product(range(len(alpha)), repeat=n - len(first)):
            idx = list(first) + list(rest)
            for eager in (False, True) if len(idx) > 1 else (False,):
                case = {'base': base, 'ops': [alpha[i] for i in idx], 'eager': eager}
                rec.run(case, judge, case, rec, eager)
                rec.case(base)
                rec.trace()
                rec.step(len(idx))
        if not first:
            break
    rec.sample([alpha[i] for i in first])


def replay(case, rec):
    if 'ways' in case:
        routes.replay(SPECS, case)
        return
    judge_round(case, None) if 'lines' in case else judge(case, None, case['eager'])
