"""C08: QSPICE schematics: edit sequences, round trips of record texts, nets for every orientation."""
import itertools

from mc import qforms as F
from mc import qschdoc as Q
from mc import routes
from mc import sheets as S
from mc.core import Violation

PROPERTY = 'C08'
LEVEL = 'model_checking'
RULE = ('all sequences of up to the stated number of edits (depth in maxima) over the operation alphabet of each base schematic, on a freshly '
        'loaded real QschEditor, once reading everything after every edit and once only at the end; states are the distinct reference '
        'documents reached. Round trip: all texts of up to the stated number of tokens in every kind of record; nets: every pair '
        'of orientations and pin places')
ASSUMPTIONS = ['reference reader of .qsch files in mc/qschdoc.py; a schematic without edits is saved byte by byte, edited ones are compared record by record',
               'parameters of a component are in the texts after the value; quotes inside strings are not covered',
               'nets of components that were moved are not compared', 'components can not be added (no public way to make one)']

V = 4700
ALPHABET = {
    'elements': [('val', 'R1', V), ('val', 'R10', '{x}'), ('item', 'M1', 'NM2'), ('val', 'V1', 'PULSE 0 1 2µ'), ('attr', 'V1', 1e-3), ('pyval', 'R10', 0.5), ('val', 'R3', 5),
                 ('cval', 'D1', '1N5817'), ('cval', 'R1', 33), ('model', 'D1', 'BAV: 99'), ('val', 'B1', 'I=V(x)'), ('val', 'R99', 1), ('cpar', 'R1', {'tc': 1}), ('cpar', 'R1', {'tc': None}),
                 ('cpar', 'R10', {'tc1': 6, 'tc': 7}), ('cpar', 'R10', {'tc1': None}), ('cpar', 'C1', {'Rser': 2}), ('cpar', 'C1', {'ESL': None, 'Rser': None}), ('cpar', 'C1', {'V': '{v}'}),
                 ('cpar', 'V1', {'Cpar': 1e-12}), ('cpar', 'V1', {'Rser': None}), ('pypar', 'M1', {'W': '5u', 'm': 2}), ('citem', 'B1', {'tripdv': 3}), ('cpar', 'D1', {'temp': None}),
                 ('cpar', 'B1', {'V': 2}), ('cpar', 'R99', {'a': 1}), ('pos', 'R1', 200, -300, 'M270'), ('pos', 'V1', 0, 0, 'R45'), ('posint', 'R1', 0, 100, 90, 0), ('posint', 'R10', 0, 100, 180, 1),
                 ('del', 'R1'), ('del', 'R99'), ('del', 'C1'), ('par', 'res', 5), ('clear', 'C1'), ('clear', 'R10'),
                 ('line', 'C1', 2, 'Rser=9 n=1'), ('line', 'C1', 2, None), ('line', 'R10', 3, 4e-6), ('line', 'B1', 2, 'k=5'), ('line', 'R1', 1, 'x'), ('line', 'C1', 9, 'x'), ('save',)],
    'params': [('par', 'x', 1.5e-6), ('par', 'X', '{y/2}'), ('par', 'xx', 11), ('par', 'y', 8), ('par', 'yy', '{z}'), ('par', 'my_x', 2), ('par', 'a', 5), ('par', 'c', '1k'),
               ('par', 'x', None), ('par', 'xx', None), ('par', 'yy', None), ('par', 'a', None), ('par', 'c', None), ('par', 'b', 4), ('par', 'gone', 2), ('par', 'gone', None),
               ('par', 'new', '{x+1}'), ('par', 'plain', 6), ('par', 'plain', None), ('save',)],
    'empty': [('par', 'x', 1), ('par', 'x', 2), ('par', 'y', '{x}'), ('par', 'x', None), ('del', 'R1'), ('val', 'R1', 5), ('save',)],
}
SHEETS = [('val', 'R1', 5), ('val', 'X1:R1', 6), ('item', 'X2:R1', 7), ('attr', 'X2:C1', '2u'), ('pyval', 'X1:X1:R1', 8), ('model', 'X2:X7:R1', 9), ('val', 'X3:R1', 4), ('attr', 'X1:X7:V1', '5'), ('val', 'U4:R1', 3),
          ('cpar', 'X1:R1', {'tol': None}), ('cpar', 'X2:R1', {'temp': 3}), ('cpar', 'U4:R1', {'temp': 5}), ('pypar', 'X1:X1:R1', {'pwr': 2}), ('citem', 'X2:C1', {'Rser': 1}), ('cpar', 'X1', {'q': 3}),
          ('pos', 'X1:C1', 1600, -3200, 'M270'), ('posint', 'X1:X1:V1', 100, 200, 90, False), ('pos', 'X2', 5000, 6000, 'R0'), ('del', 'X1:C1'), ('del', 'X2:X1'), ('del', 'X1'), ('del', 'X3:R1'), ('del', 'X1:R9'),
          ('val', 'X5:R1', 5), ('val', 'R1:R1', 5), ('val', 'X9:R1', 5), ('val', 'X1:X9:R1', 5), ('cpar', 'R1:R1', {'a': 1}), ('par', 'g', 3), ('in', 'X1', ('par', 'q', 5)), ('in', 'X2', ('par', 'r', '1k')),
          ('in', 'X1:X1', ('par', 's', 2)), ('in', 'X1', ('val', 'X1:R1', 3)), ('in', 'X2', ('del', 'R1')), ('val', 'X1', 'inner'), ('model', 'X3', 'other'), ('attr', 'X2:X1', 'other'), ('val', 'X2', 'unknown'),
          ('in', 'X1', ('reset',)), ('reset',), ('save',), ('read',)]
DEPTH = {'quick': {'elements': 2, 'params': 2, 'empty': 4}, 'thorough': {'elements': 3, 'params': 4, 'empty': 6}}

TOKENS = ['a', ' ', ': ', ':', '<', '>', '(1,2)', '0x1', '{', '}', '=', ';', '\\n', 'µ', "'", '|', '5', '.param']
LENGTH = {'quick': 2, 'thorough': 3}


def round_trips(n):
    for k in range(n + 1):
        for tk in itertools.product(TOKENS, repeat=k):
            s = ''.join(tk)
            for c in (0, 1):
                yield 'text', Q.schematic(Q.txt(s, 0, c), Q.txt(Q.Q + s, 20, c))
            yield 'component', Q.schematic(Q.comp('R', 'R1', s or '1', texts=[s]), Q.comp('C', 'C1', '1', lib=s.strip(' |') or 'x'))
            if s == s.strip():
                yield 'label', Q.schematic(Q.comp('R', 'R1', '1').replace('A part', s))
            if s and ' ' not in s:
                yield 'net', Q.schematic(f'  «net (0,0) 1 13 0 "{s}"»\n  «wire (0,0) (0,100) "{s}"»\n', Q.comp('R', 'R1', '1', 0, 200))


def net_cases():
    pins = [(0, 200), (100, -200), (-200, -100), (300, 0), (200, 200), (-6300, 400), (5100, -7200)]
    for rot in range(16):
        for p in pins:
            for x, y in ((0, 0), (-1200, 300)):
                yield rot, p, x, y


REFS = ['R1', 'R10', 'C1', 'D1', 'M1', 'B1', 'V1']
EDITS = [('value', 'R1', 4700), ('value', 'R10', '{x}'), ('value', 'V1', '5'), ('value', 'M1', 'NM2'), ('parameter', 'R1', 'temp', 5), ('parameter', 'R10', 'tc1', None), ('parameter', 'C1', 'ESL', '{x}'),
         ('parameter', 'C1', 'Rser', None), ('parameter', 'M1', 'L', '3u'), ('parameter', 'D1', 'temp', 4.5), ('clear', 'C1'), ('clear', 'R10'), ('clear', 'R1')]


SPECS = {'elements': (lambda: Q.load(Q.BASES['elements']), Q.save, REFS, EDITS), 'sheets': (*routes.sheets(Q, {}), *routes.blocks('X2'))}


def jobs(tier):
    out = routes.jobs(SPECS, tier) + [['round', i, 4] for i in range(4)] + [['nets']] + [['forms', i, 8] for i in range(8)]
    for base, alpha in ALPHABET.items():
        out.append([base, 0, []])
        for i in range(len(alpha)):
            if tier == 'thorough' and len(alpha) > 10:
                out.append([base, 1, [i]])
                out += [[base, DEPTH[tier][base], [i, k]] for k in range(len(alpha))]
            else:
                out.append([base, DEPTH[tier][base], [i]])
    out += [['sheets', 0, []]] + [['sheets', {'quick': 2, 'thorough': 3}[tier], [i]] for i in range(len(SHEETS))]
    return [j + [tier] for j in out]


def judge(case, rec, eager):
    if case['base'] == 'sheets':
        e, sh, d, again = S.judge(Q, Q.SHEETS, {}, Q.block, case, rec)
        Q.check_net_sheets(Q.net_text(e), sh, 'read')
        Q.check_net_sheets(Q.net_text(again), sh, 'reloaded')
        return
    base, ops = case['base'], [tuple(o) for o in case['ops']]
    if eager:
        e, doc = Q.run_ops(base, ops, lambda e, d: Q.check_getters(e, d, 'read'))
    else:
        e, doc = Q.run_ops(base, ops)
    txt = Q.save(e)
    Q.check_text(txt, doc, 'saved')
    Q.check_getters(e, doc, 'read')
    Q.check_net_text(Q.net_text(e), doc, 'read')
    if Q.save(e) != txt:
        raise Violation('save-twice', 'the second save differs from the first one')
    again = Q.load(txt, 'again.qsch')
    doc.moved.clear()
    Q.check_getters(again, doc, 'reloaded')
    Q.check_net_text(Q.net_text(again), doc, 'reloaded')
    if Q.save(again, 'resaved.qsch') != txt:
        raise Violation('resaved', 'saving what was saved changes it')
    if rec is not None:
        rec.state(doc.canon())


def judge_same_file(case, rec):
    """Saving over the file the schematic was loaded from keeps the edits."""
    op = tuple(case['op'])
    doc = Q.Doc(Q.BASES[case['base']])
    e = Q.load(doc.base)
    want = doc.apply(op)
    try:
        Q.apply_real(e, op)
    except Q.EXPECTED as ex:
        if type(ex) is not want:
            raise
    e.save_netlist(e.circuit_file)
    with open(e.circuit_file, encoding='cp1252', newline='') as f:
        Q.check_text(f.read(), doc, 'own-file')


def judge_round(case, rec):
    e = Q.load(case['text'])
    doc = Q.Doc(case['text'])
    doc.judge_params = False  # any text, also such that are no parameters
    Q.check_getters(e, doc, 'read')
    Q.check_text(Q.save(e), doc, 'saved')
    Q.check_net_text(Q.net_text(e), doc, 'read')
    e.reset_netlist()
    Q.check_text(Q.save(e), doc, 'reset')
    if rec is not None:
        rec.state(case['text'])


def judge_net(case, rec):
    rot, pin, x, y = case['rot'], tuple(case['pin']), case['x'], case['y']
    ax, ay = Q.pin_at(x, y, rot, pin)
    base = Q.schematic(Q.comp('R', 'R1', '1', x, y, rot, pins=[pin, (500, 500)]), f'  «wire ({ax},{ay}) ({ax},{ay + 700}) "N03"»\n' if case['wire'] else f'  «net ({ax},{ay}) 1 13 0 "GND"»\n',
                       Q.comp('C', 'C1', '1', ax, ay, 0, pins=[(0, 0), (0, 100)]))
    judge_round({'text': base}, None)
    # the same after placing it there with the editor
    e = Q.load(Q.schematic(Q.comp('R', 'R1', '1', 7000, 7000, 0, pins=[pin, (500, 500)])))
    e.set_component_position('R1', Q.Point(x, y), Q.ERotation(rot * 45))
    Q.check_text(Q.save(e), Q.Doc(Q.schematic(Q.comp('R', 'R1', '1', x, y, rot, pins=[pin, (500, 500)]))), 'placed')
    if rec is not None:
        rec.state(base)


def run_job(job, rec):
    tier = job[-1]
    if job[0] == 'round':
        for j, (kind, t) in enumerate(round_trips(LENGTH[tier])):
            if j % job[2] == job[1]:
                case = {'text': t}
                rec.run(case, judge_round, case, rec)
                rec.case(kind)
        return
    if job[0] == 'forms':
        for j, case in enumerate(F.cases(tier)):
            if j % job[2] == job[1]:
                rec.run(case, F.judge, case, rec)
                rec.case('forms')
        return
    if job[0] == 'nets':
        for rot, pin, x, y in net_cases():
            for wire in (0, 1):
                case = {'rot': rot, 'pin': pin, 'x': x, 'y': y, 'wire': wire}
                rec.run(case, judge_net, case, rec)
                rec.case('nets')
        for base, alpha in ALPHABET.items():
            for op in alpha:
                case = {'base': base, 'op': op}
                rec.run(case, judge_same_file, case, rec)
                rec.case('own-file')
        return
    if job[0] == 'routes':
        routes.run(SPECS, job, rec)
        return
    base, depth, first = job[:3]
    alpha = SHEETS if base == 'sheets' else ALPHABET[base]
    rec.maximum(f'depth_{base}', depth)
    for n in range(len(first), max(depth, len(first)) + 1):
        for rest in itertools.product(range(len(alpha)), repeat=n - len(first)):
            idx = list(first) + list(rest)
            for eager in (False, True) if len(idx) > 1 else (False,):
                case = {'base': base, 'ops': [alpha[i] for i in idx], 'eager': eager}
                rec.run(case, judge, case, rec, eager)
                rec.case(base)
                rec.trace()
                rec.step(len(idx))
        if not first:
            break
    rec.sample([alpha[i] for i in first])


def replay(case, rec):
    if 'ways' in case:
        routes.replay(SPECS, case)
    elif 'text' in case:
        judge_round(case, None)
    elif 'kinds' in case:
        F.judge(case, None)
    elif 'rot' in case:
        judge_net(case, None)
    elif 'op' in case:
        judge_same_file(case, None)
    else:
        judge(case, None, case['eager'])
