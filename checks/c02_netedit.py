"""C02: edit sequences on netlists, read back from the editor, from the saved text and from the saved file loaded again."""
import itertools

from mc import fresh
from mc import netedit as N
from mc import routes
from mc import spice
from mc.core import Violation

PROPERTY = 'C02'
LEVEL = 'model_checking'
RULE = ('all sequences of up to the stated number of edits (depth in maxima) over the operation alphabet of each base netlist; '
        'each sequence runs on a freshly loaded real SpiceEditor, once reading everything after every edit and once only '
        'at the end; states are the distinct reference documents reached. Components made from attributes: 10 kinds x ways to name '
        'the attributes x numbers and widths of parameters x what is done afterwards')
ASSUMPTIONS = ['reference reader of netlist text in mc/spice.py; statements compared token by token, numbers by value, comments literally',
               'added statements may be anywhere between title and .end; comments starting with "* SpiceEditor" are the '
               "library's own",
               'removing a circuit parameter that does not exist is a no-op']

V = 4700
ALPHABET = {
    'params': [('par', 'x', 1.5e-6), ('par', 'X', '{R/2}'), ('par', 'xx', 11), ('par', 'R', '3.3k'), ('par', 'RR', 8), ('par', 'r2', 0),
               ('par', 'my_x', 2), ('par', 'e', '{y}'), ('par', 's', '"a b"'), ('par', 'x', None), ('par', 'R', None),
               ('par', 'xx', None), ('par', 'RR', None), ('par', 'new', 5), ('par', 'new_x', '{x}'), ('par', 'new', None),
               ('par', 'my_x', None), ('par', 's', None), ('save',)],
    'elements': [('val', 'R1', V), ('val', 'R10', '{x}'), ('val', 'r2', 1e-3), ('item', 'R3', '1k'), ('val', 'V1', 5),
                 ('model', 'V1', 'PULSE(0 1 0 1n)'), ('model', 'D1', 'D1N4148'), ('model', 'M1', 'PMOS'), ('attr', 'C1', '2n'),
                 ('val', 'B1', 'V=V(b)+1'), ('cpar', 'R10', {'temp': 9}), ('cpar', 'R10', {'temp': None}), ('cpar', 'R10', {'te': 1}),
                 ('cpar', 'R2', {'temp': '{u}', 'tc': 3}), ('cpar', 'C1', {'Rs': 7}), ('cpar', 'C1', {'Rser': None}),
                 ('cpar', 'R1', {'temp': 1}), ('cpar', 'R1', {'temp': None}), ('cpar', 'D1', {'temp': 8}), ('cpar', 'M1', {'L': '5u', 'W': 1e-6}),
                 ('cpar', 'R3', {'temp': 8}), ('cpar', 'R3', {'noiseless': None}), ('cpar', 'R3', {'noiseless': True}), ('cpar', 'R1', {'noiseless': True}), ('clear', 'R3'), ('cpar', 'V1', {'Rser': 8}), ('cpar', 'B1', {'tripdv': None}), ('cpar', 'R1', {'value': 33}),
                 ('pypar', 'C1', {'Lser': 4}), ('cval', 'R1', 5e-3), ('cval', 'D1', '1N4148'), ('cval', 'R10', '4k'), ('citem', 'R10', {'temp': 8}), ('citem', 'C1', {'Cpar': 3}),
                 ('clear', 'R10'), ('clear', 'C1'), ('clear', 'R1')],
    'layout': [('val', 'R1', V), ('val', 'R2', '{x}'), ('cpar', 'R2', {'temp': 6}), ('val', 'C1', 1e-9), ('cpar', 'C1', {'Rser': 5}),
               ('cpar', 'C1', {'Lser': None}), ('cpar', 'C1', {'Cpar': '1p'}), ('val', 'V1', 5), ('cpar', 'V1', {'Rser': 2}), ('val', 'L1', 2e-3),
               ('cpar', 'L1', {'Rser': 3}), ('cpar', 'R1', {'temp': 3}), ('par', 'p', 5), ('par', 'q', None), ('par', 'z', 4), ('par', 'new', 1),
               ('par', 'p', None), ('add', 'R9', 'R9 x y 5')],
    'short': [('add', 'R9', 'R9 x y 5'), ('add', 'C1', 'C1 x y 1u Rser=1'), ('add', 'R1', 'R1 p q 7'), ('del', 'R1'), ('del', 'R9'), ('del', 'C1'),
              ('val', 'R9', 6), ('cpar', 'C1', {'Rser': 2}), ('cpar', 'R9', {'temp': 2}), ('val', 'R1', 8), ('par', 'a', 1), ('par', 'a', 2), ('par', 'a', None), ('save',),
              ('add', 'R8', 'R8 x y 5 temp=1', {'insert_before': 'R1'}), ('add', 'V1', 'V1 x y 5 Rser=1', {'insert_after': 'R1'})],
    'empty': [('add', 'R9', 'R9 x y 5'), ('add', 'R1', 'R1 x y 5 temp=1'), ('par', 'a', 1), ('par', 'b', 1), ('par', 'a', None), ('del', 'R9'), ('val', 'R9', 3)],
    'frame': [('val', 'R1', V), ('par', 'p', 3), ('par', 'p', None), ('cpar', 'X1', {'x': 2}), ('cpar', 'X1', {'y': None}), ('cpar', 'X1', {'z': 'abc'}),
              ('del', 'R1'), ('add', 'R1', 'R1 p q 7'), ('add', 'C2', 'C2 p q 7'), ('par', 'new', 1), ('del', 'X1'), ('cpar', 'R1', {'temp': 1})],
    'include': [('par', 'w', 5), ('par', 'v', None), ('par', 'x', '{R/2}'), ('par', 'X', None), ('par', 'xx', 2), ('par', 'z', 7), ('par', 'p', None), ('par', 'm', 1.5e-6),
                ('par', 'mm', None), ('par', 'n', '"a"'), ('par', 'last', 8), ('par', 'last', None), ('par', 'y', 3), ('par', 'new', 1), ('val', 'R1', V),
                ('cpar', 'X1', {'g': 4}), ('del', 'R1'), ('add', 'R9', 'R9 x y 5'), ('save',)],
}
DEPTH = {'quick': {'params': 3, 'elements': 2, 'layout': 3, 'short': 3, 'empty': 4, 'frame': 3, 'include': 2},
         'thorough': {'params': 4, 'elements': 3, 'layout': 4, 'short': 4, 'empty': 6, 'frame': 4, 'include': 3}}


REFS = ['R1', 'R10', 'R2', 'R3', 'C1', 'D1', 'M1', 'B1', 'V1']
EDITS = [('value', 'R1', 4700), ('value', 'R10', '{x}'), ('value', 'C1', 1e-6), ('value', 'D1', '1N4148'), ('value', 'V1', '5'), ('parameter', 'R2', 'temp', 5), ('parameter', 'R2', 'temp', None),
         ('parameter', 'C1', 'Lser', '{x}'), ('parameter', 'C1', 'ESR', '2'), ('parameter', 'M1', 'L', None), ('parameter', 'R3', 'noiseless', None), ('clear', 'C1'), ('clear', 'M1'), ('clear', 'R2')]


SPECS = {'elements': (lambda: N.load(N.BASES['elements']), N.save, REFS, EDITS)}


def jobs(tier):
    out = [['new', tier, k] for k in range(len(fresh.KINDS))] + routes.jobs(SPECS, tier)
    for base, alpha in ALPHABET.items():
        for i in range(len(alpha)):
            if tier == 'thorough' and len(alpha) > 12:
                out += [[base, DEPTH[tier][base], [i, k]] for k in range(len(alpha))]
                out.append([base, 1, [i]])
            else:
                out.append([base, DEPTH[tier][base], [i]])
        out.append([base, 0, []])
    return out


def judge(case, rec, eager):
    base, ops = case['base'], [tuple(o) for o in case['ops']]
    if eager:
        e, doc = N.run_ops(base, ops, lambda e, d: N.check_getters(e, d, 'read'))
    else:
        e, doc = N.run_ops(base, ops)
    txt = N.save(e)
    N.check_text(txt, doc, 'saved')
    N.check_getters(e, doc, 'read')
    if N.save(e) != txt:
        raise Violation('save-twice', 'the second save differs from the first one')
    again = N.load(txt, 'again.net')
    N.check_getters(again, doc, 'reloaded')
    if rec is not None:
        rec.state(doc.canon())
    return doc


def run_job(job, rec):
    if job[0] == 'new':
        for case in fresh.cases(job[1]):
            if case[0] == job[2]:
                rec.case(rec.run({'new': case}, fresh.check, case))
                rec.state(case)
                rec.trace()
        return
    if job[0] == 'routes':
        routes.run(SPECS, job, rec)
        return
    base, depth, first = job
    alpha = ALPHABET[base]
    rec.maximum(f'depth_{base}', depth)
    for n in range(len(first), max(depth, len(first)) + 1):
        for rest in itertools.product(range(len(alpha)), repeat=n - len(first)):
            idx = list(first) + list(rest)
            for eager in (False, True) if len(idx) > 1 else (False,):
                case = {'base': base, 'ops': [alpha[i] for i in idx], 'eager': eager}
                rec.run(case, judge, case, rec, eager)
                rec.case(base)
                rec.trace()
                rec.step(len(idx))
        if not first:
            break
    rec.sample([alpha[i] for i in first])


def replay(case, rec):
    if 'new' in case:
        rec.run(case, fresh.check, case['new'])
        return
    if 'ways' in case:
        routes.replay(SPECS, case)
        return
    judge(case, None, case['eager'])
