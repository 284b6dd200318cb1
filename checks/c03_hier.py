"""C03: edits in sub-circuit instances, read back from the editor and from the expanded saved netlist."""
import itertools

from mc import hier as H
from mc import netedit as N
from mc import routes
from mc.core import Violation

PROPERTY = 'C03'
LEVEL = 'model_checking'
RULE = ('all sequences of up to the stated number of edits (depth in maxima) over the alphabet of each hierarchical base netlist, on a freshly loaded real SpiceEditor, once '
        'reading every instance after every edit and once only at the end; the saved netlist is expanded by an independent reader and compared with the expanded reference '
        'circuit; states are the distinct expanded circuits reached')
ASSUMPTIONS = ['an edit of a definition reaches the instances that have no edits of their own', 'names of definitions made by the library are its own; comments are not compared',
               'an instance keeps its edits until another definition is given to it']

ALPHABET = {
    'shared': [('val', 'R1', 5), ('val', 'X1:R1', 6), ('val', 'x2:r1', 7), ('val', 'X1:X1:R1', 8), ('attr', 'X2:X1:R1', 9), ('val', 'X3:R1', '{q*2}'), ('item', 'X3:X1:R1', 4), ('val', 'X4:R1', 4),
               ('val', 'X5:R1', 4), ('inst', 'X1', 'R1', 11), ('subval', 'X2', 'C1', '2u'), ('vals', 'X1', {'R1': 3, 'C1': '3u'}), ('cpar', 'X1', {'p': 4}), ('cpar', 'X2', {'p': 4}), ('cpar', 'X1', {'p': None}),
               ('cpar', 'X1:C1', {'Rser': 3}), ('icpar', 'X2', 'C1', {'Rser': None, 'Lser': 1}), ('cpar', 'X1:X1', {'z': 4}), ('model', 'X1:X1:D1', 'D2'), ('imodel', 'X2', 'R1', '{x}'),
               ('val', 'X2', 'LSUB'), ('model', 'X4', 'SUB'), ('val', 'X1:X1', 'low'), ('del', 'X1', 'R1'), ('idel', 'X2', 'X1'), ('delpath', 'X1'), ('del', 'X3', 'R1'), ('par', '', 'g', 3),
               ('par', 'X1', 'p', 5), ('par', 'X2', 'P', 6), ('par', 'X1', 'new', 5), ('par', 'X1', 'p', None), ('par', 'X1:X1', 'w', 5), ('par', 'X3', 'q', 5), ('par', 'X5', 'k', 5), ('iitem', 'X1', 'pp', 7),
               ('add', 'X1', 'R9', 'R9 i o 5'), ('iadd', 'X2', 'C9', 'C9 i o 5 Rser=1'), ('ins', 'X1', '.save V(i)'), ('rem', 'X2', '.save V(m)'), ('remx', 'X1', r'\.save\s+V'), ('remx', 'X1:X1', r'\.MODEL'), ('val', 'X1:R99', 1), ('val', 'X9:R1', 1),
               ('cpar', 'X2:R99', {'a': 1}), ('same', 'X1'), ('same', 'X2:X1'), ('reset',), ('idel', 'X1', 'R99'), ('imodel', 'X1', 'D99', 'x'), ('del', 'X2', 'R99'), ('read',), ('save',)],
    'local': [('val', 'X1:R1', 6), ('val', 'X1:X1:R1', 6), ('val', 'X1:X2:R1', 7), ('val', 'X2:X1:R1', 8), ('val', 'X1:X1:X1:R1', 9), ('val', 'X2:X2:X1:R1', 2), ('val', 'X3:R1', 4), ('val', 'X3:R2', 4),
              ('val', 'X1:X3:R1', 3), ('val', 'X1:X1', 'GLOB'), ('val', 'X3', 'GLOB'), ('del', 'X1', 'X1'), ('del', 'X1:X2', 'X1'), ('par', 'X1:X1', 'n', 5), ('cpar', 'X1:X1', {'z': 4}), ('add', 'X1:X1', 'R9', 'R9 x y 5'),
              ('cpar', 'X2:X1:R1', {'temp': 4}), ('delpath', 'X2'), ('same', 'X1:X1'), ('reset',), ('read',), ('save',)],
    'names': [('val', 'X1:R1', 6), ('val', 'X10:R1', 6), ('val', 'X2:R1', 7), ('val', 'XA1:R2', 8), ('val', 'X1:V1', 5), ('val', 'X1', 'SUB_X1'), ('val', 'X2', 'SUB'), ('del', 'X1', 'R1'), ('del', 'X10', 'R2'),
              ('cpar', 'X1', {'m': 2}), ('cpar', 'X1:R1', {'temp': 2}), ('par', 'X1', 'a', 1), ('add', 'X10', 'R9', 'R9 p1 p2 5'), ('delpath', 'X1'), ('delpath', 'X10'), ('val', 'X1:R9', 5), ('same', 'X1'), ('reset',), ('read',), ('save',)],
    'odd': [('val', 'X1:R1', 2), ('val', 'X2:R1', 3), ('attr', 'x2:x9:r1', 7), ('val', 'X1:X9:X1:R1', 8), ('val', 'X3:XA:R1', 8), ('val', 'XLONG:R1', 9), ('val', 'R1', 6), ('val', 'XLONG', 'LM741/NS'), ('val', 'X2', '555'),
            ('cpar', 'X3', {'a': 3}), ('model', 'X3:Q1', 'QX'), ('par', 'X1:X9', 'in_part', 4), ('par', 'X2', 'new', 1), ('del', 'X1', 'X9'), ('del', '', 'XLONG'), ('add', 'X1', 'R9', 'R9 i o 1'), ('ins', 'X3', '.save V(p1)'),
            ('ins', 'XLONG', '.model DX D'), ('rem', 'X3', '.model QM NPN'), ('remx', 'X3', r'\.mod.*NPN'), ('remx', 'X2', r'\.none'), ('iadd', 'X2', 'X7', 'X7 i m 555'), ('val', 'X2:X7:XA:R1', 1), ('same', 'X3'), ('reset',), ('read',), ('save',)],
}
ALPHABET['local-core'] = [o for o in ALPHABET['local'] if o in [('val', 'X1:X1:R1', 6), ('val', 'X2:X1:R1', 8), ('val', 'X1:X1:X1:R1', 9), ('val', 'X1:X1', 'GLOB'), ('del', 'X1', 'X1'), ('par', 'X1:X1', 'n', 5),
                                                                ('same', 'X1:X1'), ('reset',), ('save',)]]
ALPHABET['shared-defs'] = [('def', '', 'SUB', ('val', 'R1', 4)), ('def', '', 'sub', ('item', 'R1', 5)), ('def', '', 'SUB', ('val', 'C1', '2u')), ('def', '', 'INNER', ('val', 'R1', 6)), ('def', '', 'SUB', ('val', 'X1', 'low')),
                           ('def', '', 'SUB', ('val', 'X1:R1', 7)), ('def', '', 'SUB', ('item', 'X1:R1', 8)), ('def', '', 'SUB', ('cpar', 'C1', {'Rser': 2, 'Lser': 1})), ('def', '', 'SUB', ('par', 'p', 3)),
                           ('def', '', 'SUB', ('par', 'new', 3)), ('def', '', 'INNER', ('par', 'w', None)), ('def', '', 'SUB', ('del', 'R1')), ('def', '', 'SUB', ('del', 'X1')), ('def', '', 'SUB', ('add', 'R9', 'R9 i o 5')),
                           ('def', '', 'SUB', ('add', 'X9', 'X9 i o INNER')), ('def', '', 'INNER', ('ins', '.save V(i)')), ('def', '', 'SUB', ('rem', '.save V(m)')), ('def', '', 'SUB', ('remx', r'\.SAVE')), ('def', '', 'INNER', ('remx', r'\.(save|model)')), ('def', '', 'LSUB', ('val', 'R1', 1)), ('def', '', 'LSUB', ('par', 'q', 1)),
                           ('def', '', 'ISUB', ('val', 'R1', 3)), ('def', '', 'ISUB', ('par', 'k', 3)), ('def', '', 'SUB', ('val', 'R99', 3)), ('def', 'X1', 'SUB', ('val', 'R1', 9)),
                           ('def', 'X2', 'INNER', ('val', 'R1', 9)), ('val', 'X1:R1', 11), ('val', 'X1:C1', '3u'), ('val', 'X2:X1:R1', 12), ('val', 'X2', 'INNER'), ('val', 'X4', 'SUB'), ('par', 'X2', 'p', 6), ('cpar', 'X1:X1', {'z': 4}),
                           ('del', 'X1', 'X1'), ('val', 'X5:R1', 4), ('val', 'X3:R1', 4), ('add', 'X2', 'R9', 'R9 i o 6'), ('held', 'X1:R1', 31, ('def', '', 'SUB', ('val', 'C1', '2u'))),
                           ('held', 'X1:X1:R1', 32, ('def', '', 'SUB', ('par', 'p', 3))), ('held', 'X2:X1:R1', 33, ('def', '', 'INNER', ('par', 'w', 9))), ('same', 'X1'), ('reset',), ('read',), ('save',)]
ALPHABET['local-defs'] = [('def', '', 'LOC', ('val', 'R1', 4)), ('def', '', 'OUT', ('val', 'R1', 4)), ('def', '', 'GLOB', ('val', 'R1', 5)), ('def', '', 'OUT/LOC', ('val', 'R1', 6)), ('def', '', 'OUT/LOC/DEEP', ('val', 'R1', 7)),
                          ('def', '', 'OUT', ('val', 'X1:R1', 8)), ('def', '', 'OUT', ('val', 'X2:X1:R1', 8)), ('def', '', 'OUT/LOC', ('val', 'X1:R1', 9)), ('def', '', 'OUT', ('val', 'X3', 'LOC')), ('def', '', 'OUT/LOC', ('del', 'X1')),
                          ('def', 'X1', 'LOC', ('val', 'R1', 11)), ('def', 'X2', 'LOC', ('item', 'R1', 12)), ('def', 'X1', 'LOC/DEEP', ('val', 'R1', 13)), ('def', 'X1:X1', 'DEEP', ('val', 'R1', 14)), ('def', 'X1', 'LOC', ('par', 'n', 5)),
                          ('def', 'X1', 'GLOB', ('val', 'R1', 15)), ('def', 'X1:X2', 'LOC', ('val', 'R1', 16)), ('def', 'X1', 'LOC', ('val', 'X1:R1', 17)), ('def', 'X3', 'OUT', ('cpar', 'R1', {'temp': 3})),
                          ('val', 'X1:R1', 21), ('val', 'X1:X1:R1', 22), ('val', 'X2:X1:R1', 23), ('val', 'X1:X1:X1:R1', 24), ('val', 'X3:R1', 25), ('val', 'X1:X3:R1', 26), ('val', 'X3', 'GLOB'), ('del', 'X1', 'X1'), ('same', 'X1:X1'),
                          ('held', 'X1:X1:R1', 34, ('def', '', 'OUT/LOC', ('del', 'X1'))), ('held', 'X2:X1:X1:R1', 35, ('def', '', 'OUT', ('val', 'R1', 3))), ('reset',), ('read',), ('save',)]
DEPTH = {'quick': {'shared': 2, 'local': 2, 'names': 2, 'odd': 2, 'local-core': 3, 'shared-defs': 2, 'local-defs': 2}, 'thorough': {'shared': 3, 'local': 3, 'names': 3, 'odd': 3, 'local-core': 4, 'shared-defs': 3, 'local-defs': 3}}


SCOPE = """* scope
X1 a b OUT
.SUBCKT OUT i o
.SUBCKT LOC x y
R1 x y 7
.ENDS LOC
X1 i o LOC
X3 i o GLOB
.ENDS OUT
.SUBCKT LOC x y
R1 x y 8
.ENDS LOC
.SUBCKT GLOB x y
X1 x y LOC
R2 x y 1
.ENDS GLOB
.op
.end
"""


def judge_scope(case):
    """A definition that is copied into another one, where a name that it uses has another meaning."""
    e = H.load(SCOPE)
    doc = H.Doc(SCOPE)
    for op in case['ops']:
        H.apply_real(e, tuple(op))
        doc.apply(tuple(op))
    txt = N.save(e)
    saved = H.Doc(txt)
    for p in ('X1:X1:R1', 'X1:X3:X1:R1', 'X1:X3:R2'):
        where, ref = H.split(p)
        want = doc.top.at(where).elems[ref].pos[3]
        for got in (str(e.get_component_value(p)), saved.top.at(where).elems[ref].pos[3]):
            if got == '7' and want == '8':
                raise Violation('scope-capture', f'{p} is {got}, expected {want}\n{txt}')
            if got != want:
                raise Violation('scope', f'{p} is {got}, expected {want}\n{txt}')


ROUTES = """* routes
X1 a 0 SUB x=1
X2 a b SUB
R1 a b 1k
.subckt SUB a b params: k=1
R1 a c 2k tc=1
C1 c b 1u Rser=2 Lser=3
X3 a b IN
.ends SUB
.subckt IN a b
R1 a b 3k temp=4
V1 a b 5 Rser=1
.ends IN
.op
.end
"""
SPECS = {'instances': (lambda: N.load(ROUTES), N.save, ['X1:R1', 'X1:C1', 'X1:X3:R1', 'X1:X3:V1', 'X2:R1', 'X2:X3:R1', 'X2:X3:V1', 'R1'],
                       [('value', 'X1:R1', 4700), ('value', 'X1:X3:R1', '{x}'), ('value', 'X2:X3:V1', 5), ('parameter', 'X1:R1', 'tc', 5), ('parameter', 'X1:R1', 'temp', '{x}'), ('parameter', 'X1:C1', 'Rser', None),
                        ('parameter', 'X1:X3:R1', 'temp', 3), ('clear', 'X1:C1'), ('clear', 'X2:X3:V1'), ('value', 'R1', '1'), ('value', 'X1:C1', 1e-6)])}


def jobs(tier):
    out = [['scope', 0, []]] + routes.jobs(SPECS, tier)
    for base, alpha in ALPHABET.items():
        d = DEPTH[tier][base]
        out.append([base, 0, []])
        for i in range(len(alpha)):
            if d > 2:
                out.append([base, 1, [i]])
                out += [[base, d, [i, k]] for k in range(len(alpha))]
            else:
                out.append([base, d, [i]])
    return out


def judge(case, rec, eager):
    base, ops = case['base'], [tuple(o) for o in case['ops']]
    e, doc = H.run_ops(base.split('-')[0], ops, (lambda e, d: H.check_getters(e, d, 'read')) if eager else None)
    txt = N.save(e)
    H.check_text(txt, doc)
    H.check_getters(e, doc, 'read')
    H.check_defs(e, doc.defs.defs, 'read')
    if N.save(e) != txt:
        raise Violation('save-twice', f'the second save differs from the first one\n{txt}\n{N.save(e)}')
    again = H.load(txt, 'again.net')
    saved = H.Doc(txt)
    saved.touched = doc.touched
    H.check_getters(again, saved, 'reloaded')
    if rec is not None:
        rec.state([base, doc.canon()])


def run_job(job, rec):
    if job[0] == 'routes':
        return routes.run(SPECS, job, rec)
    base, depth, first = job
    if base == 'scope':
        for op in [('read',), ('val', 'X1:X1:R1', 5), ('val', 'X1:X3:R2', 6), ('val', 'X1:X3:X1:R1', 9)]:
            case = {'base': base, 'ops': [op] if op != ('read',) else [], 'eager': False}
            rec.run(case, judge_scope, case)
            rec.case(base)
            rec.trace()
        return
    alpha = ALPHABET[base]
    rec.maximum(f'depth_{base}', depth)
    for n in range(len(first), max(depth, len(first)) + 1):
        for rest in itertools.product(range(len(alpha)), repeat=n - len(first)):
            idx = list(first) + list(rest)
            for eager in (False, True) if len(idx) == 2 or len(idx) > 2 and base != 'shared' else (False,):
                case = {'base': base, 'ops': [alpha[i] for i in idx], 'eager': eager}
                rec.run(case, judge, case, rec, eager)
                rec.case(base)
                rec.trace()
                rec.step(len(idx))
        if not first:
            break
    rec.sample([alpha[i] for i in first])


def replay(case, rec):
    if 'routes' in case:
        return routes.replay(SPECS, case)
    if case['base'] == 'scope':
        return judge_scope(case)
    judge(case, None, case['eager'])
