"""C06: sequences of added and removed instructions in the three editors."""
import itertools

from mc import ascdoc as A
from mc import netedit as N
from mc import qschdoc as Q
from mc import spice
from mc.core import Violation

PROPERTY = 'C06'
LEVEL = 'model_checking'
RULE = ('all sequences of up to the stated number of operations (depth in maxima) over the instruction alphabet of each base circuit, for the three editors, '
        'once reading everything after every operation and once only at the end; answers, getters, saved text and the reloaded file are compared with a '
        'reference document; states are the distinct reference documents reached')
ASSUMPTIONS = ['instructions of netlists are compared as whole lines; those of schematics are compared as the statements of the texts, removal by text takes the first that '
               'contains it (documented)', 'circuits that hold two analyses at the beginning are left out; a single addition holds one statement',
               'patterns that match the title or the .end line, and instructions with quotes in QSPICE schematics are left out']

NET = {
    'lines': """* instructions
V1 in 0 5
R1 in 0 1k
.tran 1m ; main
.save V(in)
+ I(R1)
.meas r find V(in) at=1m
.op
.options reltol=1e-4
* .tran 5m
.param p=1
.control
.tran 9m
run
.endc
.SUBCKT SUB a b
R1 a b 1
.save V(a)
.tran 3m
.ENDS SUB
.model D1 D(Is=1n)
X1 in 0 SUB
.backanno
.end
""",
    'none': """* no analysis
R1 a 0 1k
.options reltol=1e-4
.END
""",
}
T = 'Version 4\nSHEET 1 880 680\nWIRE 0 0 64 0\nFLAG 0 0 0\nSYMBOL res 16 -16 R0\nSYMATTR InstName R1\nSYMATTR Value 1k\n'
TEXTS = {
    'block': ['!.op', '!.save V(in)\\n.ac dec 10 1 1meg ; main\\n.param a=1', ';.tran 5m\\n.op', '!.meas r FIND V(a)\\n+ at=1m\\n.options x', ';.four 1k V(a)'],
    'alone': ['!.TRAN 1m', ';.tran 5m', '!.save V(in)', '!.save V(in) I(R1)'],
    'none': [';', '!.options a', ';.dc V1 1 2 3'],
    'empty': [],
}
ASC = {k: T + ''.join(f'TEXT 0 {400 + 20 * i} Left 2 {t}\n' for i, t in enumerate(v)) for k, v in TEXTS.items()}
QSCH = {k: Q.schematic(Q.comp('R', 'R1', '1k'), *(Q.txt((Q.Q if t[0] == '!' or i % 2 else '') + t[1:], 20 * i, 0 if t[0] == '!' else 1) for i, t in enumerate(v)))
        for k, v in TEXTS.items()}

NEW = [('ins', x) for x in ('.tran 2m', '.AC lin 5 1 2', '  .dc V1 0 1 0.1 \n', '.noise V(in) V1 oct 3 1 1k', '.tf V(in) V1')]
COMMON = NEW + [('ins', '.op'), ('ins', '.save V(x)'), ('ins', '.meas q find V(in)\n+ at=2'), ('ins', '.PARAM z=3'), ('ins', ' .options y '), ('ins', '.four 1k V(in)'),
                ('insall', ['.tran 2m', '.save V(x)', '.tran 7m', '.save V(x)']), ('rem', '.op'), ('rem', '.tran 2m'), ('rem', '.save V(x)'), ('rem', '.missing'),
                ('rem', '.meas q find V(in)\n+ at=2'), ('remx', r'\.save.*'), ('remx', r'\.(tran|ac)\s'), ('remx', r'\.MEAS'), ('remx', r'\.nothing'), ('remx', r'\.o')]
ALPHABET = {
    'net-lines': COMMON + [('ins', '.tran 1m ; main'), ('ins', '.save V(in)\n+ I(R1)'), ('ins', '* .tran 5m'), ('ins', '* a note'), ('ins', 'R2 in 0 5'), ('ins', 'X9 in 0 SUB'),
                           ('ins', '.model D2 D(Is=2n)'), ('ins', '.save V(a)'), ('rem', '.tran 1m ; main'), ('rem', '.tran 9m'), ('rem', '.tran 3m'), ('rem', '.save V(in)'),
                           ('rem', '.save V(in)\n+ I(R1)'), ('rem', '* .tran 5m'), ('rem', 'R1 in 0 1k'), ('rem', '.options reltol=1e-4'), ('remx', r'\* \.t'), ('remx', r'\* a'), ('remx', r'\.param'),
                           ('add', 'R9', 'R9 x y 5'), ('del', 'R9'), ('val', 'R1', 5), ('par', 'p', 2), ('par', 'new', 2), ('addctl', '.control\nop\n.endc'),
                           ('addctl', '.CONTROL\nlet a=1\nprint a\n.ENDC\n'), ('addctl', 'op\n.endc'), ('addctl', '.control\nop'), ('addctl', '.control\n.tran 9m\nrun\n.endc'), ('remctl', 0), ('remctl', 1),
                           ('remctl', -1), ('save',)],
    'net-none': COMMON + [('addctl', '.control\nop\n.endc'), ('remctl', 0), ('add', 'R9', 'R9 x y 5'), ('save',)],
    'asc-block': COMMON + [('ins', '.save V(in)'), ('ins', '.meas r FIND V(a)\n+ at=1m'), ('rem', '.meas r FIND V(a)\n+ at=1m'), ('rem', 'V('), ('rem', '.options'), ('rem', 'a=1'), ('remx', r'\.param'),
                           ('par', 'a', 2), ('par', 'a', None), ('par', 'new', 2), ('rem', '.tran 5m'), ('ins', '.ac dec 10 1 1meg ; main'), ('save',)],
    'asc-alone': COMMON + [('ins', '.save V(in)'), ('rem', '.save V(in)'), ('rem', '.tran 5m'), ('ins', '.TRAN 1m'), ('par', 'new', 2), ('save',)],
    'asc-none': COMMON, 'asc-empty': COMMON,
}
for _k in TEXTS:
    ALPHABET[f'qsch-{_k}'] = ALPHABET[f'asc-{_k}']
DEPTH = {'quick': {'net-lines': 2, 'net-none': 3}, 'thorough': {'net-lines': 3, 'asc-block': 3, 'qsch-block': 3, 'qsch-alone': 3, 'asc-alone': 3, 'asc-none': 4, 'asc-empty': 3}}
SIDE = {'net': (N, NET), 'asc': (A, ASC), 'qsch': (Q, QSCH)}
ANALYSES = ('.ac', '.dc', '.tran', '.noise', '.tf')


def depth_of(tier, name):
    return DEPTH[tier].get(name, 2 if tier == 'quick' else 3)


def jobs(tier):
    out = []
    for name, alpha in ALPHABET.items():
        d = depth_of(tier, name)
        out.append([name, 0, []])
        for i in range(len(alpha)):
            if d > 3:
                out.append([name, 1, [i]])
                out += [[name, d, [i, k]] for k in range(len(alpha))]
            else:
                out.append([name, d, [i]])
    return out


def check_controls(e, doc, when):
    got = [spice.statements(s) for s in e.get_control_sections()]
    want = [[(s.code, s.comment) for s in c] for c in doc.instructions().controls()]
    if got != want:
        raise Violation(f'{when}:control-sections', f'{got}, expected {want}')


def one_analysis(txt, side):
    """At most one analysis, whatever the document says."""
    if side == 'net':
        lines, depth = [], 0
        for s in spice.read(txt):
            head = s.pos[0] if s.kind == 'other' else ''
            depth += head in ('.control', '.subckt')
            if not depth:
                lines.append(head)
            depth -= head in ('.endc', '.ends')
    elif side == 'asc':
        d = A.Doc(txt)
        lines = [s.pos[0] for i, _ in d.lines() for s in d.stmts(i) if s.kind == 'other']
    else:
        d = Q.Doc(txt)
        lines = [s.pos[0] for n in d.active() for s in d.stmts(n) if s.kind == 'other']
    found = [x for x in lines if x in ANALYSES]
    if len(found) > 1:
        raise Violation('saved:two-analyses', f'{found}\n{txt}')


def judge(case, rec, eager):
    name, ops = case['base'], [tuple(o) for o in case['ops']]
    side = name.split('-')[0]
    M, bases = SIDE[side]

    def look(e, d, when='read'):
        M.check_getters(e, d, when)
        if side == 'net':
            check_controls(e, d, when)

    e, doc = M.run_ops(bases[name.split('-')[1]], ops, look if eager else None)
    txt = M.save(e)
    M.check_text(txt, doc, 'saved')
    look(e, doc)
    one_analysis(txt, side)
    if side == 'qsch':
        Q.check_net_text(Q.net_text(e), doc, 'saved')
    if M.save(e) != txt:
        raise Violation('save-twice', 'the second save differs from the first one')
    again = M.load(txt, {'net': 'again.net', 'asc': 'again.asc', 'qsch': 'again.qsch'}[side])
    look(again, doc, 'reloaded')
    M.check_text(M.save(again), doc, 'resaved')
    if rec is not None:
        rec.state(doc.canon())


def run_job(job, rec):
    name, depth, first = job
    alpha = ALPHABET[name]
    rec.maximum(f'depth_{name}', depth)
    for n in range(len(first), max(depth, len(first)) + 1):
        for rest in itertools.product(range(len(alpha)), repeat=n - len(first)):
            idx = list(first) + list(rest)
            for eager in (False, True) if len(idx) > 1 else (False,):
                case = {'base': name, 'ops': [alpha[i] for i in idx], 'eager': eager}
                rec.run(case, judge, case, rec, eager)
                rec.case(name)
                rec.trace()
                rec.step(len(idx))
        if not first:
            break
    rec.sample([alpha[i] for i in first])


def replay(case, rec):
    judge(case, None, case['eager'])
