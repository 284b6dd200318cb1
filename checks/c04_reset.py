"""C04: after any edits, reset gives the same as loading the file: the editor that was reset is compared with a fresh one."""
import contextlib
import itertools
import os
from enum import Enum

from checks import c02_netedit, c07_asc, c08_qsch
from mc import ascdoc as A
from mc import netedit as N
from mc import qschdoc as Q
from mc import saving as S
from mc.core import Violation
from spicelib import AscEditor, QschEditor, SpiceEditor

PROPERTY = 'C04'
LEVEL = 'model_checking'
RULE = ('all pairs (edits before the reset, edits after it) up to the stated numbers over the operation alphabet of each base circuit, for the three editors; the oracle '
        'is a freshly loaded editor on which only the edits after the reset were done: same getters, saved text, netlist, update record and answers of every operation; '
        'states are the distinct observations reached; histories of edits, saves to files of every name, save_as, resets and other editors of the same files: the files and the editor hold what was saved')
ASSUMPTIONS = ['handles of components taken before a reset are not used after it', 'library search paths are not part of the circuit',
               'saving hierarchical schematics is not covered (it writes the sub-schematic files)']

HIER_NET = """* hier
.param g=1
R1 a 0 1k
X1 a b SUB p=2
X2 b c SUB
X3 c d LSUB
X4 d e Low
.lib sub.lib
.SUBCKT SUB i o
.param p=1
R1 i m {p}
C1 m 0 1u Rser=1
X1 m o INNER
.ENDS SUB
.SUBCKT INNER i o params: z=3
R1 i o {z}
.param w=3
.ENDS INNER
.subckt low i o
R1 i o 5
.ends
.control
run
.endc
.tran 1m
.end
"""
LIB = """* library
.SUBCKT LSUB i o
.param q=1
R1 i o {q}
.ENDS LSUB
"""
HIER_ASC = """Version 4
SHEET 1 880 680
WIRE 0 0 64 0
FLAG 0 0 0
SYMBOL sub 16 -16 R0
SYMATTR InstName X1
SYMBOL sub 160 -16 R0
SYMATTR InstName X2
SYMATTR SpiceLine p=2
SYMBOL res 16 -16 R0
SYMATTR InstName R1
SYMATTR Value 1k
TEXT 0 400 Left 2 !.tran 1m
"""
SUB_ASC = """Version 4
SHEET 1 880 680
SYMBOL res 16 -16 R0
SYMATTR InstName R1
SYMATTR Value {p}
SYMATTR SpiceLine tol=1%
TEXT 0 400 Left 2 !.param p=1
"""
HIER_QSCH = Q.schematic(Q.comp('X', 'X1', 'sub', typ='¥'), Q.comp('X', 'X2', 'sub', 1000, 0, typ='¥'), Q.comp('R', 'R1', '1k', 0, 1000), Q.txt(Q.Q + '.tran 1m'))
SUB_QSCH = Q.schematic(Q.comp('R', 'R1', '{p}', texts=['tc=1']), Q.txt(Q.Q + '.param p=1'))

INSTR = [('ins', '.tran 2m'), ('ins', '.ac dec 10 1 1meg'), ('ins', '.op'), ('ins', '.save V(in)'), ('ins', '.meas r find V(a) at=1'), ('ins', '.param q=1'), ('ins', '.save V(in)\n.options x=1'),
         ('rem', '.tran 1m'), ('rem', '.op'), ('rem', '.nothing'), ('remx', r'\.(tran|op)'), ('remx', r'\.nothing.*'), ('insall', ['.step param r 1 2 1', '.four 1k V(a)'])]
# base -> (editor, text, operations)
BASES = {}
for _b, _a in c02_netedit.ALPHABET.items():
    BASES['net-' + _b] = (SpiceEditor, N.BASES[_b], _a)
for _b, _a in c07_asc.ALPHABET.items():
    BASES['asc-' + _b] = (AscEditor, A.BASES[_b], _a)
for _b, _a in c08_qsch.ALPHABET.items():
    BASES['qsch-' + _b] = (QschEditor, Q.BASES[_b], _a)
SOME = [('val', 'R1', 5), ('par', 'x', 2), ('par', 'x', None), ('par', 'new', 3), ('del', 'R1'), ('cpar', 'R1', {'temp': 3}), ('save',)]
BASES['net-instructions'] = (SpiceEditor, N.BASES['frame'], INSTR + SOME + [('addctl', '.control\nx\n.endc'), ('remctl', 0), ('remctl', 1)])
BASES['asc-instructions'] = (AscEditor, A.BASES['params'], INSTR + SOME)
BASES['qsch-instructions'] = (QschEditor, Q.BASES['params'], INSTR + SOME)
BASES['net-hier'] = (SpiceEditor, HIER_NET, [
    ('val', 'R1', 5), ('val', 'X1:R1', 6), ('val', 'X2:R1', 7), ('val', 'X1:X1:R1', 8), ('val', 'X3:R1', 9), ('val', 'X4:R1', 4), ('cpar', 'X1', {'p': 4}), ('cpar', 'X1:C1', {'Rser': 3}),
    ('cpar', 'X1:X1', {'z': 4}), ('model', 'X2', 'LSUB'), ('val', 'X2', 'INNER'), ('del', 'X1:R1'), ('del', 'X1'), ('del', 'X3:R1'), ('par', 'g', 3), ('par', 'new', 3),
    ('sub', 'X1', ('par', 'p', 5)), ('sub', 'X2', ('par', 'p', 5)), ('sub', 'X1:X1', ('par', 'w', 5)), ('sub', 'X3', ('par', 'q', 5)), ('sub', 'X1', ('ins', '.save V(i)')),
    ('sub', 'X1', ('rem', '.param p=1')), ('sub', 'X1', ('add', 'R9', 'R9 i o 5')), ('named', 'SUB', ('par', 'p', 7)), ('named', 'SUB', ('val', 'R1', 7)), ('named', 'LSUB', ('val', 'R1', 7)),
    ('rem', '.lib sub.lib'), ('clone', 'X9', 'X1'), ('save',), ('read',)])
BASES['asc-hier'] = (AscEditor, HIER_ASC, [
    ('val', 'R1', 5), ('val', 'X1:R1', 6), ('val', 'X2:R1', 7), ('cpar', 'X1', {'p': 3}), ('cpar', 'X2', {'p': 3}), ('cpar', 'X1:R1', {'tol': 2}), ('del', 'X1:R1'), ('del', 'X1'),
    ('sub', 'X1', ('par', 'p', 5)), ('sub', 'X2', ('par', 'new', 5)), ('sub', 'X1', ('ins', '.save V(i)')), ('sub', 'X1', ('rem', '.param p=1')), ('read',)])
BASES['qsch-hier'] = (QschEditor, HIER_QSCH, [
    ('val', 'R1', 5), ('val', 'X1:R1', 6), ('val', 'X2:R1', 7), ('cpar', 'X1', {'p': 3}), ('cpar', 'X1:R1', {'tc': 2}), ('del', 'X1:R1'), ('del', 'X1'),
    ('sub', 'X1', ('par', 'p', 5)), ('sub', 'X2', ('par', 'new', 5)), ('sub', 'X1', ('ins', '.save V(i)')), ('read',)])
BASES['net-blank'] = (SpiceEditor, None, [('add', 'R1', 'R1 a b 5'), ('val', 'R1', 6), ('par', 'x', 1), ('par', 'x', None), ('del', 'R1'), ('ins', '.tran 1m'), ('ins', '.ac lin 1 1 2'), ('rem', '.tran 1m'),
                                          ('addctl', '.control\nx\n.endc'), ('remctl', 0), ('save',)])
LIMIT = {'quick': ((1, 1), (2, 0)), 'thorough': ((1, 2), (2, 1), (3, 0))}
SMALL = 14  # alphabets up to this size go one deeper


def apply_any(e, op):
    name = op[0]
    if name == 'ins':
        return e.add_instruction(op[1])
    if name == 'insall':
        return e.add_instructions(*op[1])
    if name == 'rem':
        return e.remove_instruction(op[1])
    if name == 'remx':
        return e.remove_Xinstruction(op[1])
    if name == 'addctl':
        return e.add_control_section(op[1])
    if name == 'remctl':
        return e.remove_control_section(op[1])
    if name == 'sub':
        return apply_any(e.get_subcircuit(op[1]), tuple(op[2]))
    if name == 'named':
        return apply_any(e.get_subcircuit_named(op[1]), tuple(op[2]))
    if name == 'save' and isinstance(e, AscEditor):
        A.save(e)
    elif name == 'read':
        observe(e, True)
    else:
        {SpiceEditor: N, AscEditor: A, QschEditor: Q}.get(type(e), N).apply_real(e, op)


def try_op(e, op):
    try:
        return repr(apply_any(e, tuple(op)))
    except Exception as ex:  # compared with the same on a fresh editor
        return type(ex).__name__


def load(base):
    cls, txt, _ = BASES[base]
    d = A.setup_dir()
    if cls is SpiceEditor:
        if txt is None:
            return SpiceEditor(os.path.join(d, 'blank.net'), create_blank=True)
        with open(os.path.join(d, 'sub.lib'), 'w') as f:
            f.write(LIB)
        SpiceEditor.set_custom_library_paths(d)
        return N.load(txt)
    if cls is AscEditor:
        with open(os.path.join(d, 'sub.asc'), 'w') as f:
            f.write(SUB_ASC)
        with open(os.path.join(d, 'sub.asy'), 'w') as f:
            f.write('Version 4\nSymbolType BLOCK\nRECTANGLE Normal 0 0 16 16\nSYMATTR Prefix X\nPIN 0 0 NONE 0\nPINATTR PinName A\nPINATTR SpiceOrder 1\n')
        return A.load(txt)
    with open(os.path.join(d, 'sub.qsch'), 'w', encoding='cp1252') as f:
        f.write(SUB_QSCH)
    return Q.load(txt)


def flat(x):
    return {k: flat(v) for k, v in vars(x).items()} if hasattr(x, '__dict__') and not isinstance(x, Enum) else [flat(v) for v in x] if isinstance(x, list) else str(x)


def observe(e, hier):
    """Everything that can be read from an editor."""
    out = {}
    for ref in e.get_components():
        c = [ref]
        for get in (e.get_component_value, e.get_component_parameters, lambda r: [str(n) for n in e.get_component_nodes(r)]):
            with contextlib.suppress(Exception):
                c.append(repr(get(ref)))
        if hasattr(e, 'get_component_position'):
            pos, rot = e.get_component_position(ref)
            c.append((pos.X, pos.Y, str(rot)))
        if hier and ref[0] in 'Xx':
            with contextlib.suppress(Exception):
                sub = e.get_subcircuit(ref)
                c.append(observe(sub, sub.get_subcircuit_names() if isinstance(e, SpiceEditor) else False))
        out[ref] = tuple(map(str, c))
    res = {'components': list(out.values()), 'parameters': [(n, str(e.get_parameter(n))) for n in e.get_all_parameter_names()]}
    if hasattr(e, 'netlist_updates'):
        res['updates'] = [(u.name, str(u.value), u.updates.name) for u in e.netlist_updates]
    if isinstance(e, SpiceEditor):
        res['controls'] = e.get_control_sections()
        res['subcircuits'] = e.get_subcircuit_names()
    if hasattr(e, 'updated'):
        res['updated'] = e.updated()
        for k in ('labels', 'wires', 'lines', 'shapes', 'ports', 'directives'):
            res[k] = [flat(x) for x in getattr(e, k)]
    return res


def look(base, e):
    hier = base.endswith('hier')
    try:
        return read(e, hier)
    except Exception as ex:  # compared with the same on a fresh editor
        return {'error': type(ex).__name__}


def read(e, hier):
    res = observe(e, hier)
    if isinstance(e, SpiceEditor):
        res['saved'] = N.save(e)
    elif not hier:
        res['saved'] = A.save(e) if isinstance(e, AscEditor) else Q.save(e)
        if isinstance(e, QschEditor):
            res['netlist'] = Q.net_text(e)
    res['file'] = os.path.basename(str(e.circuit_file))
    return res


FRESH = {}


def fresh(base, ops):
    key = base, repr(ops)
    if key not in FRESH:
        e = load(base)
        answers = [try_op(e, op) for op in ops]
        FRESH[key] = answers, look(base, e)
    return FRESH[key]


def compare(base, e, answers, ops, when):
    want_answers, want = fresh(base, ops)
    if answers != want_answers:
        raise Violation(f'{when}:answers', f'{list(zip(ops, answers))}, on a fresh editor {want_answers}')
    got = look(base, e)
    for k in want:
        if got.get(k) != want[k]:
            raise Violation(f'{when}:{k}', f'{got.get(k)!r}\nfresh editor: {want[k]!r}')
    return got


def judge(case, rec):
    base, before, after = case['base'], case['before'], case['after']
    e = load(base)
    for op in before:
        try_op(e, op)
    e.reset_netlist(**({'create_blank': True} if BASES[base][1] is None else {}))
    if rec is None or not after:
        got = compare(base, e, [], [], 'reset')
    if after:
        got = compare(base, e, [try_op(e, op) for op in after], after, 'edited-after-reset')
    if rec is not None:
        rec.state(base + repr(got))


def jobs(tier):
    out = []
    for kind in S.KINDS:
        out += [['files', kind, 'all', 3, i] for i in range(len(S.alphabet(kind)))]
        out += [['files', kind, 'few', d, i] for d in ((4,) if tier == 'quick' else (4, 5)) for i in range(len(S.few(kind)))]
    for base, (_, _, alpha) in BASES.items():
        lim = [(b + (len(alpha) <= SMALL), a) for b, a in LIMIT[tier]]
        for i in range(len(alpha)):
            if tier == 'thorough' and len(alpha) > SMALL:
                out += [[base, lim, [i, k]] for k in range(len(alpha))] + [[base, [(1, a) for b, a in lim], [i]]]
            else:
                out.append([base, lim, [i]])
    return out


def run_files(job, rec):
    _, kind, what, depth, first = job
    ops = S.alphabet(kind) if what == 'all' else S.few(kind)
    for seq in S.sequences(ops, (1, 2, 3) if what == 'all' else (depth,), first):
        case = {'kind': kind, 'ops': seq}
        rec.run(case, S.judge, case, rec)
        rec.case('files')
        rec.trace()
        rec.step(len(seq))
    rec.maximum('depth_files', depth)


def run_job(job, rec):
    if job[0] == 'files':
        return run_files(job, rec)
    base, lim, first = job
    alpha = BASES[base][2]
    FRESH.clear()
    # number of edits before the reset -> largest number after it
    depth = {}
    for b, a in lim:
        for n in range(1, b + 1):
            depth[n] = max(depth.get(n, 0), a)
    for n, m in depth.items():
        rec.maximum(f'edits_after_{n}_edits', m)
        for rest in itertools.product(alpha, repeat=n - len(first)) if n >= len(first) else ():
            before = [alpha[i] for i in first] + list(rest)
            for k in range(m + 1):
                for after in itertools.product(alpha, repeat=k):
                    case = {'base': base, 'before': before, 'after': list(after)}
                    rec.run(case, judge, case, rec)
                    rec.case(base)
                    rec.trace()
                    rec.step(n + k)
    rec.sample([alpha[i] for i in first])


def replay(case, rec):
    if 'kind' in case:
        return S.judge(case, None)
    judge(case, None)
