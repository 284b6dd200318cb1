"""C05: the update record of the editors after sequences of edits, reads, saves and failing edits; the record attached to a run."""
import itertools
import os
from pathlib import Path

from checks import c02_netedit, c06_instr, c07_asc, c08_qsch
from mc import ascdoc as A
from mc import netedit as N
from mc import qschdoc as Q
from mc import spice
from mc.core import Violation, scratch
from spicelib import SimRunner
from spicelib.sim.simulator import Simulator
from spicelib.editor.updates import UpdateType as U

PROPERTY = 'C05'
LEVEL = 'model_checking'
RULE = ('all sequences of up to the stated number of operations (depth in maxima) over the alphabets of edits, instructions, reads, saves and failing edits of each base '
        'circuit, for the three editors; after every operation the record of the real editor is compared with the log of the reference document: the same items, '
        'each with the kind and the value of its last change; states are the distinct logs reached')
ASSUMPTIONS = ['an item may have earlier records; the last one counts, as for the lookups of Updates', 'an update of the analysis replaces the records of the previous analysis',
               'letter case of names is not compared', 'the kind of record of an attribute without electrical meaning is left open',
               'positions are not part of the record']

FAIL = {'net': [('val', 'R99', 1), ('cpar', 'R99', {'a': 1}), ('del', 'R99'), ('par', 'nope', None)],
        'asc': [('par', 'nope', None), ('add', 'R1', ('res', 16, 32, 'R0'), {'Value': '5'})], 'qsch': [('par', 'nope', None), ('cpar', 'R99', {'a': 1})]}
SIDE = {'net': (N, c02_netedit.ALPHABET, N.BASES), 'asc': (A, c07_asc.ALPHABET, A.BASES), 'qsch': (Q, c08_qsch.ALPHABET, Q.BASES)}
BASES = {}
for _s, (_m, _alpha, _bases) in SIDE.items():
    for _b, _a in _alpha.items():
        BASES[f'{_s}-{_b}'] = (_bases[_b], _a + [x for x in FAIL[_s] + [('read',), ('save',)] if x not in _a])
for _b, _a in c06_instr.ALPHABET.items():
    _s, _k = _b.split('-')
    BASES[f'{_s}-instr-{_k}'] = (c06_instr.SIDE[_s][1][_k], _a + [x for x in [('read',), ('save',)] if x not in _a])
DEPTH = {'quick': {'net-params': 3, 'asc-params': 3, 'net-empty': 4, 'qsch-empty': 4, 'asc-empty': 3, 'net-frame': 3},
         'thorough': {'net-empty': 5, 'qsch-empty': 5, 'net-params': 4, 'net-short': 4, 'net-frame': 4, 'asc-empty': 4}}
RUNS = {'net': ('net-short', [('val', 'R1', 2), ('val', 'R1', 3), ('par', 'x', 2), ('par', 'X', 3), ('par', 'x', None), ('ins', '.save V(b)'), ('rem', '.save V(b)'), ('add', 'R9', 'R9 x y 5'),
                              ('cpar', 'R1', {'temp': 3}), ('cpar', 'R1', {'temp': None}), ('run',), ('now',), ('reset',)]),
        'asc': ('asc-params', [('val', 'R1', 2), ('par', 'x', 2), ('par', 'x', 3), ('par', 'new', 1), ('par', 'new', None), ('ins', '.save V(b)'), ('del', 'R1'), ('run',), ('now',), ('reset',)]),
        'qsch': ('qsch-params', [('val', 'R1', 2), ('par', 'x', 2), ('par', 'x', 3), ('par', 'new', 1), ('par', 'new', None), ('ins', '.save V(b)'), ('del', 'R1'), ('run',), ('now',), ('reset',)])}
RUN_DEPTH = {'quick': 3, 'thorough': 4}
ANALYSES = ('.AC', '.DC', '.TRAN', '.NOISE', '.TF')


def depth_of(tier, name):
    return DEPTH[tier].get(name, 2 if tier == 'quick' else 3)


def instruction(t):
    """An instruction in the form used for comparing."""
    return 'INSTRUCTION:' + '\n'.join(N.squeeze(c) if c else k for c, k in spice.statements(t.replace('\\n', '\n').replace('\\N', '\n'))).upper()


def canon(records):
    """Records (item, kind, value), in order -> item: (kind, value) of the last one."""
    out = {}
    for item, kind, value in records:
        if item.upper().startswith('INSTRUCTION:'):
            item, value = instruction(item[12:]), None
        else:
            item = item.upper()
        if kind is U.UpdateInstruction:
            for k in [k for k in out if k.startswith('INSTRUCTION:') and k[12:].split(' ')[0] in ANALYSES and out[k][0] is not U.DeleteInstruction]:
                del out[k]
        out.pop(item, None)
        out[item] = (kind, value)
    return out


def real(updates):
    return canon([(f'INSTRUCTION:{u.value}' if u.name == 'INSTRUCTION' else u.name, u.updates, u.value) for u in updates])


def same(item, got, want):
    if want[0] is not None and got[0] is not want[0]:
        return False
    if want[0] in (U.DeleteComponent, U.DeleteParameter, U.DeleteComponentParameter, U.AddComponent):
        return True     # no value needed
    a, b = N.squeeze(N.text(got[1])), N.squeeze(N.text(want[1]))
    return spice.same_value(a, b) or ' '.join(a.split()) == ' '.join(b.split())


def check(e, doc):
    got, want = real(e.netlist_updates), doc.canon_log
    if set(got) != set(want):
        extra, missing = set(got) - set(want), set(want) - set(got)
        raise Violation('items', f'not changed: {sorted(extra)}, not recorded: {sorted(missing)}; record {list(e.netlist_updates)}')
    for k in want:
        if not same(k, got[k], want[k]):
            raise Violation(f'record:{want[k][0]}', f'{k}: {got[k]}, expected {want[k]}; record {list(e.netlist_updates)}')
        if want[k][0] in (U.UpdateParameter, U.AddParameter, U.DeleteParameter):
            for u in e.netlist_updates:
                if u.name.upper() == k:
                    v = e.netlist_updates.parameter(u.name)
                    if not (v is None if want[k][0] is U.DeleteParameter else v is not None and same(k, (want[k][0], v), want[k])):
                        raise Violation('lookup', f'parameter {u.name}: {v!r}, expected {want[k]}')
                    v = e.netlist_updates[u.name]
                    if v.updates is not want[k][0]:
                        raise Violation('lookup', f'{u.name}: {v!r}, expected {want[k]}')
        elif want[k][0] is U.UpdateComponentValue:
            name = next(u.name for u in e.netlist_updates if u.name.upper() == k)
            v = e.netlist_updates.value(name)
            if v is None or not same(k, (want[k][0], v), want[k]):
                raise Violation('lookup', f'value of {name}: {v!r}, expected {want[k]}')
        elif want[k][0] is U.DeleteComponent:
            name = next(u.name for u in e.netlist_updates if u.name.upper() == k)
            if e.netlist_updates.value(name) is not None:
                raise Violation('lookup', f'value of deleted {name}: {e.netlist_updates.value(name)!r}')


class Log:
    """Replaces the dictionary of the document: all records in order."""

    def __init__(self):
        self.all = []

    def __setitem__(self, item, v):
        self.all.append((item, *v))

    def __bool__(self):
        return bool(self.all)

    def items(self):
        return canon(self.all).items()


def jobs(tier):
    out = [['runs', side, RUN_DEPTH[tier], i] for side, (_, alpha) in RUNS.items() for i in range(len(alpha))]
    for name, (_, alpha) in BASES.items():
        d = depth_of(tier, name)
        out.append([name, 0, []])
        for i in range(len(alpha)):
            if d > 2 and len(alpha) > 12:
                out.append([name, 1, [i]])
                out += [[name, d, [i, k]] for k in range(len(alpha))]
            else:
                out.append([name, d, [i]])
    return out


def judge(case, rec):
    base, ops = BASES[case['base']][0], [tuple(o) for o in case['ops']]
    M = SIDE[case['base'].split('-')[0]][0]
    n = len(ops)
    seen = [0]
    doc_ = []

    def between(e, doc):
        seen[0] += 1
        doc.canon_log = canon(doc.log.all)
        if seen[0] >= n - 1 or not case.get('last'):
            check(e, doc)
        doc_[:] = [doc]

    try:
        M.run_ops(base, ops, between, log=Log())
    except Violation as v:
        raise Violation(case['base'] + ':' + v.key, v.msg)
    if rec is not None and doc_:
        rec.state(sorted((k, str(v[0]), N.text(v[1])) for k, v in doc_[0].canon_log.items()))


class RecSim(Simulator):
    """Does nothing but leaving results."""
    spice_exe = ['recsim']
    process_name = 'no-such-process-recsim'

    @classmethod
    def valid_switch(cls, switch, switch_param=''):
        return [switch]

    @classmethod
    def run(cls, netlist_file, *args, **kwargs):
        for ext in (cls.raw_extension, '.log'):
            Path(netlist_file).with_suffix(ext).write_text('x')
        return 0


def judge_runs(case, rec):
    """Each run holds the record as it was when it was launched."""
    side = case['side']
    M = SIDE[side][0]
    text = BASES[RUNS[side][0]][0]
    runner = SimRunner(simulator=RecSim, output_folder=os.path.join(scratch(), 'runs'), parallel_sims=4)
    e, doc = M.run_ops(text, [], log=Log())
    want = []
    for op in case['ops']:
        op = tuple(op)
        if op[0] == 'run':
            want.append((runner.run(e), canon(doc.log.all)))
        elif op[0] == 'now':
            runner.run_now(e)
            want.append((runner.completed_tasks[-1], canon(doc.log.all)))
        elif op[0] == 'reset':
            e.reset_netlist()
            doc = M.Doc(text)
            doc.log = Log()
        else:
            error = doc.apply(op)
            try:
                M.apply_real(e, op)
            except M.EXPECTED as ex:
                if type(ex) is not error:
                    raise
            else:
                if error:
                    raise Violation('error', f'{op}: nothing raised, expected {error}')
    runner.wait_completion(timeout=60)
    info = runner.sim_info()
    for i, (task, log) in enumerate(want):
        got = task.edits if task.edits is not None else []
        for what, record in (('task', got), ('sim_info', info[task.runno].get('edits', []))):
            have = real(record)
            if set(have) != set(log) or not all(same(k, have[k], log[k]) for k in log):
                raise Violation(f'{side}:run:{what}', f'run {i + 1}: {list(record)}, expected {log}')
        for ref in ('R1', 'R9'):
            kind, value = log.get(ref, (None, None))
            v = task.value(ref)
            if kind is U.UpdateComponentValue and (v is None or not same(ref, (kind, v), log[ref])) or kind in (None, U.DeleteComponent) and v is not None:
                raise Violation(f'{side}:run:value', f'run {i + 1}: {ref} = {v!r}, expected {log.get(ref)}')
    if rec is not None:
        rec.state([side] + [sorted((k, str(v[0]), N.text(v[1])) for k, v in log.items()) for _, log in want])


def run_job(job, rec):
    if job[0] == 'runs':
        _, side, depth, first = job
        alpha = RUNS[side][1]
        rec.maximum(f'depth_runs_{side}', depth)
        for n in range(1, depth + 1):
            for idx in itertools.product(range(len(alpha)), repeat=n):
                ops = [alpha[i] for i in idx]
                if idx[0] != first or not any(o[0] in ('run', 'now') for o in ops):
                    continue
                case = {'side': side, 'ops': ops}
                rec.run(case, judge_runs, case, rec)
                rec.case('runs-' + side)
                rec.trace()
                rec.step(len(idx))
        return
    name, depth, first = job
    alpha = BASES[name][1]
    rec.maximum(f'depth_{name}', depth)
    for n in range(len(first), max(depth, len(first)) + 1):
        for rest in itertools.product(range(len(alpha)), repeat=n - len(first)):
            idx = list(first) + list(rest)
            case = {'base': name, 'ops': [alpha[i] for i in idx], 'last': True}
            rec.run(case, judge, case, rec)
            rec.case(name)
            rec.trace()
            rec.step(len(idx))
        if not first:
            break
    rec.sample([alpha[i] for i in first])


def replay(case, rec):
    judge_runs(case, None) if 'side' in case else judge(case, None)
