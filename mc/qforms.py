"""QSPICE netlists of every kind of component: one line of the netlist for each, from the documented forms."""
import itertools
import os
import re

from . import qschdoc as Q
from .core import Violation, fresh_dir

B = '¥'


def many(n):
    return [(300 * (i % 4), 200 - 100 * (i // 4)) for i in range(n)]


# symbol, type, pins, value, library | what comes after the nets ({v}: value, {s}: symbol)
KINDS = {
    'R': ('R', 'R', 2, '10K', None, '{v}'), 'C': ('C2', 'C', 2, '1µ', None, '{v}'), 'L': ('bead', 'L', 2, '4.7µ', None, '{v}'), 'V': ('V', 'V', 2, 'PULSE 0 1 1µ 1n', None, '{v}'),
    'I': ('I', 'I', 2, '1m', None, '{v}'), 'B': ('B2', 'B', 2, 'I=sin({2*pi*time})', None, '{v}'), 'D': ('Schottky', 'D', 2, '1N5818', 'nodiode.txt', '{v}'),
    'E': ('E', 'E', 4, '2', None, '{v}'), 'F': ('F', 'F', 2, 'B1 1', None, '{v}'), 'O': ('O', 'O', 4, 'LTL', None, '{v}'), 'T': ('T', 'T', 4, 'Td=<10n>', None, 'Td=10n'),
    'S': ('SW', 'S', 4, 'MySW', None, '{v}'), 'W': ('CSW', 'W', 2, 'V1 MyCSW', None, '{v}'), 'U': ('U', 'U', 3, 'urc N=10', None, '{v}'), 'Y': ('Y', 'Y', 2, '10Meg', None, '{v}'),
    'QN': ('NPN', 'QN', 3, 'BC547', 'nonpn.txt', '[0] {v} NPN'), 'QP': ('PNP', 'QP', 3, 'BC557', 'nopnp.txt', '[0] {v} PNP'),
    'QNS': ('NPNS', 'QN', 4, 'NP', None, '{v} NPN'), 'QPS': ('PNPS', 'QP', 4, 'PN', None, '{v} PNP'), 'QLP': ('LPNP', 'QP', 4, 'LP', None, '{v} PNP'),
    'JN': ('NJF', 'JN', 3, 'LSK', None, '{v} NJF'), 'JP': ('PJF', 'JP', 3, 'MMBF', None, '{v} PJF'), 'JW': ('PwrNJF', 'JN', 3, 'UJ3N', None, '{v} NJF'),
    'MN': ('NMOS', 'MN', 3, '2N7002', 'nonpn.txt', '{v} NMOS'), 'MP': ('PMOS', 'MP', 3, 'PXP', 'npn.txt', '{v} PMOS'), 'MNB': ('NMOSB', 'MN', 4, 'N4', None, '{v} NMOS'),
    'MPB': ('PMOSB', 'MP', 4, 'P4', None, '{v} PMOS'), 'ZN': ('NMF', 'ZN', 3, 'GAN', None, '{v} NMF'), 'ZP': ('PMF', 'ZP', 3, 'GAP', None, '{v} PMF'),
    '×': ('Transformer', '×', 4, 'Turns=1 1', None, '{v}'), '¥': ('D-flop', '¥', 8, 'D-FLOP', None, '{v}'), 'Ã': ('OpAmp', 'Ã', 10, 'RRopAmp', None, '{v}'),
    '€': ('DAC8', '€', 17, 'DAC', 'opa.txt', '{v}'), '£': ('TRISTATE', '£', 6, '3STATE', None, '{v}'), 'Ø': ('', 'Ø(.DLL)', 7, 'counter', None, '{v}'),
    'X': ('', 'X', 3, 'OPA', 'noopa.txt', '{v}'), 'XT': ('Part', 'X', 2, 'amp', 'noopa.txt', '{v}'), 'emb': ('', 'X', 2, 'mycomp', '|.subckt mycomp OUT IN\\nE1 OUT 0 IN 0 {P}\\n.ends mycomp', '{v}'),
    'mod': ('D', 'D', 2, 'DX', '|.model DX D(Is=1n\\n+ N=2)', '{v}'),
    'MOD': ('D', 'D', 2, 'DY', '|.MODEL DY D(Is=1n)', '{v}'),
    'modd': ('D', 'D', 2, '1N-4.7', '|.model 1N-4.7 D(Is=1n)', '{v}'),
}
PAD = {'¥': 16, 'Ã': 16, '€': 32, '£': 64}
PARS = ['tol=<5>', 'm=2', 'Rpar=<1K>']
PIN_TYPES = ['in,b', 'input,uc', 'Output,f', 'common,s', 'out,b', 'InOut,uc', 'INPUT,f']
REF = {'first': '{}1', 'other': 'K{}'}   # references that begin with the letter of the type, and such that do not


def part(kind, i, pars, disabled, ref, new=None):
    """The text of a component, and its lines of the netlist; None for a pin that is in no net."""
    sym, typ, n, value, lib, tail = KINDS[kind]
    tail = tail.replace('Td=10n', new or 'Td=10n')
    letter = {'Ø': 'X'}.get(typ[0], typ[0])
    name = {'first': f'{letter}{i + 1}', 'other': f'K{i + 1}'}[ref]
    x, y = 3000 * i, 0
    pins = many(n)
    txt = Q.comp(sym, name, value, x, y, 0, 1 if disabled else 0, PARS[:pars], lib, pins, typ)
    nets, labels = [], []
    for j, (a, b) in enumerate(pins):
        if name[0] in PAD and j == n - 1:      # a pin that is not used
            txt = txt.replace(f' "{j + 1}"»', f' "{j + 1}" "{B}"»')
            nets.append(B)
        elif name[0] in PAD and j == n - 2:
            nets.append(None)
        else:
            net = '0' if j == 1 else 'shared' if j == 0 else f'n{i}_{j}'
            nets.append(net)
            labels.append(f'  «net ({x + a},{y + b}) 1 13 0 "{"GND" if net == "0" else net}"»\n')
    real = list(nets)
    if disabled:
        return txt + ''.join(labels), None, name, real
    head = name if name[0] == typ[0] else f'{typ[0]}´{name}'
    model, before = new or value, []
    if lib and lib[0] == '|':
        model = f'{head}•{new or value}'
        before = re.sub(r'^(\.\w+) (\S+)', rf'\1 {head}•\2', lib[1:].replace('\\n', '\n')).split('\n')
    if typ in PAD:
        nets += [B] * (PAD[typ] - len(nets))
    if kind in ('MN', 'MP'):
        nets.append(nets[2])
    if kind in ('QNS', 'QPS', 'QLP'):
        nets[3] = f'[{nets[3]}]'
    if typ == '×':
        nets[0], nets[-1] = '«' + nets[0], nets[-1] + '»'
    if typ[0] == 'Ø':
        by = {'in': [], 'out': [], 'common': []}
        for net, c in zip(nets, PIN_TYPES):
            d, t = c.lower().split(',')
            by[{'input': 'in', 'output': 'out', 'inout': 'common'}.get(d, d)].append(f'{net}´{t}')
        nets = ['«' + ' '.join(b) + '»' for b in by.values()]
    pars_txt = [p.replace('<', '').replace('>', '') for p in PARS[:pars]]
    if new and pars:
        pars_txt[0] = 'tol=7'
    return txt + ''.join(labels), (before, head, nets, ' '.join([tail.replace('{v}', model)] + pars_txt)), name, real


def cases(tier):
    names = list(KINDS)
    forms = [(0, 0, 'first', 0, 0), (2, 0, 'first', 1, 1), (1, 1, 'first', 0, 1), (3, 0, 'other', 0, 1)] if tier == 'quick' else \
        list(itertools.product(range(4), (0, 1), ('first', 'other'), (0, 1), (0, 1)))
    for a, b in itertools.product(names, repeat=2):
        for pars, disabled, ref, inside, edit in forms:
            yield {'kinds': [a, b], 'pars': pars, 'disabled': disabled, 'ref': ref, 'inside': inside, 'edit': edit}


def check_lines(lines, parts, when):
    lines, seen = list(lines), {}
    for p in parts:
        if p is None:
            continue
        before, head, nets, tail = p
        got = lines[:len(before) + 1]
        del lines[:len(before) + 1]
        if [g.split() for g in got[:-1]] != [w.split() for w in before]:
            raise Violation(f'{when}:embedded', f'{got[:-1]!r}, expected {before!r}')
        g, w = (got[-1] if got else '').split(), [head] + ' '.join(n if n is not None else '?' for n in nets).split() + tail.split()
        if len(g) == len(w):
            for i, x in enumerate(w):
                if x == '?' and re.fullmatch(r'¥\d+', g[i]) and seen.setdefault(g[i], (head, i)) == (head, i):
                    w[i] = g[i]
        if g != w:
            raise Violation(f'{when}:form', f'{got!r}, expected {" ".join(w)!r}')
    return lines


def judge(case, rec):
    folder = fresh_dir('forms')
    made = [part(k, i, case['pars'] if i == 0 else 0, case['disabled'] and i == 0, case['ref'] if i == 0 else 'first', 'NEW' if case['edit'] and i == 0 else None) for i, k in enumerate(case['kinds'])]
    sheet = Q.schematic(*(m[0] for m in made), Q.txt(Q.Q + '.param p=1'))
    if case['inside']:
        put(folder, 'blk.qsch', sheet)
        put(folder, 'top.qsch', Q.schematic(Q.comp('', 'X9', 'blk', -5000, 0, pins=[(0, 200), (0, -200)], typ='X').replace(' "1"»', ' "out"»').replace(' "2"»', ' "in"»'), '  «net (-5000,200) 1 13 0 "shared"»\n  «net (-5000,-200) 1 13 0 "b"»\n', Q.txt(Q.Q + '.op')))
    else:
        put(folder, 'top.qsch', sheet)
    e = Q.QschEditor(os.path.join(folder, 'top.qsch'))
    path = 'X9:' if case['inside'] else ''
    first = path + made[0][2]
    if case['edit']:
        e.set_component_value(first, 'NEW')
        if case['pars']:
            e.set_component_parameters(first, tol=7)
    for kind, m in zip(case['kinds'], made):
        want = 'NEW' if case['edit'] and m is made[0] else KINDS[kind][3]
        if e.get_component_value(path + m[2]) != want:
            raise Violation('value', f'{m[2]}: {e.get_component_value(path + m[2])!r}, expected {want!r}')
        nodes = [getattr(n, 'name', n) for n in e.get_component_nodes(path + m[2])] if not case['inside'] else m[3]
        if len(nodes) != len(m[3]) or any(w is not None and g != w for g, w in zip(nodes, m[3])):
            raise Violation('nodes', f'{m[2]}: {nodes}, expected {m[3]}')
    config = {m[2]: PIN_TYPES for m in made}
    nets = []
    for i in range(2):                    # writing a netlist changes nothing
        out = os.path.join(folder, f'out{i}.net')
        e.save_netlist(out, config)
        with open(out, encoding='cp1252') as f:
            nets.append(f.read())
    if nets[0] != nets[1]:
        raise Violation('twice', f'{nets[1]!r}, first {nets[0]!r}')
    lines = [l for l in nets[0].split('\n')[1:] if l.strip()]
    if lines[-1:] != ['.end']:
        raise Violation('end', repr(lines[-1:]))
    lines.pop()
    libs = [f'.lib {KINDS[k][4]}' for k, m in zip(case['kinds'], made) if m[1] and KINDS[k][4] and KINDS[k][4][0] != '|']
    libs = list(dict.fromkeys(libs))
    parts = [m[1] for m in made]
    if case['inside']:
        if lines[0].split() != ['X9', 'shared', 'b', 'blk'] or lines[1].split() != ['.subckt', 'blk', 'out', 'in'] or '.ends blk' not in lines or lines[-1] != '.op':
            raise Violation('block', repr(lines))
        lines = lines[2:lines.index('.ends blk')]
    rest = check_lines(lines, parts, 'inside' if case['inside'] else 'top')
    if rest != ['.param p=1'] + libs:
        raise Violation('rest', f'{rest!r}, expected {libs}')
    if rec is not None:
        rec.state(nets[0].split('\n', 1)[1])


def put(folder, name, text):
    with open(os.path.join(folder, name), 'w', encoding='cp1252', newline='') as f:
        f.write(text)
