"""Components that are created from their attributes, without a line of a netlist."""
from . import netedit as N
from . import spice
from .core import Violation

KINDS = [('R9', ['a', 'b'], 10, '10'), ('C9', ['a', 'b'], 1e-6, '1u'), ('L9', ['a', 'b'], '{x}', '{x}'), ('V9', ['a', 'b'], 'SINE(0 1 1k)', 'SINE(0 1 1k)'),
         ('I9', ['a', '0'], -2.5e-3, '-2.5m'), ('D9', ['a', 'b'], 'DX', 'DX'), ('Q9', ['a', 'b', 'c'], 'NPN', 'NPN'), ('M9', ['a', 'b', 'c', 'd'], 'NM', 'NM'),
         ('X9', ['a', 'b', 'c', '0', 'x'], 'AMP', 'AMP'), ('J9', ['a', 'b', 'c'], 'JN', 'JN')]
WORDS = [('reference', 'ports', 'value', 'params'), ('ref', 'p', 'v', 'parameters'), ('designator', 'pins', 'model', 'param'), None]
BASE = '* t\nR1 in out 1k\nC1 out 0 1u\n.tran 1\n.end\n'
EDITS = ['none', 'value', 'param', 'del', 'clone', 'replace']
N.BASES.setdefault('fresh', BASE)


def cases(tier):
    for k in range(len(KINDS)):
        for w in range(len(WORDS)):
            for n in range(0, 4):
                for edit in EDITS:
                    yield [k, w, n, 4, edit]
        for n in range(0, 24 if tier == 'quick' else 60):
            for width in range(1, 14 if tier == 'quick' else 40):
                for edit in EDITS[:3]:
                    yield [k, 0, n, width, edit]


def check(case):
    from spicelib.editor.spice_components import SpiceComponent
    k, w, n, width, edit = case
    ref, ports, value, said = KINDS[k]
    params = {f'p{i}': '1' * (width + i % 3) for i in range(n)}
    e = N.load(BASE)
    if WORDS[w] is None:
        c = SpiceComponent(netlist=e)
        c.reference = ref
        c.ports = list(ports)
        c.attributes['value'] = value
        if params:
            c.attributes['params'] = dict(params)
    else:
        names = WORDS[w]
        c = SpiceComponent(netlist=e, **{names[0]: ref, names[1]: list(ports), names[2]: value, **({names[3]: dict(params)} if n else {})})
    e.add_component(c)
    want = {ref: (said, ports, params)}
    if edit == 'value':
        e.set_component_value(ref, 'ZZ')
        want[ref] = ('ZZ', ports, params)
    elif edit == 'param':
        e.set_component_parameters(ref, p1='77', last=5)
        want[ref] = (said, ports, {**params, 'p1': '77', 'last': '5'})
    elif edit == 'del':
        e.remove_component(ref)
        del want[ref]
    elif edit == 'clone':
        other = e[ref].clone()
        other.reference = ref[0] + '8'
        e.add_component(other)
        want[ref[0] + '8'] = want[ref]
    elif edit == 'replace':
        e.add_component(SpiceComponent(netlist=e, reference=ref, ports=list(ports), value='YY'))
        want[ref] = ('YY', ports, {})
    for when in ('added', 'reloaded'):
        got = {r: e.get_component_nodes(r) for r in e.get_components() if r not in ('R1', 'C1')}
        if got != {r: v[1] for r, v in want.items()}:
            raise Violation('scratch', f'{when} {case}: nodes {got}, expected {want}')
        for r, (v, _, p) in want.items():
            if not spice.same_value(e.get_component_value(r), v):
                raise Violation('scratch', f'{when} {case}: value {e.get_component_value(r)}, expected {v}')
            q = {a: str(b) for a, b in e.get_component_parameters(r).items() if a != 'Value'}
            if q.keys() != p.keys() or any(not spice.same_value(q[a], p[a]) for a in p):
                raise Violation('scratch', f'{when} {case}: parameters {q}, expected {p}')
        txt = N.save(e)
        stmts = [s for s in spice.read(txt) if s.kind != 'comment' or s.comment.strip()]
        left = []
        for s in stmts:
            if s.kind == 'elem' and s.ref in want:
                v, nodes, p = want[s.ref]
                if s.pos[1:1 + len(nodes)] != nodes or not spice.same_value(' '.join(s.pos[1 + len(nodes):]), v) or list(s.kv) != list(p) \
                        or any(not spice.same_value(s.kv[a], p[a]) for a in p):
                    raise Violation('scratch', f'{when} {case}: {s.pos} {s.kv} is saved, expected {want[s.ref]}')
                left.append(s.ref)
        if sorted(left) != sorted(want):
            raise Violation('scratch', f'{when} {case}: elements {left} are saved, expected {want}')
        rest = [s.key() for s in stmts if not (s.kind == 'elem' and s.ref in want)]
        if rest != [s.key() for s in spice.read(BASE)]:
            raise Violation('scratch', f'{when} {case}: the other statements became {rest}')
        e = N.load(txt, 'again.net')
    return f'{ref[0]} {edit}'
