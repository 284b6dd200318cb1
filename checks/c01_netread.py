"""C01: netlists are read as written and saved unchanged."""
import itertools
import os

from mc import netedit as N
from mc import spice
from mc.core import Violation, scratch
from spicelib.editor.editor_errors import ComponentNotFoundError

PROPERTY = 'C01'
LEVEL = 'model_checking'
RULE = ('(a) element lines generated from a grammar: every element kind x value form x parameter list x node-name set, in all renderings '
        'with up to the stated number of deviations (white space, letter case, indentation, comment, blanks around "=", '
        'continuation at each token boundary); (b) all documents of up to the stated number of statements over a '
        'statement alphabet x title x line ends x ending; each is loaded, read, saved, reloaded and saved again by the real '
        'editor; states are the distinct documents')
ASSUMPTIONS = ['expected reads come from the structure the line was generated from', 'values and parameters that are numbers are compared as numbers',
               'a flag the library writes as noiseless=True is the flag noiseless',
               'node names are words with + - . and no $ # / [ ] characters: the library documents no support for those']

NODES2 = [('a', 'b'), ('N001', '0'), ('in+', 'in-'), ('n.1', 'x_2'), ('1', '2')]
SRC = ['5', '-1.5m', '{Vx}', 'AC 1', '5 AC 1', 'DC 5 AC 1 90', 'PULSE(0 1 0 1n 1n 1u 2u)', 'SINE(0 {A} 1k) AC 1', 'PWL(0 0 1m 1 +2m 3)', 'EXP(0 1 1n 2n)']
NUM = ['1k', '4.7k', '1e3', '-1.5e-3', '2E+3', '1T', '1g', '10f', '10p', '4.7µ', '.5', '1.', '1Meg', '100meg', '1K', '10u', '{x+1}', "'x + 1'", '"x*2"', '{R*(1+x)}', '0', '1n']
KINDS = {
    'R': (NODES2, NUM + ['R=1k', 'R = {y}', '2R2'], ['', 'tc=1,2', 'tc=1,2 temp=50', 'temp={t}', 'tc1=1m tc2={y} m=2', 'temp=5 noiseless'], ['', 'noiseless']),
    'C': (NODES2, NUM + ['C=1u', '1uF', '4.7µF', '10f', '1MegF', '2n2', 'C={c*2}'], ['', 'ic=0', 'ic=0 Rser=1', 'Rser={r} Lser=2n m=3', 'V=50 mfg="KE MET" pn=\'C0\''], ['']),
    'L': (NODES2, NUM + ['L=1m', '1mH', '10µ', '10pH', '2u2'], ['', 'Rser=1m', 'Rser=1 Cpar={c}', 'm=1 n=2 tc1=3'], ['']),
    'D': (NODES2, ['DMOD', '1N4148', 'my-d.1', 'LL41/B'], ['', 'm=2', 'area=2 temp={t}', 'ic=0.5'], ['', 'off', '2']),
    'V': (NODES2, SRC, ['', 'Rser=3', 'Rser=3 Cpar=4', 'Rser={r}'], ['']),
    'I': (NODES2, SRC, ['', 'Rser=3', 'm={k} Cpar=4'], ['']),
    'Q': ([('c', 'b', 'e'), ('c', 'b', 'e', 's'), ('c', 'b', 'e', 's', 'tj')], ['2N2222', 'NPN'], ['', 'area=2', 'area=2 temp=27'], ['']),
    'J': ([('d', 'g', 's')], ['NJF', '2N3819'], ['', 'area=2', 'temp={t} m=2'], ['', 'off']),
    'M': ([('d', 'g', 's', 'b'), ('d', 'g', '0', '0'), ('d', 'g', 's')], ['NMOS', 'BSS123'], ['', 'L=1u', 'l=1u w={w} m=2', 'L=1u W=2u AD=1p PD=3u'], ['', '2']),
    'Z': ([('d', 'g', 's')], ['NMF'], ['', 'm=2'], ['']),
    'O': ([('a', '0', 'b', '0')], ['LTRA1'], [''], ['']),
    'B': (NODES2, ['V=V(c)*2', 'I=V(c,d)+1', 'V={x}*I(V1)', 'V=if(V(a)>1,2,3)', 'V = V(c)'], ['', 'tripdv=1', 'tripdv=1 tripdt=2'], ['']),
    'E': (NODES2, ['c d 10', 'value={V(x)}', 'c d {g}', 'POLY(1) c d 0 1', 'Laplace=1/(1+s)'], [''], ['']),
    'G': (NODES2, ['c d 1m', 'value={V(x)*2}', 'c d table=(0,0,1,1)'], [''], ['']),
    'F': (NODES2, ['V1 10', 'value={I(V1)}'], [''], ['']),
    'H': (NODES2, ['V1 5', 'POLY(1) V1 0 1'], [''], ['']),
    'S': ([('a', 'b', 'c', 'd')], ['SW', 'SW on'], [''], ['']),
    'W': ([('a', 'b', 'V1')], ['CSW', 'CSW off'], [''], ['']),
    'T': ([('a', '0', 'b', '0')], [''], ['Td=50n Z0=50', 'Z0={z}'], ['']),
    'K': ([('L1', 'L2'), ('L1', 'L2', 'L3'), ('L1', 'L2', 'L3', 'L4', 'LA_1')], ['1', '0.9', '.99', '-0.5', '+1', '9.5e-1', '5E-1', '500m', '1e-3'], [''], ['']),
    'U': ([('a', 'b', 'c')], ['URC1'], ['', 'L=1', 'L=50u N=6'], ['']),
    'A': ([('a', 'b', 'c', 'd', 'e', 'f', 'g', 'h')], ['BUF', 'BUF tau=1n', 'SCHMITT vt=0.5 vh=0.1'], [''], ['']),
    'P': ([('a', '0'), ('a', 'b', '0', 'c', 'd', '0')], ['CPL1'], ['', 'len=2'], ['']),
    'Y': ([('a', 'b'), ('a', '0', 'b', '0')], ['TXL'], ['', 'LEN=2'], ['']),
    'N': ([('a', 'b'), ('a', 'b', 'c', 'd', 'e')], ['VAMOD'], ['', 'w=1 l=2'], ['']),
    # QSPICE
    'Ã': ([('n0', 'n1', 'in+') + ('¥',) * 13, tuple(f'n{i}' for i in range(16))], ['RRopAmp', 'OPA-1'], ['', 'AVOL=100K GBW=5Meg'], ['']),
    '¥': ([('a', 'b', '0') + ('¥',) * 13], ['AND', 'D-FLOP'], ['', 'ttol=1n'], ['']),
    '€': ([tuple(f'n{i}' for i in range(32))], ['DAC'], ['', 'x=1'], ['']),
    '£': ([tuple(f'n{i}' for i in range(64))], ['DRV'], ['', 'x=1 y={z}'], ['']),
    'Ö': ([('a', 'b', 'c', 'd', 'e')], ['OTA'], ['', 'g=1m'], ['']),
    'X': ([('a',), ('a', 'b'), ('a', '0', 'in+', 'out-', 'n.5')], ['SUB', 'SUB.X', 'OPA-1', 'LM741/NS'], ['', 'x=1', 'x=1 y={z}', 'x={a b} y="1 2" z=3', 'x=5k model=abc'], ['']),
}
REFS = {'quick': ['1'], 'thorough': ['1', '_a1', 'ABC']}
TITLE = '* the title\n'
SUBS = '.SUBCKT SUB a b\nR1 a b 1\n.ENDS SUB\n'


def parse_params(txt):
    """Parameters of the grammar: name=value separated by blanks outside brackets and quotes, plus flags."""
    return {t.split('=', 1)[0]: t.split('=', 1)[1] for t in spice.tokens(txt) if '=' in t}


def render(item, dev):
    """One text for an element. dev: dict of deviations."""
    prefix, refx, nodes, value, tail, params = item
    ref = prefix + refx
    if dev.get('case'):
        ref = ref.lower()
    if dev.get('pilcrow'):
        ref = ref[0] + '§' + ref[1:]
    eq = dev.get('eq', '=')
    ps = [p if '=' not in p else eq.join(p.split('=', 1)) for p in spice.tokens(params)]
    parts = [ref, *nodes] + ([value] if value else []) + ([tail] if tail else []) + ps
    ws = dev.get('ws', ' ')
    out = dev.get('indent', '') + parts[0]
    for i, p in enumerate(parts[1:], 1):
        c = dev.get('cont')
        if c and (c[0] == i or c[0] == -1):
            out += c[1] + p
        else:
            out += ws + p
    return out + dev.get('comment', '')


DEVS = [('ws', ['  ', '\t', ' \t ']), ('indent', [' ', '\t']), ('case', [True]), ('pilcrow', [True]),
        ('comment', [' ; R2 a b 5', ';x=5', ' ; a ; b', ' ']), ('eq', [' = ', '= ', ' =']),
        ('cont', ['\n+ ', '\n+', ' \n + ', '\n+\t', ' ; c1\n+ '])]


def deviations(nparts, most):
    for n in range(most + 1):
        for which in itertools.combinations(DEVS, n):
            for vals in itertools.product(*[v for _, v in which]):
                d = dict(zip([k for k, _ in which], vals))
                if 'cont' in d:
                    for i in list(range(1, nparts)) + ([-1] if nparts > 2 else []):
                        yield dict(d, cont=[i, d['cont']])
                else:
                    yield d


def items(kind, tier):
    nodes, values, params, tails = KINDS[kind]
    plain = (nodes[0], values[0], tails[0], params[0])
    full = [(n, v, t, p) for n in nodes for v in values for t in tails for p in params]
    for refx in REFS[tier]:
        for n, v, t, p in full:
            # node sets vary only with the first value of each kind; values and parameters always all
            if n is nodes[0] or (v is values[0] and t is tails[0]):
                yield (kind, refx, list(n), v, t, p)


def check_item(case, rec=None):
    kind, refx, nodes, value, tail, params = case['item']
    line = render(case['item'], case['dev'])
    text = TITLE + line + '\n' + SUBS + '.END\n'
    e = N.load(text)
    ref = (kind + refx).upper()
    got = e.get_components()
    if got != [ref]:
        raise Violation('components', f'{line!r}: components {got}, expected [{ref!r}]')
    if list(e.get_component_nodes(ref)) != list(nodes):
        raise Violation('nodes', f'{line!r}: nodes {e.get_component_nodes(ref)}')
    if kind != 'T':
        want = value
        if kind in 'RCL' and '=' in value:
            want = value.split('=', 1)[1].strip()
        v = e.get_component_value(ref)
        if not spice.same_value(N.squeeze(v), N.squeeze(want)):
            raise Violation('value', f'{line!r}: value {v!r}, expected {want!r}')
        if e[ref].value_str != v:
            raise Violation('value-object', f'{line!r}: {e[ref].value_str!r} / {v!r}')
        num = spice.num(want)
        f = None
        try:
            f = e.get_component_floatvalue(ref) if num is not None else None
        except Exception as ex:
            raise Violation('float-value', f'{line!r}: {ex!r}')
        if num is not None and not abs(f - num) <= 1e-9 * abs(num):
            raise Violation('float-value', f'{line!r}: {f!r}, expected {num!r}')
    p = {k: N.plain(x) for k, x in e.get_component_parameters(ref).items() if k != 'Value' and k not in N.FLAGS}
    flag = N.plain(e.get_component_parameters(ref).get('noiseless', 'absent'))
    if flag != ('True' if 'noiseless' in [tail, *params.split()] else 'absent'):
        raise Violation('flag', f'{line!r}: noiseless is {flag}')
    want = {} if kind in 'EGFHSWAK' else parse_params(params)
    if set(p) != set(want):
        raise Violation('parameter-names', f'{line!r}: parameters {p}, expected {want}')
    for k in want:
        if not spice.same_value(N.squeeze(p[k]), N.squeeze(want[k])):
            raise Violation('parameter-value', f'{line!r}: {k} = {p[k]!r}, expected {want[k]!r}')
        if N.plain(e[ref].params[k]) != p[k]:
            raise Violation('parameter-object', f'{line!r}: {k}')
    first = saved(e, text)
    # what was read was not altered by saving, and the saved text gives it again
    again = N.load(first, 'again.net')
    for x in (e, again):
        if N.observe(x) != N.observe(e) or x.get_components() != [ref]:
            raise Violation('changed-by-save', f'{line!r}: {N.observe(x)}')
    if N.save(again) != first:
        raise Violation('second-save', f'{first!r} / {N.save(again)!r}')
    if rec is not None:
        rec.state(text)


def saved(e, text):
    """The saved text has the same statements in the same order."""
    out = N.save(e)
    a, b = spice.read(text), spice.read(out)
    for i, (x, y) in enumerate(itertools.zip_longest(a, b)):
        if x is None or y is None:
            raise Violation('statements', f'{"extra" if x is None else "missing"} {(x or y).key()}\n{out}')
        d = spice.same_stmt(x, y)
        if d:
            raise Violation('statement', f'number {i}: {d}\n{out}')
    if N.save(e) != out:
        raise Violation('save-twice', 'the second save differs from the first one')
    return out


# --- documents
TITLES = ['* title', '* R9 title 0 5', '', '.title a title', '.title 5" (wide :]']
STMTS = ['* a comment', '', '  * indented comment', 'R{i} a b 1k', 'r{i} a b\n+ 1k ; c', 'V{i} a 0 PULSE(0 1\n+ 2 3)',
         '.param p{i}={x}', '.PARAM q{i}=1 r{i}=2 ; c', '.param\n+ s{i}=3\n+ t{i}=4', '.model M{i} D(Is=1n\n+ Rs=2)', '.tran 0 1m', '.meas tran m{i} find V(a)\n+ at=1',
         '.SUBCKT S{i} a b\nR1 a b 1\n* inside\n.param in=1\nX1 a b S0\n.ENDS S{i}', '.subckt s{i} a b params: k=1\nC1 a b 1\n.ends',
         '.subckt n{i} a\n.subckt inner a b\nR7 a b 1\n.ends inner\nX1 a 0 inner\n.ends n{i}',
         '.control\nrun\nR1 set\n* c\nlet x=1\n.endc', '.CONTROL\nrun\n.ENDC', 'X{i} a b S0 k=2', '.lib', '.ic V(a)=1', '.func f(x) {x*2}', '.save V(a) I(R1)', '.global vdd',
         '; other comment', '.lib nothere.lib', '.include one.inc', '.inc "my lib.inc"', '.INCLUDE sub/nest.inc ; why',
         '  * 5" wide )', '# that is ({', 'V{i} a 0 PWL file="a;b) 1.txt" Rser=2', '.control ; (\necho "it :)"\n* c (\n  set a=5"\n+ x ]\n\n.endc',
         '  .control\n  run\n  .endc', '\t.Control\nrun\n\t.EndC ; over', ' .subckt o{i} a b\n  R1 a b 1\n  .param y=1\n  .ends', '.Subckt q{i} a\nR1 a 0 1\n\t.Ends q{i} ; over']
FILES = {'one.inc': '* one\n.param io=1\n.SUBCKT I1 a b\nR1 a b 1\n.ENDS I1\n* last line without line break', 'my lib.inc': '.subckt I2 a\nR1 a 0 1\n.ends\n.model IM D\n',
         'sub/nest.inc': '* nest\n.include deep.inc\n.param nest=2\n', 'sub/deep.inc': '.param deep=4\n'}
EXPAND = {'.include one.inc': 'one.inc', '.inc "my lib.inc"': 'my lib.inc', '.INCLUDE sub/nest.inc ; why': 'sub/nest.inc'}
ENDS = ['.end\n', '.END\n\n* after\n', '.end']
EOLS = ['\n', '\r\n']


def document(case):
    body = [STMTS[s].replace('{i}', str(i + 1)) for i, s in enumerate(case['stmts'])]
    text = TITLES[case['title']] + '\n' + '\n'.join(body) + ('\n' if body else '') + ENDS[case['end']]
    return text.replace('\n', EOLS[case['eol']])


def expanded(case):
    body = []
    for s in case['stmts']:
        if STMTS[s] in EXPAND:
            t = FILES[EXPAND[STMTS[s]]]
            body.append(t.replace('.include deep.inc', FILES['sub/deep.inc'].strip()).strip())
        else:
            body.append(STMTS[s].replace('{i}', str(len(body) + 1)))
    return TITLES[case['title']] + '\n' + '\n'.join(body) + '\n' + ENDS[case['end']]


def check_doc(case, rec=None):
    text = document(case)
    for n, c in FILES.items():
        path = os.path.join(scratch(), n)
        if not os.path.exists(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            open(path, 'w').write(c)
    e = N.load(text)
    text = expanded(case)
    elems, params, depth = [], [], 0
    stmts = spice.read(text)
    for s in stmts:
        w = s.pos[0] if s.kind == 'other' else ''
        depth += w in ('.subckt', '.control')
        if depth == 0 and s.kind == 'elem':
            elems.append(s)
        if depth == 0 and s.kind == 'param':
            params += list(s.kv.items())
        depth -= w in ('.ends', '.endc')
        if w == '.end':
            break
    got = e.get_components()
    if got != [s.pos[0] for s in elems]:
        raise Violation('doc-components', f'{text!r}: {got}')
    for s in elems:
        n = N.nnodes(s)
        if list(e.get_component_nodes(s.pos[0])) != s.pos[1:1 + n]:
            raise Violation('doc-nodes', f'{text!r}: {s.pos[0]}')
        if N.squeeze(e.get_component_value(s.pos[0])) != N.squeeze(N.get_value(s)):
            raise Violation('doc-value', f'{text!r}: {s.pos[0]} {e.get_component_value(s.pos[0])!r}')
    names = sorted(x.upper() for x in e.get_all_parameter_names())
    if names != sorted(k.upper() for k, _ in params):
        raise Violation('doc-parameter-names', f'{text!r}: {names}')
    for k, v in params:
        if not spice.same_value(N.plain(e.get_parameter(k)), v):
            raise Violation('doc-parameter', f'{text!r}: {k}={e.get_parameter(k)!r}')
    out = saved(e, text)
    again = N.load(out, 'again.net')
    if N.save(again) != out:
        raise Violation('doc-second-save', f'{text!r}: {out!r} / {N.save(again)!r}')
    if N.observe(again) != N.observe(e):
        raise Violation('doc-reload', f'{text!r}')
    if rec is not None:
        rec.state(text)


def jobs(tier):
    out = [['item', k, tier, i, 4] for k in KINDS for i in range(4)]
    n = 3 if tier == 'thorough' else 2
    out += [['doc', list(f), n] for f in itertools.product(range(len(STMTS)), repeat=n - 1)]
    return out + [['doc', [], 0]]


def run_job(job, rec):
    if job[0] == 'item':
        _, kind, tier, part, of = job
        most = 3 if tier == 'thorough' else 2
        rec.maximum('deviations', most)
        for i, item in enumerate(items(kind, tier)):
            if i % of != part:
                continue
            nparts = 1 + len(item[2]) + bool(item[3]) + bool(item[4]) + len(spice.tokens(item[5]))
            for dev in deviations(nparts, most if item[1] == '1' else 1):
                if 'eq' in dev and '=' not in item[5] or 'case' in dev and kind > 'Z' or kind > 'Z' and dev.get('cont', [1])[0] > 6:
                    continue
                case = {'item': item, 'dev': dev}
                rec.run(case, check_item, case, rec)
                rec.case('item ' + kind)
                rec.trace()
                rec.step(5)
        return
    _, first, n = job
    rec.maximum('statements', n)
    rests = [first + [r] for r in range(len(STMTS))] if n else [[]]
    if n:
        rests += [first[:k] for k in range(1, len(first) + 1) if not any(first[k:])]
    for st in rests:
        for t, en, eo in itertools.product(range(len(TITLES)), range(len(ENDS)), range(len(EOLS))):
            if sum(map(bool, (t, en, eo))) > (1 if len(st) > 1 else 3):
                continue
            case = {'stmts': st, 'title': t, 'end': en, 'eol': eo}
            rec.run(case, check_doc, case, rec)
            rec.case('doc')
            rec.trace()
            rec.step(5)


def replay(case, rec):
    check_item(case) if 'item' in case else check_doc(case)
