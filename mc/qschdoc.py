"""QSPICE schematics: an independent reader of .qsch files, a reference document with edits, and the real QschEditor."""
import io
import os
import re

from . import instr, spice
from .core import Violation, scratch
from .netedit import plain, squeeze, text, check_kinds
from spicelib.editor.base_schematic import ERotation, Point
from spicelib.editor.editor_errors import ComponentNotFoundError, ParameterNotFoundError
from spicelib.editor.qsch_editor import QschEditor
from spicelib.editor.updates import UpdateType as U

HEADER = 'ÿØÿÛ'
Q = 'ï»¿'      # in front of directives
ENCODING, Editor = 'cp1252', QschEditor
ROT = {r.name: r for r in ERotation}


# --- file syntax
class Node:
    def __init__(self, head):
        self.head, self.items, self.free = head, [], False

    def tag(self):
        return self.head.split(' ')[0]

    def all(self, tag):
        return [n for n in self.items if n.tag() == tag]

    def out(self, level=0):
        sp = '  ' * level
        if not self.items:
            return f'{sp}«{self.head}»\n'
        return f'{sp}«{self.head}\n' + ''.join(n.out(level + 1) for n in self.items) + f'{sp}»\n'

    # text (x,y) size location comment color a b "string"
    TEXT = re.compile(r'text (\(-?\d+,-?\d+\)) (\S+) (\S+) (\S+) (\S+) (\S+) (\S+) "(.*)"$')

    @property
    def str(self):
        return self.TEXT.match(self.head)[8]

    @str.setter
    def str(self, v):
        m = self.TEXT.match(self.head)
        self.head = f'{self.head[:m.start(8)]}{v}"'

    @property
    def comment(self):
        return self.TEXT.match(self.head)[4] == '1'


def read(txt):
    """The tree of a .qsch file: one record per line, closed on its line or by a line of its own."""
    if not txt.startswith(HEADER):
        raise Violation('format', f'header {txt[:4]!r}')
    stack, root = [], None
    for line in txt[4:].split('\n'):
        s = line.strip(' ')
        if not s:
            continue
        if s == '»':
            stack.pop()
            continue
        if not s.startswith('«'):
            raise Violation('format', f'line {line!r}')
        closed = s.endswith('»')
        n = Node(s[1:-1] if closed else s[1:])
        if stack:
            stack[-1].items.append(n)
        elif root is None:
            root = n
        else:
            raise Violation('format', f'record out of the schematic: {line!r}')
        if not closed:
            stack.append(n)
    if stack or root is None:
        raise Violation('format', 'records are not closed')
    return root


# --- making schematics
SYMBOLS = {   # type, pins
    'R': ('R', [(0, 200), (0, -200)]), 'C': ('C', [(0, 200), (0, -200)]), 'V': ('V', [(0, 200), (0, -200)]), 'D': ('D', [(0, -200), (0, 200)]),
    'B1': ('B', [(0, 200), (0, -200)]), 'NMOS': ('MN', [(100, 200), (-200, -100), (100, -200)]), 'E': ('E', [(0, 200), (0, -200), (-200, 100), (-200, -100)]),
    'NPN': ('QN', [(100, 200), (-100, 0), (100, -200)]),
}


def comp(sym, ref, value, x=0, y=0, rot=0, enabled=0, texts=(), lib=None, pins=None, typ=None):
    t, p = SYMBOLS.get(sym, ('X', []))
    t, p = typ or t, pins or p
    out = [f'  «component ({x},{y}) {rot} {enabled}', f'    «symbol {sym}' if sym else '    «symbol', f'      «type: {t}»',
           '      «description: A part»']
    if lib:
        out.append(f'      «library file: {lib}»')
    out += ['      «shorted pins: false»', '      «line (0,200) (0,180) 0 0 0x1000000 -1 -1»',
            f'      «text (100,150) 1 7 0 0x1000000 -1 -1 "{ref}"»', f'      «text (100,-150) 1 7 0 0x1000000 -1 -1 "{value}"»']
    out += [f'      «text (100,{-200 - 50 * i}) 0.5 0 0 0x1000000 -1 -1 "{s}"»' for i, s in enumerate(texts)]
    out += [f'      «pin ({a},{b}) (0,0) 1 0 0 0x0 -1 "{i + 1}"»' for i, (a, b) in enumerate(p)]
    return '\n'.join(out + ['    »', '  »']) + '\n'


def txt(s, y=0, comment=0):
    return f'  «text (-1200,{y}) 1 7 {comment} 0x1000000 -1 -1 "{s}"»\n'


def schematic(*parts):
    return f'{HEADER}«schematic\n' + ''.join(parts) + '»\n\n'


BASES = {
    'elements': schematic(
        comp('R', 'R1', '10K', -400, 300), comp('R', 'R10', '{res}', 800, 300, 2, texts=['tc1=5']), comp('R', 'R3', '1k', 1600, 300, enabled=1),
        comp('V', 'V1', 'PULSE 0 1 1µ 1n', -1200, 300, texts=['Rser=3 Cpar = 4']), comp('C', 'C1', '1µ', 0, 1300, 8, texts=['Rser=1 ESL={l}', 'V=5', 'free text']),
        comp('D', 'D1', '1N4148', 400, 1300, 4, lib='nodiode.txt', texts=['2', 'temp=3']), comp('NMOS', 'M1', 'BSS', 1400, 1300, texts=['L=1u W=2u']),
        comp('B1', 'B1', 'V=V(in)*2', 2000, 1300, texts=['tripdv=1']),
        '  «net (-400,0) 1 13 0 "GND"»\n  «net (-400,600) 1 14 0 "in"»\n  «junction (-400,600)»\n',
        '  «wire (-400,100) (-400,0) "GND"»\n  «wire (-400,500) (-400,600) "in"»\n  «wire (-1200,500) (-400,600) "in"»\n  «wire (-1200,100) (-400,0) "GND"»\n'
        '  «wire (800,100) (1600,100) "N05"»\n  «wire (0,1100) (0,1000) "a:b"»\n',
        '  «line (2000,1300) (3150,-100) 1 1 0xff0000 -1 -1»\n  «rect (1850,1550) (3650,-400) 0 0 0 0x8000 0x1000000 -1 0 -1»\n',
        txt(Q + '.tran 1m', -750), txt(Q + '.param res=10K', -950), txt('Some graphics: here', -1050, 1), txt('plain', -1150)),
    'params': schematic(
        comp('R', 'R1', '{x}', -400, 300),
        txt(Q + '.param x=1k xx=2k', 0), txt(Q + '.tran 1m\\n.PARAM y={x*2} ; first\\n+ yy=3 my_x 7\\n.save V(in)', 20), txt(Q + '.param x=9\\n.param gone=1', 40, 1),
        txt(Q + '.params a=1\\n* .param b=5\\n.param c=3', 60), txt('.param plain=4', 80), txt(Q + '.op', 100)),
    'empty': schematic(txt(Q + '.op')),
}


# two blocks of one schematic, a block in it that is also used at the top, blocks with other names, a library model, one that is not there
IO = '  «net (-400,0) 1 13 0 "A"»\n  «net (-400,600) 1 14 0 "B"»\n'
TWO = [(0, 200), (0, -200)]
SHEETS = {
    'top.qsch': schematic(
        comp('R', 'R1', '10K', -400, 300), comp('', 'X1', 'blk', 800, 300, pins=TWO, typ='X', texts=['q=2']), comp('', 'X2', 'blk', 1600, 300, 2, pins=TWO, typ='X'), comp('', 'X3', 'inner', 2400, 300, pins=TWO, typ='X'),
        comp('', 'U4', 'other', 3200, 300, pins=TWO, typ='X'), comp('', 'X5', 'OPA', 4000, 300, pins=TWO, typ='X', lib='opa.txt'), comp('', 'X6', 'inner', 4800, 300, enabled=1, pins=TWO, typ='X'),
        '  «net (-400,0) 1 13 0 "GND"»\n  «wire (800,100) (-400,500) "N01"»\n  «wire (1600,500) (-400,500) "N01"»\n', txt(Q + '.op'), txt(Q + '.param g=1', -100)),
    'blk.qsch': schematic(
        comp('R', 'R1', '10', -400, 300, texts=['tol=1']), comp('C', 'C1', '1µ', 0, 300), comp('', 'X1', 'inner', 800, 300, pins=TWO, typ='X'), comp('', 'X7', 'inner', 1600, 300, pins=TWO, typ='X'), IO,
        txt(Q + '.param q=1'), txt('a note', -100, 1)),
    'inner.qsch': schematic(comp('R', 'R1', '100', -400, 300), comp('V', 'V1', '5', 0, 300), IO),
    'other.qsch': schematic(comp('R', 'R1', '7', -400, 300, texts=['temp=3']), IO),
}


def block(doc, ref):
    c = doc.comp(ref)
    f = c.texts()[1].str + '.qsch'
    return f if c.type() == 'X' and f in SHEETS else None


class Comp:
    def __init__(self, node):
        self.node = node
        self.sym = node.all('symbol')[0]

    def texts(self):
        return self.sym.all('text')

    @property
    def ref(self):
        return self.texts()[0].str

    def head(self):
        """x, y, rotation, enabled"""
        m = re.match(r'component \((-?\d+),(-?\d+)\) (\d+) (\d+)$', self.node.head)
        return [int(g) for g in m.groups()]

    def type(self):
        return next((n.head[6:] for n in self.sym.items if n.head.startswith('type: ')), 'X')

    def pins(self):
        return [tuple(int(v) for v in re.match(r'pin \((-?\d+),(-?\d+)\)', p.head).groups()) for p in self.sym.all('pin')]


def param_spans(s):
    """(name, value, start, stop) of the parameters of a text."""
    out, pos = [], 0
    for t in spice.tokens(s):
        at = s.index(t.split('=')[0], pos)
        k, eq, v = t.partition('=')
        if eq:
            m = re.compile(re.escape(k) + r'\s*=\s*' + re.escape(v)).match(s, at)
            out.append((k, v, at, m.end()))
            pos = m.end()
        else:
            pos = at + len(t)
    return out


def pin_at(x, y, rot, pin):
    px, py = pin
    for _ in range((rot % 8) // 2):
        px, py = -py, px
    if rot % 2:
        px, py = px - py, px + py
    return (x - px, y + py) if rot >= 8 else (x + px, y + py)


class Doc:
    def __init__(self, base):
        self.base = base
        self.root = read(base)
        self.log = {}
        self.moved = set()
        self.judge_params = True

    def canon(self):
        return self.root.out(), sorted((k, str(v[0]), text(v[1])) for k, v in self.log.items())

    def comps(self):
        return [Comp(n) for n in self.root.all('component')]

    def comp(self, ref):
        return next((c for c in self.comps() if c.ref == ref), None)

    def active(self):
        return [n for n in self.root.all('text') if not n.comment]

    def stmts(self, n):
        s = n.str
        return spice.read((s[len(Q):] if s.startswith(Q) else s).replace('\\n', '\n'))

    def params(self):
        out = {}
        for n in self.active():
            for s in self.stmts(n):
                if s.kind == 'param':
                    for k, v in s.kv.items():
                        out.setdefault(k.upper(), v)
        return out

    def record(self, item, typ, value):
        self.log[item.upper()] = (typ, value)

    def comp_params(self, c):
        """What the component answers: named parameters and the texts by number."""
        named, numbered = {}, {}
        for i, t in enumerate(c.texts()[2:], 2):
            for k, v, _, _ in param_spans(t.str):
                named.setdefault(k, v)
            numbered[i] = t.str
        return named, numbered

    def instructions(self):
        def put(n, s):
            if s is None:
                self.root.items.remove(n)
            else:
                n.str = (Q if n.str.startswith(Q) else '') + s

        def new(s):
            n = Node(f'text (0,0) 1 0 0 0x1000000 -1 -1 "{Q}{s}"')
            n.free = True
            self.root.items.append(n)

        return instr.Texts(lambda: [(n, n.str[len(Q):] if n.str.startswith(Q) else n.str) for n in self.active()], put, new, self.record)

    def apply(self, op):
        name = op[0]
        if name in ('save', 'read'):
            return None
        if name in instr.OPS:
            self.answer, error = self.instructions().apply(op)
            return error
        if name != 'par':
            c = self.comp(op[1])
            if c is None:
                return ComponentNotFoundError
        if name in ('val', 'item', 'attr', 'pyval', 'cval', 'model'):
            c.texts()[1].str = value_text(op[2])
            self.record(op[1], U.UpdateComponentValue, op[2])
        elif name in ('cpar', 'pypar', 'citem'):
            for k, v in op[2].items():
                for t in c.texts()[2:]:
                    hit = next((p for p in param_spans(t.str) if p[0] == k), None)
                    if hit:
                        s = t.str
                        if v is None:
                            t.str = f'{s[:hit[2]].rstrip()} {s[hit[3]:].lstrip()}'.strip()
                            if not t.str:
                                c.sym.items.remove(t)
                            self.record(f'{op[1]}:{k}', U.DeleteComponentParameter, None)
                        else:
                            t.str = f'{s[:hit[2]]}{k}={value_text(v)}{s[hit[3]:]}'
                            self.record(f'{op[1]}:{k}', U.UpdateComponentParameter, v)
                        break
                else:
                    if v is not None:
                        n = Node(f'text (0,0) 0.5 0 0 0x1000000 -1 -1 "{k}={value_text(v)}"')
                        n.free = True
                        last = max(i for i, x in enumerate(c.sym.items) if x.tag() == 'text')
                        c.sym.items.insert(last + 1, n)
                        self.record(f'{op[1]}:{k}', U.AddComponentParameter, v)
        elif name == 'line':
            t = c.texts()
            n = op[2]
            if n < 2 or n > len(t) or n == len(t) and op[3] is None:
                return ValueError
            if op[3] is None:
                c.sym.items.remove(t[n])
            elif n < len(t):
                t[n].str = value_text(op[3])
            else:
                new = Node(f'text (0,0) 1 7 0 0x1000000 -1 -1 "{value_text(op[3])}"')
                new.free = True
                c.sym.items.insert(c.sym.items.index(t[-1]) + 1, new)
            self.record(op[1], U.UpdateComponentParameter, op[3])
        elif name == 'clear':
            for k in self.comp_params(c)[0]:
                self.apply(('cpar', op[1], {k: None}))
        elif name in ('pos', 'posint'):
            x, y, r, en = c.head()
            r = ROT[op[4]].value // 45 if name == 'pos' else op[4] // 45 + 8 * op[5]
            c.node.head = f'component ({op[2]},{op[3]}) {r} {en}'
            self.moved.add(op[1])
        elif name == 'del':
            self.root.items.remove(c.node)
            self.record(op[1], U.DeleteComponent, None)
        elif name == 'par':
            self.set_param(op[1], op[2])
        else:
            raise KeyError(name)
        return None

    def set_param(self, p, v):
        for n in self.active():
            st = self.stmts(n)
            for s in st:
                k = next((k for k in s.kv if k.upper() == p.upper()), None) if s.kind == 'param' else None
                if k is None:
                    continue
                if v is None:
                    del s.kv[k]
                    self.record(p, U.DeleteParameter, None)
                else:
                    s.kv[k] = text(v)
                    self.record(p, U.UpdateParameter, v)
                st = [x for x in st if x.kind != 'param' or x.kv]
                q = Q if n.str.startswith(Q) else ''
                n.str = q + '\\n'.join(write_stmt(x) for x in st)
                if not st:
                    self.root.items.remove(n)
                return
        if v is not None:
            n = Node(f'text (0,0) 1 0 0 0x1000000 -1 -1 "{Q}.param {p}={text(v)}"')
            n.free = True
            self.root.items.append(n)
            self.record(p, U.AddParameter, v)

    # --- netlist
    def nets(self, c):
        """Net of each pin: a name, or the position of a pin without net."""
        x, y, rot, _ = c.head()
        out = []
        for pin in c.pins():
            at = pin_at(x, y, rot, pin)
            for n in self.root.all('net'):
                m = re.match(r'net \((-?\d+),(-?\d+)\) .*"(.*)"$', n.head)
                if (int(m[1]), int(m[2])) == at:
                    net = m[3]
                    break
            else:
                for n in self.root.all('wire'):
                    m = re.match(r'wire \((-?\d+),(-?\d+)\) \((-?\d+),(-?\d+)\) "(.*)"$', n.head)
                    if at in ((int(m[1]), int(m[2])), (int(m[3]), int(m[4]))):
                        net = m[5]
                        break
                else:
                    net = at
            out.append('0' if net == 'GND' else net)
        return out


from .ascdoc import write_stmt   # noqa: E402  (same form of directives)


def value_text(v):
    return text(v)


def same_string(a, b):
    """Texts are the same up to the form of numbers and blanks."""
    if a == b or spice.same_value(squeeze(a), squeeze(b)):
        return True
    sa, sb = a, b
    if sa.startswith(Q) != sb.startswith(Q):
        return False
    if sa.startswith(Q):
        sa, sb = (spice.read(x[len(Q):].replace('\\n', '\n')) for x in (sa, sb))
        return len(sa) == len(sb) and all(spice.same_stmt(x, y) == '' for x, y in zip(sa, sb))
    if sa.startswith('.'):
        sa, sb = (spice.read(x.replace('\\n', '\n')) for x in (sa, sb))
        return len(sa) == len(sb) and all(spice.same_stmt(x, y) == '' for x, y in zip(sa, sb))
    ta, tb = (spice.tokens(x) for x in (sa, sb))
    return len(ta) == len(tb) and all(spice.same_value(*(t.split('=', 1)[-1] for t in p)) and p[0].partition('=')[:2][1:] == p[1].partition('=')[:2][1:]
                                      and ('=' not in p[0] or p[0].split('=')[0] == p[1].split('=')[0]) for p in zip(ta, tb))


def same_node(g, w):
    """'' or what differs; g from a file, w expected."""
    if g.tag() != w.tag():
        return f'{g.head!r}, expected {w.head!r}'
    if g.tag() == 'text':
        mg, mw = Node.TEXT.match(g.head), Node.TEXT.match(w.head)
        if not mg or mg[4] != mw[4] or not w.free and mg.groups()[:7] != mw.groups()[:7] or not same_string(mg[8], mw[8]):
            return f'{g.head!r}, expected {w.head!r}'
    elif g.head != w.head:
        return f'{g.head!r}, expected {w.head!r}'
    if len(g.items) != len(w.items):
        return f'{g.head!r}: {[n.head for n in g.items]}, expected {[n.head for n in w.items]}'
    return next((d for d in map(same_node, g.items, w.items) if d), '')


# --- the real editor
def load(txt_, name='n.qsch'):
    p = os.path.join(scratch(), name)
    with open(p, 'w', newline='', encoding='cp1252') as f:
        f.write(txt_)
    return QschEditor(p)


def save(e, name='saved.qsch'):
    """The text of the schematic; the editor keeps its file."""
    p = os.path.join(scratch(), name)
    if os.path.exists(p):
        os.unlink(p)
    e.save_netlist(p)
    with open(p, encoding='cp1252', newline='') as f:
        return f.read()


def net_text(e):
    s = io.StringIO()
    e.save_netlist(s)
    return s.getvalue()


def apply_real(e, op):
    name = op[0]
    if name == 'val':
        e.set_component_value(op[1], op[2])
    elif name == 'item':
        e[op[1]] = op[2]
    elif name == 'attr':
        e[op[1]].value = op[2]
    elif name == 'pyval':
        e.set_component_values(**{op[1]: op[2]})
    elif name == 'cval':
        e[op[1]]['value'] = op[2]
    elif name == 'model':
        e.set_element_model(op[1], op[2])
    elif name == 'cpar':
        e.set_component_parameters(op[1], **op[2])
    elif name == 'pypar':
        e[op[1]].set_params(**op[2])
    elif name == 'citem':
        for k, v in op[2].items():
            e[op[1]][k] = v
    elif name == 'line':
        e[op[1]].set_parameter(op[2], op[3])
    elif name == 'clear':
        e[op[1]].clear_parameters()
    elif name == 'pos':
        p = Point(op[2], op[3])
        e.set_component_position(op[1], p, ROT[op[4]])
        p.X = p.Y = -31337   # it belongs to the caller
    elif name == 'posint':
        e.set_component_position(op[1], (op[2], op[3]), op[4], op[5])
    elif name == 'par':
        e.set_parameter(op[1], op[2])
    elif name == 'del':
        e.remove_component(op[1])
    elif name == 'save':
        save(e)
        net_text(e)
    elif name == 'read':
        observe(e)
    elif name in instr.OPS:
        return instr.apply_real(e, op)
    else:
        raise KeyError(name)


def observe(e):
    out = {}
    for ref in e.get_components():
        pos, rot = e.get_component_position(ref)
        par, nodes = e.get_component_parameters(ref), e.get_component_nodes(ref)
        out[ref] = (e.get_component_value(ref), dict(par), pos.X, pos.Y, ERotation(rot).value // 45, [str(n) for n in nodes])
        pos.X += 1000   # the answers belong to the caller
        par['changed'] = '1'
        nodes.append('changed')
    return out, {n: plain(e.get_parameter(n)) for n in e.get_all_parameter_names()}


def check_nets(doc, got, when):
    """got: reference -> net names. Pins without a net get a name of their own, the same at the same place."""
    names = {}
    for c in doc.comps():
        if c.ref not in got or c.ref in doc.moved:
            continue
        want = doc.nets(c)
        if len(want) != len(got[c.ref]):
            raise Violation(f'{when}:nets', f'{c.ref}: {got[c.ref]}, expected {want}')
        for g, w in zip(got[c.ref], want):
            if isinstance(w, str):
                ok = g == w
            else:
                ok = names.setdefault(w, g) == g
            if not ok:
                raise Violation(f'{when}:nets', f'{c.ref}: {got[c.ref]}, expected {want}')
    known = {m for c in doc.comps() for m in doc.nets(c) if isinstance(m, str)}
    if len(set(names.values())) != len(names) or known & set(names.values()):
        raise Violation(f'{when}:floating', f'{names}')


def check_getters(e, doc, when):
    got, pars = observe(e)
    if list(got) != [c.ref for c in doc.comps()]:
        raise Violation(f'{when}:components', f'{list(got)}, expected {[c.ref for c in doc.comps()]}')
    check_kinds(e, list(got), {r: v[0] for r, v in got.items()}, when)
    for c in doc.comps():
        val, par, x, y, rot, nets = got[c.ref]
        want = c.texts()[1].str
        if not same_string(val, want):
            raise Violation(f'{when}:value', f'{c.ref}: {val!r}, expected {want!r}')
        if [x, y, rot] != c.head()[:3]:
            raise Violation(f'{when}:position', f'{c.ref}: {(x, y, rot)}, expected {c.head()}')
        named, numbered = doc.comp_params(c) if doc.judge_params else ({}, {})
        if doc.judge_params and ({k for k in par if isinstance(k, str)} != set(named) or {k for k in par if not isinstance(k, str)} != set(numbered)):
            raise Violation(f'{when}:parameter-names', f'{c.ref}: {par}, expected {named} {numbered}')
        for k, v in {**named, **numbered}.items():
            if not same_string(plain(par[k]), v):
                raise Violation(f'{when}:parameter-value', f'{c.ref}:{k} = {par[k]!r}, expected {v!r}')
    check_nets(doc, {r: v[5] for r, v in got.items()}, when)
    wp = doc.params()
    if sorted(pars) != sorted(wp):
        raise Violation(f'{when}:circuit-parameter-names', f'{pars}, expected {wp}')
    for k in wp:
        for n in (k, k.lower()):
            v = plain(e.get_parameter(n))
            if not spice.same_value(squeeze(v), squeeze(wp[k])):
                raise Violation(f'{when}:circuit-parameter', f'{n} = {v!r}, expected {wp[k]!r}')
    for n in ('gone', 'b', 'nope', 'x'):
        if n.upper() not in wp:
            try:
                v = e.get_parameter(n)
            except ParameterNotFoundError:
                continue
            raise Violation(f'{when}:ghost-parameter', f'{n} = {v!r}')
    for r in ('R1', 'R99', 'r10'):
        if doc.comp(r) is None:
            try:
                v = e.get_component_value(r)
            except ComponentNotFoundError:
                continue
            raise Violation(f'{when}:ghost-component', f'{r} = {v!r}')


def check_text(txt_, doc, when):
    if not doc.log and not doc.moved and txt_ != doc.base:
        raise Violation(f'{when}:bytes', f'{txt_!r}\nexpected\n{doc.base!r}')
    d = same_node(read(txt_), doc.root)
    if d:
        raise Violation(f'{when}:schematic', d)


MODELS = {'MN': 'NMOS', 'QN': 'NPN'}


def check_net_text(t, doc, when):
    """The netlist: a line per enabled component, the active directives, the libraries and an .end."""
    lines = [l for l in t.split('\n') if l.strip()]
    if not lines[0].startswith('*') or lines[-1].lower() != '.end':
        raise Violation(f'{when}:netlist-frame', t)
    lines = lines[1:-1]
    nets, i = {}, 0
    for c in doc.comps():
        if c.head()[3] != 0:
            continue
        texts = [x.str for x in c.texts()]
        typ, n = c.type(), len(c.pins())
        ref = texts[0] if texts[0][0] == typ[0] else f'{typ[0]}´{texts[0]}'
        tk = lines[i].split(' ')
        i += 1
        if tk[0] != ref:
            raise Violation(f'{when}:netlist-order', f'{lines[i - 1]!r}, expected {ref}')
        nets[c.ref] = tk[1:1 + n]
        rest = tk[1 + n:]
        if typ == 'MN':
            if rest[0] != nets[c.ref][2]:
                raise Violation(f'{when}:netlist-bulk', lines[i - 1])
            rest = rest[1:]
        want = texts[1] + (' ' + MODELS[typ] if typ in MODELS else '') + ''.join(' ' + x for x in texts[2:])
        if typ == 'QN':
            want = '[0] ' + want
        if not same_string(' '.join(rest), want):
            raise Violation(f'{when}:netlist-component', f'{lines[i - 1]!r}, expected {ref} .. {want!r}')
    check_nets(doc, nets, f'{when}:netlist')
    want = [s for n in doc.active() for s in doc.stmts(n)]
    libs = [n.head[len('library file: '):] for c in doc.comps() if c.head()[3] == 0 for n in c.sym.items if n.head.startswith('library file: ')]
    got = spice.read('\n'.join(lines[i:]))
    want += spice.read('\n'.join(f'.lib {x}' for x in dict.fromkeys(libs)))
    if len(got) != len(want) or any(spice.same_stmt(a, b) for a, b in zip(got, want)):
        raise Violation(f'{when}:netlist-directives', f'{[s.key() for s in got]}, expected {[s.key() for s in want]}')


def split_net(lines):
    """The lines out of definitions, and the definitions: name -> (ports, lines)."""
    out, defs, level = [], {}, 0
    for l in lines:
        head = l.split(' ')[0].lower()
        if head == '.subckt':
            level += 1
            if level == 1:
                name, ports = l.split()[1], l.split()[2:]
                if name in defs:
                    raise Violation('netlist-definition', f'{name} is defined twice')
                defs[name] = (ports, [])
                continue
        if head == '.ends':
            level -= 1
            if level == 0:
                if l.split()[1:] not in ([], [name]):
                    raise Violation('netlist-definition', f'{l!r} ends {name}')
                continue
        (out if level == 0 else defs[name][1]).append(l)
    return out, defs


def check_net_sheets(t, sh, when):
    """The netlist of a hierarchical schematic: each definition has the content of the schematic of the block."""
    lines = [l for l in t.split('\n') if l.strip()]

    def check(lines, file):
        out, defs = split_net(lines)
        doc = sh.docs[file]
        check_net_text('\n'.join(['*'] + out + ['.end']), doc, f'{when} {file}')
        used = {c.texts()[1].str: (f, c) for c in doc.comps() if c.head()[3] == 0 for f in [block(doc, c.ref)] if f}
        if set(defs) != set(used):
            raise Violation(f'{when}:netlist-definitions', f'{file}: {sorted(defs)}, expected {sorted(used)}\n{t}')
        for name, (f, c) in used.items():
            ports = [re.search(r'"(.*)"', p.head)[1] for p in c.sym.all('pin')]
            if defs[name][0] != ports:
                raise Violation(f'{when}:netlist-ports', f'{name}: {defs[name][0]}, expected {ports}')
            check(defs[name][1], f)

    if not lines[0].startswith('*') or lines[-1].lower() != '.end':
        raise Violation(f'{when}:netlist-frame', t)
    check(lines[1:-1], sh.top)


EXPECTED = (ComponentNotFoundError, ParameterNotFoundError, ValueError, RuntimeError)


def run_ops(base, ops, between=None, log=None):
    doc = Doc(BASES.get(base, base))
    if log is not None:
        doc.log = log
    e = load(doc.base)
    for op in ops:
        op = tuple(op)
        want = doc.apply(op)
        try:
            answer = apply_real(e, op)
            got = None
        except EXPECTED as ex:
            got = type(ex)
        if got is not want:
            raise Violation('error', f'{op}: raised {got}, expected {want}')
        if got is None and op[0] in instr.OPS and answer is not doc.answer:
            raise Violation('answer', f'{op}: answer {answer!r}, expected {doc.answer!r}')
        if between:
            between(e, doc)
    return e, doc
