"""LTspice schematics: an independent reader of .asc files, a reference document with edits, and the real AscEditor."""
import copy
import io
import os
import re

from . import instr, spice
from .core import Violation, scratch
from .netedit import squeeze, plain, text, check_kinds
from spicelib import AscEditor
from spicelib.editor.asc_editor import AscComponent
from spicelib.editor.base_schematic import ERotation, Point
from spicelib.editor.editor_errors import ComponentNotFoundError, ParameterNotFoundError
from spicelib.editor.updates import UpdateType as U

ASY = {
    'res': ('CELL', 'R'), 'cap': ('CELL', 'C'), 'voltage': ('CELL', 'V'), 'nmos': ('CELL', 'MN'), 'my sym': ('CELL', 'R'), 'res2': ('CELL', 'R'),
}
ROT = {'R0': ERotation.R0, 'R90': ERotation.R90, 'R180': ERotation.R180, 'R270': ERotation.R270,
       'M0': ERotation.M0, 'M90': ERotation.M90, 'M180': ERotation.M180, 'M270': ERotation.M270}
ENCODING, Editor = 'utf-8', AscEditor
INV = {v: k for k, v in ROT.items()}
LT = ('Value', 'Value2', 'SpiceModel', 'SpiceLine', 'SpiceLine2')
LINES = ('SpiceLine', 'SpiceLine2')

BASES = {
    # component values, attributes and parameters in every place they can be
    'elements': """Version 4
SHEET 1 880 680
WIRE 208 80 128 80
WIRE -288 80 208 80
FLAG 128 368 0
FLAG 208 80 in
IOPIN 208 80 In
SYMBOL voltage 128 176 R0
WINDOW 123 24 124 Left 2
WINDOW 39 0 0 VTop 0
SYMATTR InstName V1
SYMATTR Value SINE(0 1 1k)
SYMATTR Value2 AC 1
SYMATTR SpiceLine Rser=3 Cpar=4
SYMBOL res 272 112 R90
WINDOW 0 0 56 VBottom 2
WINDOW 3 32 56 VTop 2
SYMATTR InstName R1
SYMATTR Value 10k
SYMATTR SpiceLine tol=1% pwr=0.1
SYMBOL res 272 224 M180
SYMATTR InstName R10
SYMATTR Value {res}
SYMATTR SpiceLine noiseless temp=25 tc1 = 5
SYMATTR Manufacturer Some Maker
SYMBOL cap 300 224 R270
SYMATTR InstName C1
SYMATTR SpiceLine Rser=1
SYMATTR SpiceLine2 V=5 Irms={i}
SYMBOL nmos -16 224 M0
SYMATTR InstName M1
SYMATTR Value BSS145
SYMATTR Prefix MN
TEXT 56 488 Left 2 !.tran 1m
TEXT 56 440 Left 2 !.param res=10k
TEXT 120 400 VRight 3 ;a comment
LINE Normal 612 68 840 324
RECTANGLE Normal 592 52 860 348 2
CIRCLE Normal 720 96 656 300 4
ARC Normal 648 76 832 212 712 296 612 164 3
""",
    # circuit parameters: alone, several in one directive, several lines, after another statement, in comments
    'params': """Version 4
SHEET 1 880 680
WIRE 0 0 64 0
FLAG 0 0 0
SYMBOL res 16 -16 R0
SYMATTR InstName R1
SYMATTR Value {x}
TEXT 0 400 Left 2 !.param x=1k xx=2k
TEXT 0 420 Left 2 !.tran 1m\\n.PARAM y={x*2} ; first\\n+ yy=3 my_x 7\\n.save V(in)
TEXT 0 440 Left 2 ;.param x=9\\n.param gone=1
TEXT 0 460 Left 2 !.params a=1\\n* .param b=5\\n.param c=3
TEXT 0 480 Left 2 !.op
""",
    'empty': """Version 4.1
SHEET 1 -100 200
""",
}


# two blocks of one schematic, one of them with a reference that starts with another letter; a block in it that is also used at the top;
# components with a sub-circuit of a library, and one without any
SHEETS = {
    'top.asc': """Version 4
SHEET 1 880 680
WIRE 0 0 16 0
FLAG 0 0 0
SYMBOL res 16 0 R0
SYMATTR InstName R1
SYMATTR Value 1k
SYMBOL blk 0 0 R0
SYMATTR InstName X1
SYMATTR SpiceLine q=2
SYMBOL blk 96 0 M0
SYMATTR InstName U2
SYMBOL inner 192 0 R0
SYMATTR InstName X3
SYMBOL opa 288 0 R0
SYMATTR InstName U4
SYMATTR Value OPA
SYMBOL opa 288 96 R0
SYMATTR InstName XU5
SYMBOL nolib 288 192 R0
SYMATTR InstName X6
SYMATTR Value something
TEXT 0 100 Left 2 !.op
TEXT 0 116 Left 2 !.param g=1
""",
    'blk.asc': """Version 4
SHEET 1 500 680
WIRE 0 0 16 0
FLAG 0 0 A
IOPIN 0 0 In
SYMBOL res 16 0 R90
WINDOW 0 0 56 VBottom 2
SYMATTR InstName R1
SYMATTR Value 10
SYMATTR SpiceLine tol=1%
SYMBOL cap 16 96 R0
SYMATTR InstName C1
SYMATTR Value 1u
SYMBOL inner 192 0 R0
SYMATTR InstName X1
SYMBOL inner 192 96 R0
SYMATTR InstName U1
TEXT 0 100 Left 2 !.param q=1
LINE Normal 1 2 3 4
""",
    'inner.asc': """Version 4
SHEET 1 600 680
FLAG 0 0 A
IOPIN 0 0 BiDir
SYMBOL res 16 0 R0
SYMATTR InstName R1
SYMATTR Value 100
SYMBOL voltage 16 96 R0
SYMATTR InstName V1
SYMATTR Value SINE(0 1 1k)
SYMATTR Value2 AC 1
TEXT 0 100 Left 2 ;nothing
""",
}
PIN = 'PIN 0 0 NONE 0\nPINATTR PinName A\nPINATTR SpiceOrder 1\n'
SYMBOLS = {f'{n}.asy': f'Version 4\nSymbolType {t}\nRECTANGLE Normal 16 16 -16 -16\n{a}{PIN}' for n, t, a in (
    ('blk', 'BLOCK', ''), ('inner', 'BLOCK', 'SYMATTR Prefix X\n'), ('opa', 'CELL', 'SYMATTR Prefix X\nSYMATTR Value OPA\nSYMATTR ModelFile opa.lib\n'),
    ('nolib', 'CELL', 'SYMATTR Prefix X\n'), ('res', 'CELL', 'SYMATTR Prefix R\n'), ('res2', 'CELL', 'SYMATTR Prefix R\n'), ('cap', 'CELL', 'SYMATTR Prefix C\n'), ('voltage', 'CELL', 'SYMATTR Prefix V\n'))}
SYMBOLS['opa.lib'] = '* library\n.subckt OPA a\nR1 a 0 7\n.ends\n'


def block(doc, ref):
    s = doc.sym(ref).sym
    return ('lib', ('R1',)) if s == 'opa' else s + '.asc' if s in ('blk', 'inner') else None


class Sym:
    def __init__(self, sym, x, y, rot):
        self.sym, self.x, self.y, self.rot = sym, x, y, rot
        self.windows, self.attrs, self.ref = [], {}, None
        self.added = False

    def key(self):
        return [self.ref, self.sym, self.x, self.y, self.rot, sorted(self.windows), sorted(self.attrs.items())]


class Doc:
    """Content of an .asc file. `bag` holds what has no further structure, per kind and in order."""

    def __init__(self, txt):
        self.base = txt
        self.head, self.syms, self.texts, self.flags = [], [], [], []
        self.bag = {}
        self.log = {}
        for line in txt.split('\n'):
            line = line.rstrip('\r')
            if not line.strip():
                continue
            tag, _, rest = line.partition(' ')
            if tag in ('Version', 'SHEET'):
                self.head.append((tag, rest.strip()))
            elif tag == 'SYMBOL':
                *sym, x, y, rot = rest.split()
                self.syms.append(Sym(' '.join(sym), int(x), int(y), rot))
            elif tag == 'WINDOW':
                self.syms[-1].windows.append(tuple(rest.split()))
            elif tag == 'SYMATTR':
                k, _, v = rest.partition(' ')
                if k == 'InstName':
                    self.syms[-1].ref = v.strip()
                else:
                    self.syms[-1].attrs[k] = v.strip()
            elif tag == 'TEXT':
                m = re.match(r'(-?\d+) (-?\d+) (\w+) (\d+) ([!;])(.*)$', rest)
                self.texts.append([(int(m[1]), int(m[2]), m[3], int(m[4])), m[5], m[6].strip()])
            elif tag == 'FLAG':
                x, y, n = rest.split(' ', 2)
                self.flags.append([int(x), int(y), n.strip(), None])
            elif tag == 'IOPIN':
                x, y, d = rest.split()
                if self.flags[-1][:2] != [int(x), int(y)]:
                    raise Violation('format', f'IOPIN without its FLAG: {line!r}')
                self.flags[-1][3] = d
            else:
                self.bag.setdefault(tag, []).append(rest.split())

    def canon(self):
        return ([s.key() for s in self.syms], self.texts, sorted((k, str(v[0]), text(v[1])) for k, v in self.log.items()))

    def sym(self, ref):
        return next((s for s in self.syms if s.ref == ref), None)

    # --- directives
    def lines(self):
        """(text index, lines of the directive) of the active directives."""
        for i, (_, typ, txt) in enumerate(self.texts):
            if typ == '!':
                yield i, txt.split('\\n')

    def stmts(self, i):
        return spice.read(self.texts[i][2].replace('\\n', '\n'))

    def params(self):
        out = {}
        for i, _ in self.lines():
            for s in self.stmts(i):
                if s.kind == 'param':
                    for k, v in s.kv.items():
                        out.setdefault(k.upper(), v)
        return out

    def record(self, item, typ, value):
        self.log[item.upper()] = (typ, value)

    def instructions(self):
        def put(t, s):
            if s is None:
                self.texts[:] = [x for x in self.texts if x is not t]
            else:
                t[2] = s

        return instr.Texts(lambda: [(t, t[2]) for t in self.texts if t[1] == '!'], put, lambda s: self.texts.append([None, '!', s]), self.record)

    # --- edits; the answer is the expected exception
    def apply(self, op):
        name = op[0]
        if name in ('save', 'read'):
            return None
        if name in instr.OPS:
            self.answer, error = self.instructions().apply(op)
            return error
        if name in ('val', 'item', 'attr', 'pyval', 'cval', 'cpar', 'pypar', 'citem', 'model', 'pos', 'cattr', 'del'):
            s = self.sym(op[1])
            if s is None:
                return ComponentNotFoundError
        if name in ('val', 'item', 'attr', 'pyval', 'cval'):
            if 'Value' not in s.attrs:
                return ComponentNotFoundError
            s.attrs['Value'] = text(op[2])
            self.record(op[1], U.UpdateComponentValue, op[2])
        elif name in ('cpar', 'pypar', 'citem'):
            for k, v in op[2].items():
                if k in ('value', 'Value'):
                    self.record(f'{op[1]}:Value', U.UpdateComponentParameter if 'Value' in s.attrs else U.AddComponentParameter, v)
                    s.attrs['Value'] = text(v)
                elif k in LT:
                    if v is None:
                        if k in s.attrs:
                            del s.attrs[k]
                            self.record(f'{op[1]}:{k}', U.DeleteComponentParameter, None)
                    else:
                        self.record(f'{op[1]}:{k}', U.UpdateComponentParameter if k in s.attrs else U.AddComponentParameter, v)
                        s.attrs[k] = text(v)
                else:
                    for l in LINES:
                        tk = line_tokens(s.attrs.get(l, ''))
                        if any(t[0] == k and t[1] is not None for t in tk):
                            tk = [t if t[0] != k else (k, text(v)) for t in tk if t[0] != k or v is not None]
                            self.record(f'{op[1]}:{k}', U.DeleteComponentParameter if v is None else U.UpdateComponentParameter, v)
                            break
                    else:
                        if v is None:
                            continue
                        l = 'SpiceLine'
                        tk = line_tokens(s.attrs.get(l, '')) + [(k, text(v))]
                        self.record(f'{op[1]}:{k}', U.AddComponentParameter, v)
                    s.attrs[l] = ' '.join(t[0] if t[1] is None else f'{t[0]}={t[1]}' for t in tk)
                    if not tk:
                        del s.attrs[l]
        elif name == 'model':
            s.sym = op[2]
            self.record(op[1], U.UpdateComponentValue, op[2])
        elif name == 'pos':
            s.x, s.y, s.rot = op[2:5]
        elif name == 'cattr':
            s.attrs[op[2]] = op[3]
            self.record(f'{op[1]}:{op[2]}', None, op[3])
        elif name == 'del':
            self.syms.remove(s)
            self.record(op[1], U.DeleteComponent, None)
        elif name == 'add':
            if self.sym(op[1]) is not None:
                return ValueError
            n = Sym(*op[2])
            n.ref, n.attrs, n.added = op[1], dict(op[3]), True
            self.syms.append(n)
            self.record(op[1], U.AddComponent, None)
        elif name == 'par':
            self.set_param(op[1], op[2])
        else:
            raise KeyError(name)
        return None

    def set_param(self, p, v):
        for i, _ in self.lines():
            st = self.stmts(i)
            for s in st:
                k = next((k for k in s.kv if k.upper() == p.upper()), None) if s.kind == 'param' else None
                if k is None:
                    continue
                if v is None:
                    del s.kv[k]
                    self.record(p, U.DeleteParameter, None)
                else:
                    s.kv[k] = text(v)
                    self.record(p, U.UpdateParameter, v)
                st = [x for x in st if x.kind != 'param' or x.kv]
                self.texts[i][2] = '\\n'.join(write_stmt(x) for x in st)
                if not st:
                    del self.texts[i]
                return
        if v is not None:
            self.texts.append([None, '!', f'.param {p}={text(v)}'])
            self.record(p, U.AddParameter, v)


def write_stmt(s):
    if s.kind == 'comment':
        return s.comment
    return ' '.join(s.pos + [f'{k}={v}' for k, v in s.kv.items()]) + (' ; ' + s.comment if s.comment else '')


def line_tokens(line):
    """SpiceLine as [(name, value or None)]."""
    out = []
    for t in spice.tokens(line):
        k, eq, v = t.partition('=')
        out.append((k, v) if eq else (t, None))
    return out


def same_attr(k, a, b):
    if k in LINES:
        ta, tb = line_tokens(a), line_tokens(b)
        return len(ta) == len(tb) and all(x[0] == y[0] and (x[1] is None) == (y[1] is None)
                                          and (x[1] is None or spice.same_value(squeeze(x[1]), squeeze(y[1])))
                                          for x, y in zip(ta, tb))
    return spice.same_value(' '.join(a.split()), ' '.join(b.split()))


def same_words(a, b):
    ta, tb = a.split(), b.split()
    return spice.same_value(' '.join(ta), ' '.join(tb)) or len(ta) == len(tb) and all(spice.same_value(x, y) for x, y in zip(ta, tb))


def same_directive(a, b):
    sa, sb = (spice.read(x.replace('\\n', '\n')) for x in (a, b))
    return len(sa) == len(sb) and all(spice.same_stmt(x, y) == '' for x, y in zip(sa, sb))


def same_text(a, b):
    """a from a file, b expected (its place may be free)."""
    if a[1] != b[1] or b[0] is not None and a[0] != b[0]:
        return False
    return a[2] == b[2] if a[1] == ';' else same_directive(a[2], b[2])


# --- the real editor
def setup_dir():
    d = scratch()
    for name, (typ, prefix) in ASY.items():
        p = os.path.join(d, name + '.asy')
        if not os.path.exists(p):
            with open(p, 'w') as f:
                f.write(f'Version 4\nSymbolType {typ}\nLINE Normal 0 0 0 16\nSYMATTR Prefix {prefix}\nSYMATTR Value {prefix}\n'
                        'PIN 0 0 NONE 0\nPINATTR PinName A\nPINATTR SpiceOrder 1\nPIN 0 16 NONE 0\nPINATTR PinName B\nPINATTR SpiceOrder 2\n')
    return d


def load(txt, name='n.asc', encoding='utf-8'):
    p = os.path.join(setup_dir(), name)
    with open(p, 'w', newline='', encoding=encoding) as f:
        f.write(txt)
    getattr(AscEditor, 'symbol_cache', {}).clear()
    return AscEditor(p)


def save(e):
    s = io.StringIO()
    e.save_netlist(s)
    return s.getvalue()


def apply_real(e, op):
    name = op[0]
    if name == 'val':
        e.set_component_value(op[1], op[2])
    elif name == 'item':
        e[op[1]] = op[2]
    elif name == 'attr':
        e[op[1]].value = op[2]
    elif name == 'pyval':
        e.set_component_values(**{op[1]: op[2]})
    elif name == 'cpar':
        e.set_component_parameters(op[1], **op[2])
    elif name == 'pypar':
        e[op[1]].set_params(**op[2])
    elif name == 'cval':
        e[op[1]]['value'] = op[2]
    elif name == 'citem':
        for k, v in op[2].items():
            e[op[1]][k] = v
    elif name == 'model':
        e.set_element_model(op[1], op[2])
    elif name == 'pos':
        p = Point(op[2], op[3])
        e.set_component_position(op[1], p, ROT[op[4]])
        p.X = p.Y = -31337   # it belongs to the caller
    elif name == 'cattr':
        e.set_component_attribute(op[1], op[2], op[3])
    elif name == 'par':
        e.set_parameter(op[1], op[2])
    elif name == 'add':
        c = AscComponent(e, '')
        c.reference, c.symbol = op[1], op[2][0]
        c.position, c.rotation = Point(op[2][1], op[2][2]), ROT[op[2][3]]
        e.add_component(c, **op[3])
    elif name == 'del':
        e.remove_component(op[1])
    elif name == 'save':
        save(e)
    elif name == 'read':
        observe(e)
    elif name in instr.OPS:
        return instr.apply_real(e, op)
    else:
        raise KeyError(name)


def observe(e):
    out = {}
    for ref in e.get_components():
        par = e.get_component_parameters(ref)
        p = dict(par)
        par['changed'] = '1'   # the answers belong to the caller
        pos, rot = e.get_component_position(ref)
        try:
            val = e.get_component_value(ref)
        except ComponentNotFoundError:
            val = None
        out[ref] = (val, p, pos.X, pos.Y, INV[rot])
        pos.X += 1000
    return out, {n: plain(e.get_parameter(n)) for n in e.get_all_parameter_names()}


def check_getters(e, doc, when):
    got, pars = observe(e)
    if list(got) != [s.ref for s in doc.syms]:
        raise Violation(f'{when}:components', f'{list(got)}, expected {[s.ref for s in doc.syms]}')
    check_kinds(e, list(got), {r: v[0] for r, v in got.items()}, when)
    for s in doc.syms:
        val, par, x, y, rot = got[s.ref]
        want = ' '.join(s.attrs[k] for k in ('Value', 'Value2') if k in s.attrs)
        if val is None and want or val is not None and not same_words(val, want):
            raise Violation(f'{when}:value', f'{s.ref}: {val!r}, expected {want!r}')
        if (x, y, rot) != (s.x, s.y, s.rot):
            raise Violation(f'{when}:position', f'{s.ref}: {(x, y, rot)}, expected {(s.x, s.y, s.rot)}')
        wp = {k: v for k, v in s.attrs.items() if k in LT}
        for l in LINES:
            wp.update({k: v for k, v in line_tokens(s.attrs.get(l, '')) if v is not None})
        if set(par) != set(wp):
            raise Violation(f'{when}:parameter-names', f'{s.ref}: {par}, expected {wp}')
        for k in wp:
            if not same_attr(k, plain(par[k]), wp[k]) and not spice.same_value(squeeze(par[k]), squeeze(wp[k])):
                raise Violation(f'{when}:parameter-value', f'{s.ref}:{k} = {par[k]!r}, expected {wp[k]!r}')
        for k, v in s.attrs.items():
            a = e.get_component_attribute(s.ref, k)
            if not same_attr(k, str(a), v):
                raise Violation(f'{when}:attribute', f'{s.ref} {k} = {a!r}, expected {v!r}')
        try:
            a = e.get_component_attribute(s.ref, 'Nothing')
        except KeyError:
            a = None
        if a is not None and 'Nothing' not in s.attrs:
            raise Violation(f'{when}:ghost-attribute', f'{s.ref}: {a!r}')
    wp = doc.params()
    if sorted(pars) != sorted(wp):
        raise Violation(f'{when}:circuit-parameter-names', f'{pars}, expected {wp}')
    for k in wp:
        for n in (k, k.lower()):
            v = plain(e.get_parameter(n))
            if not spice.same_value(squeeze(v), squeeze(wp[k])):
                raise Violation(f'{when}:circuit-parameter', f'{n} = {v!r}, expected {wp[k]!r}')
    for n in ('gone', 'b', 'nope', 'x'):
        if n.upper() not in wp:
            try:
                v = e.get_parameter(n)
            except ParameterNotFoundError:
                continue
            raise Violation(f'{when}:ghost-parameter', f'{n} = {v!r}')
    for r in ('R1', 'R99', 'r10'):
        if doc.sym(r) is None:
            try:
                v = e.get_component_value(r)
            except ComponentNotFoundError:
                continue
            raise Violation(f'{when}:ghost-component', f'{r} = {v!r}')


def check_text(txt, doc, when):
    g = Doc(txt)
    if g.head != doc.head:
        raise Violation(f'{when}:header', f'{g.head}, expected {doc.head}')
    if g.flags != doc.flags:
        raise Violation(f'{when}:labels', f'{g.flags}, expected {doc.flags}')
    if g.bag != doc.bag:
        k = next(k for k in set(g.bag) | set(doc.bag) if g.bag.get(k) != doc.bag.get(k))
        raise Violation(f'{when}:{k}', f'{g.bag.get(k)}, expected {doc.bag.get(k)}')
    gs, ws = ({s.ref: s for s in d.syms} for d in (g, doc))
    if [s.ref for s in g.syms] != [s.ref for s in doc.syms]:
        raise Violation(f'{when}:symbols', f'{[s.ref for s in g.syms]}, expected {[s.ref for s in doc.syms]}')
    for r, w in ws.items():
        s = gs[r]
        if (s.sym, s.x, s.y, s.rot) != (w.sym, w.x, w.y, w.rot):
            raise Violation(f'{when}:symbol', f'{r}: {(s.sym, s.x, s.y, s.rot)}, expected {(w.sym, w.x, w.y, w.rot)}')
        if sorted(s.windows) != sorted(w.windows):
            raise Violation(f'{when}:windows', f'{r}: {s.windows}, expected {w.windows}')
        if set(s.attrs) != set(w.attrs):
            raise Violation(f'{when}:attributes', f'{r}: {s.attrs}, expected {w.attrs}')
        for k in w.attrs:
            if not same_attr(k, s.attrs[k], w.attrs[k]):
                raise Violation(f'{when}:attribute-value', f'{r} {k}: {s.attrs[k]!r}, expected {w.attrs[k]!r}')
    if len(g.texts) != len(doc.texts) or not all(same_text(a, b) for a, b in zip(g.texts, doc.texts)):
        raise Violation(f'{when}:texts', f'{g.texts}, expected {doc.texts}')


EXPECTED = (ComponentNotFoundError, ParameterNotFoundError, ValueError, RuntimeError)


def run_ops(base, ops, between=None, log=None):
    doc = Doc(BASES.get(base, base))
    if log is not None:
        doc.log = log
    e = load(doc.base)
    for op in ops:
        op = tuple(op)
        want = doc.apply(op)
        try:
            answer = apply_real(e, op)
            got = None
        except EXPECTED as ex:
            got = type(ex)
        if got is not want:
            raise Violation('error', f'{op}: raised {got}, expected {want}')
        if got is None and op[0] in instr.OPS and answer is not doc.answer:
            raise Violation('answer', f'{op}: answer {answer!r}, expected {doc.answer!r}')
        if between:
            between(e, doc)
    return e, doc
