"""Edit sequences on a SPICE netlist: the real SpiceEditor side by side with a reference document (mc.spice)."""
import copy
import io
import os
import re

from . import instr, spice
from .core import Violation, scratch
from spicelib import SpiceEditor
from spicelib.editor.spice_components import SpiceComponent
from spicelib.editor.editor_errors import ComponentNotFoundError, ParameterNotFoundError
from spicelib.editor.updates import UpdateType as U

BASES = {
    # circuit parameters: several per line, names that are prefixes of other names, expressions, comments
    'params': """* parameters
V1 in 0 {x}
R1 in 0 {R}
.param R=1k RR=1k R2={R*2} ; R=1k
.param x=5
.param xx = 6
.PARAM my_x 7
.param e={x+1} s="two words"
.tran 1m ; x=9
.backanno
.end
""",
    # element parameters: several per element, prefixes of each other, lists, flags, value=, formulas
    'elements': """* elements
V1 in 0 SINE(0 1 1k) AC 1 Rser=3 Cpar=4
R1 in out 1k
R10 out 0 2k temp=5 tc=1,2
R2 a b {R*2} temp={t} ; comment R1 temp=9
R3 b 0 R=4.7k noiseless
C1 out 0 1u Rser=1 Rs=2 Lser={L}
D1 a 0 DMOD 2 off temp=3
M1 d g 0 0 NMOS L=1u W=2u
B1 o 0 V=V(a)*2 tripdv=1
.tran 1m
.end
""",
    # continuation lines, tabs, lower case, windows line ends in between
    'layout': """* layout
r1 in out
+ 1k
R2 in\tout  2k\ttemp=5
C1 out 0
+ 1u ; first
+ Rser=1   Lser=2
V1 in 0 PULSE(0 1
+ 0 1n 1n)
+ Rser=1
  L1 a b 1m Rser = 2
.param
+ p=1
+ q=2
.param z=3
.end
* after the end

""",
    # nothing but a title and an end; nothing between
    'short': """* short
R1 a b 1
.end
""",
    'empty': """* empty title
.END
""",
    # sub-circuit definitions between, control section, comments in the middle
    'frame': """* R1 x 0 5
.SUBCKT SUB a b
R1 a b 1
.param p=1
.ENDS SUB
X1 n 0 SUB x=1 y={p}
* R1 comment
R1 n 0 10
.param p=2
.control
R1 in control
.param p=9
.endc
.model DMOD D(Is=1n)
.meas tran res find V(n) at=1m
.op
.end
""",
}

BASES['include'] = """* include
V1 in 0 {x}
.include pars.inc
.param z=9 p=1
R1 in 0 1k
X1 in 0 SUBI g=3
.op
.inc "deep dir/more.inc" ; more
.end
"""
# included files: their parameters and definitions belong to the circuit, the saved netlist has their contents in place
FILES = {
    'pars.inc': '* pars\n.param w=1 v=2\n* R1 a b 3\n.param\n+ x=3\n.param xx = 6\n.SUBCKT SUBI a b params: g=1\nR1 a b {g}\n.param y=4\n.ENDS SUBI\n.model DM D(Is=1n)\n',
    'deep dir/more.inc': '.param m=4 mm=5\n.include last.inc\n.param n={m*2}',
    'deep dir/last.inc': '* last\n.param last={z+1}\n',
}
INCLUDE = re.compile(r'\.inc(?:lude)?\s+"?([^"\n;]*?)"?\s*(?:;.*)?$', re.IGNORECASE)


def expanded(text_, folder=''):
    out = []
    for line in text_.splitlines(keepends=True):
        m = INCLUDE.match(line)
        name = m and os.path.join(folder, m.group(1))
        if m and name in FILES:
            t = expanded(FILES[name], os.path.dirname(name))
            out.append(t if t.endswith('\n') else t + '\n')
        else:
            out.append(line)
    return ''.join(out)


VALUE_KEY = {'R': 'R', 'C': 'C', 'L': 'L'}
FLAGS = ('noiseless',)


def nnodes(st):
    p = st.pos[0][0]
    if p == 'M':
        return 4
    if p in 'QX':
        return len(st.pos) - 2
    return spice.NODES.get(p, 2)


def slot(st):
    """Where the value of an element is: ('kv', key) or ('pos', i, j)."""
    p = st.pos[0][0]
    for k in st.kv:
        if p in VALUE_KEY and k.upper() == VALUE_KEY[p] or p == 'B' and k.upper() in ('V', 'I'):
            return 'kv', k
    i = 1 + nnodes(st)
    return ('pos', i, len(st.pos)) if p in 'VIX' else ('pos', i, i + 1)


def get_value(st):
    s = slot(st)
    if s[0] == 'kv':
        return f'{s[1]}={st.kv[s[1]]}' if st.pos[0][0] == 'B' else st.kv[s[1]]
    return ' '.join(st.pos[s[1]:s[2]])


def set_value(st, v):
    s = slot(st)
    v = text(v)
    if s[0] == 'kv':
        if st.pos[0][0] == 'B':
            del st.kv[s[1]]
            k, v = v.split('=', 1)
            st.kv = {k.strip(): v.strip(), **st.kv}
        else:
            st.kv[s[1]] = v
    else:
        st.pos[s[1]:s[2]] = spice.tokens(v)


def get_params(st):
    s = slot(st)
    return {k: v for k, v in st.kv.items() if s != ('kv', k)}


def text(v):
    return v if isinstance(v, str) else repr(v)


class Doc:
    def __init__(self, base):
        self.source = base
        self.base = base = expanded(base)
        self.stmts = []
        self.sub = []     # statements inside definitions and control sections: frame
        depth = 0
        for st in spice.read(base):
            st.added = False
            if st.kind == 'other' and st.pos[0] in ('.subckt', '.control'):
                depth += 1
            st.inner = depth > 0
            if st.kind == 'other' and st.pos[0] in ('.ends', '.endc'):
                depth -= 1
            if st.inner and st.kind != 'other':
                st.kind = 'frame'
            self.stmts.append(st)
        self.log = {}      # item (upper case) -> (type, value)

    def canon(self):
        return [s.key() for s in self.stmts], sorted((k, v[0].name, text(v[1])) for k, v in self.log.items())

    # --- lookup
    def elem(self, ref):
        for s in self.stmts:
            if s.kind == 'elem' and s.pos[0] == ref.upper():
                return s
        return None

    def elems(self):
        return [s for s in self.stmts if s.kind == 'elem']

    def param(self, name):
        for s in self.stmts:
            if s.kind == 'param':
                for k in s.kv:
                    if k.upper() == name.upper():
                        return s, k
        return None, None

    def param_names(self):
        return sorted(k.upper() for s in self.stmts if s.kind == 'param' for k in s.kv)

    def record(self, item, typ, value):
        self.log[item.upper()] = (typ, value)

    def add(self, line):
        s = spice.Stmt(line, '')
        s.added = True
        s.inner = False
        self.stmts.append(s)

    def instructions(self):
        return instr.Lines(self)

    # --- operations; the answer is the expected exception type or None
    def apply(self, op):
        name = op[0]
        if name in ('save', 'read'):
            return None
        if name in instr.OPS:
            self.answer, error = self.instructions().apply(op)
            return error
        if name in ('val', 'model', 'item', 'attr', 'pyval', 'cval'):
            st = self.elem(op[1])
            if st is None:
                return ComponentNotFoundError
            set_value(st, op[2])
            self.record(op[1], U.UpdateComponentValue, op[2])
        elif name in ('cpar', 'pypar', 'citem', 'clear'):
            st = self.elem(op[1])
            if st is None:
                return ComponentNotFoundError
            new = dict.fromkeys([*get_params(st), *(k for k in st.pos if k in FLAGS)]) if name == 'clear' else op[2]
            for k, v in new.items():
                if k in ('value', 'Value'):
                    set_value(st, v)
                    self.record(op[1], U.UpdateComponentValue, v)
                    continue
                present = k in st.kv or k in FLAGS and k in st.pos
                if v is None:
                    if present:
                        if k in FLAGS:
                            st.pos.remove(k)
                        else:
                            del st.kv[k]
                        self.record(f'{op[1]}:{k}', U.DeleteComponentParameter, None)
                else:
                    if k not in FLAGS:
                        st.kv[k] = text(v)
                    elif not present:
                        st.pos.append(k)
                    self.record(f'{op[1]}:{k}', U.UpdateComponentParameter if present else U.AddComponentParameter, v)
        elif name == 'par':
            st, k = self.param(op[1])
            if op[2] is None:
                if st is not None:
                    del st.kv[k]
                    if not st.kv:
                        self.stmts.remove(st)
                    self.record(op[1], U.DeleteParameter, None)
            elif st is None:
                self.add(f'.param {op[1]}={text(op[2])}')
                self.record(op[1], U.AddParameter, op[2])
            else:
                st.kv[k] = text(op[2])
                self.record(op[1], U.UpdateParameter, op[2])
        elif name in ('add', 'clone'):
            for other in (op[3].values() if len(op) > 3 else ()):
                if self.elem(other) is None:
                    return ComponentNotFoundError
            old = self.elem(op[1])
            if name == 'clone':
                src = self.elem(op[2])
                if src is None:
                    return ComponentNotFoundError
                op = (name, op[1], ' '.join([op[1]] + src.pos[1:] + [f'{k}={v}' for k, v in src.kv.items()]))
            if old is not None:
                self.stmts.remove(old)
            self.add(op[2])
            self.record(op[1], U.AddComponent, get_value(self.stmts[-1]))
        elif name == 'del':
            st = self.elem(op[1])
            if st is None:
                return ComponentNotFoundError
            self.stmts.remove(st)
            self.record(op[1], U.DeleteComponent, 'delete')
        else:
            raise KeyError(name)
        return None


def apply_real(e, op):
    name = op[0]
    if name == 'val':
        e.set_component_value(op[1], op[2])
    elif name == 'model':
        e.set_element_model(op[1], op[2])
    elif name == 'item':
        e[op[1]] = op[2]
    elif name == 'attr':
        e[op[1]].value = op[2]
    elif name == 'pyval':
        e.set_component_values(**{op[1]: op[2]})
    elif name == 'cpar':
        e.set_component_parameters(op[1], **op[2])
    elif name == 'pypar':
        e[op[1]].set_params(**op[2])
    elif name == 'cval':
        e[op[1]]['value'] = op[2]
    elif name == 'citem':
        for k, v in op[2].items():
            e[op[1]][k] = v
    elif name == 'clear':
        e[op[1]].clear_parameters()
    elif name == 'par':
        e.set_parameter(op[1], op[2])
    elif name == 'add':
        # the documented way: a component object
        if len(op) > 3:
            e.add_component(SpiceComponent(netlist=e, obj=op[2] + '\n'), **op[3])
        else:
            st = spice.Stmt(op[2], '')
            n = nnodes(st)
            c = SpiceComponent(netlist=e)
            c.reference = op[1]
            c.ports = st.pos[1:1 + n]
            c._attributes['value'] = get_value(st)
            if get_params(st):
                c._attributes['params'] = dict(get_params(st))
            e.add_component(c)
    elif name == 'clone':
        c = e[op[2]].clone()
        c.reference = op[1]
        e.add_component(c)
    elif name == 'del':
        e.remove_component(op[1])
    elif name == 'save':
        save(e)
    elif name == 'read':
        observe(e)
    elif name in instr.OPS:
        return instr.apply_real(e, op)
    else:
        raise KeyError(name)


def load(text_, name='n.net'):
    p = os.path.join(scratch(), name)
    with open(p, 'w', newline='') as f:
        f.write(text_)
    if expanded(text_) != text_:
        for n, t in FILES.items():
            q = os.path.join(scratch(), n)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'w', newline='') as f:
                f.write(t)
    return SpiceEditor(p, encoding='utf-8')


def save(e):
    s = io.StringIO()
    e.save_netlist(s)
    return s.getvalue()


def plain(v):
    if isinstance(v, list):
        return ','.join(plain(x) for x in v)
    return str(v)


def observe(e):
    """All the getters of an editor."""
    out = {}
    for ref in e.get_components():
        par, nodes = e.get_component_parameters(ref), e.get_component_nodes(ref)
        p = {k: plain(v) for k, v in par.items() if k != 'Value'}
        out[ref] = (list(nodes), ' '.join(str(e.get_component_value(ref)).split()), p)
        par['changed'] = '1'   # the answers belong to the caller
        nodes.append('changed')
    pars = {n: plain(e.get_parameter(n)) for n in e.get_all_parameter_names()}
    return out, pars


def check_getters(e, doc, when):
    got, pars = observe(e)
    refs = e.get_components()
    exp = doc.elems()
    if sorted(refs) != sorted(s.pos[0] for s in exp):
        raise Violation(f'{when}:components', f'components {refs}, expected {[s.pos[0] for s in exp]}')
    orig = [s.pos[0] for s in exp if not s.added]
    if [r for r in refs if r in orig] != orig:
        raise Violation(f'{when}:component-order', f'components {refs}, expected order {orig}')
    for st in exp:
        ref = st.pos[0]
        nodes, val, par = got[ref]
        n = nnodes(st)
        if nodes != st.pos[1:1 + n]:
            raise Violation(f'{when}:nodes', f'{ref}: nodes {nodes}, expected {st.pos[1:1 + n]}')
        want = get_value(st)
        if not spice.same_value(squeeze(val), squeeze(want)):
            raise Violation(f'{when}:value', f'{ref}: value {val!r}, expected {want!r}')
        wp = dict(get_params(st))
        flags = {k: v for k, v in par.items() if k in FLAGS}
        par = {k: v for k, v in par.items() if k not in FLAGS}
        if flags != {k: 'True' for k in st.pos if k in FLAGS}:
            raise Violation(f'{when}:flags', f'{ref}: {flags}, the statement is {st.pos}')
        if set(par) != set(wp):
            raise Violation(f'{when}:parameter-names', f'{ref}: parameters {par}, expected {wp}')
        for k in wp:
            if not spice.same_value(squeeze(par[k]), squeeze(wp[k])):
                raise Violation(f'{when}:parameter-value', f'{ref}:{k} = {par[k]!r}, expected {wp[k]!r}')
    check_views(e, doc, refs, got, when)
    if sorted(pars) != doc.param_names():
        raise Violation(f'{when}:circuit-parameter-names', f'{sorted(pars)}, expected {doc.param_names()}')
    for n, v in pars.items():
        st, k = doc.param(n)
        if not spice.same_value(squeeze(v), squeeze(st.kv[k])):
            raise Violation(f'{when}:circuit-parameter', f'{n} = {v!r}, expected {st.kv[k]!r}')
        if not spice.same_value(squeeze(plain(e.get_parameter(n.lower()))), squeeze(v)):
            raise Violation(f'{when}:circuit-parameter-case', f'{n}')
    for ref in ('R1', 'R10', 'C1', 'R99'):
        if doc.elem(ref) is None:
            try:
                v = e.get_component_value(ref)
            except ComponentNotFoundError:
                if ref in e:
                    raise Violation(f'{when}:ghost-component', f'{ref} in the circuit') from None
            else:
                raise Violation(f'{when}:ghost-component', f'{ref} = {v!r}')
    for n in ('x', 'R', 'p', 'nope'):
        if doc.param(n)[0] is None:
            try:
                v = e.get_parameter(n)
            except ParameterNotFoundError:
                pass
            else:
                raise Violation(f'{when}:ghost-parameter', f'{n} = {v!r}')


def check_kinds(e, refs, values, when):
    """Components by kind, values as numbers. values: reference -> text of the value."""
    kinds = sorted({r[0] for r in refs})
    for p in kinds + [''.join(kinds[:2]), ''.join(kinds[-1:] + kinds[:1]), 'J']:
        if e.get_components(p) != [r for r in refs if r[0] in p]:
            raise Violation(f'{when}:components of a kind', f'{p}: {e.get_components(p)} of {refs}')
    for ref in refs:
        x = None if values[ref] is None else spice.num(str(values[ref]))
        if x is not None and abs(e.get_component_floatvalue(ref) - x) > 1e-9 * abs(x):
            raise Violation(f'{when}:number', f'{ref}: {e.get_component_floatvalue(ref)!r} for {values[ref]!r}')


def check_views(e, doc, refs, got, when):
    """The other ways of reading the same circuit say the same."""
    check_kinds(e, refs, {r: got[r][1] for r in refs}, when)
    every = [c.reference for c in e]
    for st in doc.elems():
        ref = st.pos[0]
        nodes, val, _ = got[ref]
        c = e[ref]
        if ref not in e or c.reference != ref or every.count(ref) < 1:
            raise Violation(f'{when}:component object', f'{ref}: {c.reference!r}, {ref in e}, {every}')
        if ' '.join(str(c.value_str).split()) != val or [p.name for p in c.ports] != nodes or e.get_component_nodes(ref.lower()) != nodes:
            raise Violation(f'{when}:component object', f'{ref}: value {c.value_str!r} ({val!r}), ports {[p.name for p in c.ports]} ({nodes})')
    nodes = e.get_all_nodes()
    want = {n for st in doc.elems() for n in got[st.pos[0]][0]}
    if len(set(nodes)) != len(nodes) or set(nodes) != want:
        raise Violation(f'{when}:all nodes', f'{nodes}, expected {sorted(want)}')


def squeeze(s):
    s = str(s)
    if spice.num(s) is not None:
        return s
    return re.sub(r'\s*([=,])\s*', r'\1', ' '.join(s.split()))


def check_text(txt, doc, when):
    """The saved text holds exactly the statements of the document, original ones in their order."""
    got = spice.read(txt)
    title = spice.statements(doc.base)[0]
    first = txt.lstrip('\n').split('\n')[0]
    if first.strip() != doc.base.split('\n')[0].strip():
        raise Violation(f'{when}:title', f'first line {first!r}, expected {doc.base.splitlines()[0]!r}')
    depth = 0
    for s in got:
        if s.kind == 'other' and s.pos[0] in ('.subckt', '.control'):
            depth += 1
        s.inner = depth > 0
        if s.kind == 'other' and s.pos[0] in ('.ends', '.endc'):
            depth -= 1
        if s.inner and s.kind != 'other':
            s.kind = 'frame'
    got = [s for s in got if not (s.kind == 'comment' and s.comment.startswith('* SpiceEditor'))]
    end = [i for i, s in enumerate(got) if s.kind == 'other' and s.pos[0] == '.end']
    if len(end) != 1:
        raise Violation(f'{when}:end', f'{len(end)} .end statements')
    pool = []
    want = [s for s in doc.stmts if not s.added]
    added = [s for s in doc.stmts if s.added]
    i = 0
    for gi, g in enumerate(got):
        if i < len(want) and spice.same_stmt(g, want[i]) == '':
            i += 1
        else:
            pool.append((gi, g))
    if i < len(want):
        w = want[i]
        near = next((g for _, g in pool if g.kind == w.kind and (g.pos[:1] == w.pos[:1])), None)
        diff = spice.same_stmt(near, w) if near else 'missing'
        raise Violation(f'{when}:statement-lost-or-changed', f'{w.key()}: {diff}\n{txt}')
    for a in added:
        for x in pool:
            g = x[1]
            keep = g.comment
            if a.kind != 'comment' and not a.comment:
                g.comment = ''
            d = spice.same_stmt(g, a)
            g.comment = keep
            if d == '' and 0 < x[0] < end[0] and g.inner == a.inner:
                pool.remove(x)
                break
        else:
            near = next((g for _, g in pool if g.kind == a.kind and g.pos[:1] == a.pos[:1]), None)
            raise Violation(f'{when}:added-statement', f'{a.key()}: {spice.same_stmt(near, a) if near else "missing"}, '
                                                       f'or placed before the title or after the end\n{txt}')
    if pool:
        raise Violation(f'{when}:extra-statement', f'{[g.key() for _, g in pool]}\n{txt}')


EXPECTED = (ComponentNotFoundError, ParameterNotFoundError, ValueError, IndexError, RuntimeError)


def run_ops(base, ops, between=None, log=None):
    """Executes ops on both sides; returns (editor, doc). `between` is called after each op."""
    doc = Doc(BASES.get(base, base))
    if log is not None:
        doc.log = log
    e = load(doc.source)
    for op in ops:
        op = tuple(op)
        want = doc.apply(op)
        try:
            answer = apply_real(e, op)
            got = None
        except EXPECTED as ex:
            got = type(ex)
        if got is not want:
            raise Violation('error', f'{op}: raised {got}, expected {want}')
        if got is None and op[0] in instr.OPS and answer is not doc.answer:
            raise Violation('answer', f'{op}: answer {answer!r}, expected {doc.answer!r}')
        if between:
            between(e, doc)
    return e, doc
