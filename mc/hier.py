"""Hierarchical netlists: an independent reader that expands every sub-circuit instance, edits on the expanded circuit, and the real SpiceEditor."""
import copy
import os
import re

from . import netedit as N
from . import spice
from .core import Violation, scratch
from spicelib import SpiceEditor
from spicelib.editor.editor_errors import ComponentNotFoundError, ParameterNotFoundError
from spicelib.editor.spice_components import SpiceComponent

LIBS = {
    'sub.lib': """* library
.SUBCKT LSUB i o
.param q=1
R1 i m {q}
X1 m o LINNER w=3
.ENDS LSUB
* something between
.subckt LINNER a b
R1 a b 1k
.ends
""",
    'part.net': """* part
.subckt PART u v
R1 u v 6
.param in_part=1
X1 u v OP.07
.ends PART
""",
    'odd.lib': """* names that start alike
.subckt OPX07 p q
R1 p q 71
.ends
.subckt OP.07A p q
R1 p q 72
.ends
.SUBCKT OP.07 p q
R1 p q 7
.ENDS OP.07
""",
    'inc.net': """* included
.subckt ISUB a b
R1 a b 2k
.param k=2
.ends ISUB
.param from_inc=1
""",
}
BASES = {
    # two instances of one definition, a definition used by another one, library, included file, lower case
    'shared': """* hier
.param g=1
R1 a 0 1k
X1 a b SUB p=2
X2 b c SUB
X3 c d LSUB
X4 d e Low
X5 e f ISUB
.lib sub.lib
.include inc.net
.SUBCKT SUB i o
.param p=1 pp=2
R1 i m {p} ; inside
C1 m 0 1u Rser=1
X1 m o INNER
.save V(m)
.ENDS SUB
.SUBCKT INNER i o params: z=3
R1 i o {z}
D1 i o DMOD
.param w=3
.model DMOD D(Is=1n)
.ends
.subckt low i o
R1 i o 5
.ends
.control
run
.endc
.tran 1m
.end
""",
    # definitions inside definitions, the same name inside and outside, the same inner definition at several places
    'local': """* local
X1 a b OUT
X2 b c OUT
X3 c 0 LOC
.SUBCKT OUT i o
.SUBCKT LOC x y
R1 x y 7
X1 x y DEEP
.SUBCKT DEEP u v
R1 u v 9
.ENDS DEEP
.ENDS LOC
X1 i m LOC
X2 m o LOC
X3 i o GLOB
R1 i o 3
.ENDS OUT
.SUBCKT LOC x y
R1 x y 8
R2 x y 8
.ENDS LOC
.SUBCKT GLOB x y
R1 x y 1
.ENDS GLOB
.op
.end
""",
    # characters of names, indentation, continuations, comments, a definition with the name of an element, files inside definitions
    'odd': """* odd
  X1 a b LM741/NS
x§2 b c lm741/ns ; second
X3 c d 555 a=1
+ b=2
XLONG d e r1
.subckt R1 a b
R1 a b 4
.ends
R1 a 0 5
  .subckt LM741/NS i
+ o ; ports
  R1 i m 1
.control
listing
.endc
.include part.net
 X§9 m o PART
.ends LM741/NS ; the end
.SUBCKT 555 p1 p2
Q1 p1 p2 0 QM
.model QM NPN
XA p1 p2 OP.07
.ENDS
.lib 'odd.lib'
.tran 1
 .end
""",
    # names that are prefixes of others, names that look like the ones made by the library, several ports
    'names': """* names
X1 a b c SUB
X10 a b c SUB
X2 a b c SUB_X1
XA1 a b c sub
.subckt SUB p1 p2 p3
R1 p1 p2 1
R2 p2 p3 2
V1 p1 p2 SINE(0 1 1k)
.ends SUB
.subckt SUB_X1 p1 p2 p3
R1 p1 p3 5
.ends SUB_X1
.end
""",
}


class Def:
    """A definition: its statements, and the definitions in it."""

    def __init__(self, head, parent):
        self.parent, self.stmts, self.defs = parent, [], {}
        self.over = {}        # definitions of elements that were edited through the definition they are in
        self.lib = False
        self.name, self.ports, self.dparams = None, [], {}
        if head is not None:
            st = spice.Stmt('X' + head.code.split(None, 1)[1], '')     # name ports params: as of an element line
            self.name, self.ports, self.dparams = head.code.split()[1], st.pos[1:], dict(st.kv)

    def copy(self, parent):
        d = Def(None, parent)
        d.stmts, d.name, d.ports, d.dparams, d.lib = list(self.stmts), self.name, self.ports, self.dparams, self.lib
        d.defs = {k: x.copy(d) for k, x in self.defs.items()}
        d.over = {k: x.copy(d if x.parent is self else x.parent) for k, x in self.over.items()}
        return d

    def resolve(self, ref):
        for k, s in self.stmts:
            if k == 'elem' and s.pos[0] == ref:
                return self.over.get(ref) or self.find(s.pos[-1])
        return None

    def params(self):
        return {k.upper(): v for kind, s in self.stmts if s.kind == 'param' for k, v in s.kv.items()}

    def elems(self):
        return {s.pos[0]: s for kind, s in self.stmts if kind == 'elem'}

    def edit(self, op):
        """(expected exception, whether something was changed)"""
        name, ref = op[0], op[1]
        if ':' in ref and name in ('val', 'item', 'cpar'):
            head, ref = ref.split(':', 1)
            d = self.resolve(head)
            if d is None:
                return ComponentNotFoundError, False
            d = d.copy(d.parent)
            d.lib = self.lib
            error, changed = d.edit((name, ref) + op[2:])
            if changed:
                self.over[head] = d
            return error, changed
        if name in ('val', 'item', 'cpar'):
            at = next((i for i, (k, s) in enumerate(self.stmts) if k == 'elem' and s.pos[0] == ref), None)
            if at is None:
                return ComponentNotFoundError, False
            if self.lib:
                return PermissionError, False
            s = copy.deepcopy(self.stmts[at][1])
            self.stmts[at] = ('elem', s)
            if name == 'cpar':
                for k, v in op[2].items():
                    if v is None:
                        s.kv.pop(k, None)
                    else:
                        s.kv[k] = N.text(v)
            elif ref[0] == 'X':
                s.pos[-1] = op[2]
                self.over.pop(ref, None)
            else:
                N.set_value(s, op[2])
            return None, True
        if self.lib:
            return ValueError, False
        if name == 'par':
            for i, (k, s) in enumerate(self.stmts):
                if s.kind == 'param' and ref.upper() in map(str.upper, s.kv):
                    s = copy.deepcopy(s)
                    key = next(k for k in s.kv if k.upper() == ref.upper())
                    if op[2] is None:
                        del s.kv[key]
                    else:
                        s.kv[key] = N.text(op[2])
                    self.stmts[i:i + 1] = [('text', s)] if s.kv else []
                    return None, True
            if op[2] is not None:
                self.stmts.append(('text', spice.read(f'.param {ref}={N.text(op[2])}')[0]))
            return None, op[2] is not None
        if name == 'del':
            n = len(self.stmts)
            self.stmts = [(k, s) for k, s in self.stmts if not (k == 'elem' and s.pos[0] == ref)]
            self.over.pop(ref, None)
            return (None, True) if len(self.stmts) < n else (ComponentNotFoundError, False)
        if name == 'add':
            s = spice.Stmt(op[2], '')
            i = next((i for i, (k, x) in enumerate(self.stmts) if k == 'elem' and x.pos[0] == ref), None)
            self.stmts[len(self.stmts) if i is None else i:len(self.stmts) if i is None else i + 1] = [('elem', s)]
            self.over.pop(ref, None)
            return None, True
        if name == 'remx':
            n = len(self.stmts)
            self.stmts = [(k, x) for k, x in self.stmts if not (k == 'text' and re.match(ref, x.code, re.IGNORECASE))]
            return None, len(self.stmts) < n
        s = spice.read(ref)[0]
        i = next((i for i, (k, x) in enumerate(self.stmts) if k == 'text' and spice.same_stmt(s, x) == ''), None)
        if name == 'ins' and i is None:
            self.stmts.append(('text', s))
        elif name == 'rem' and i is not None:
            del self.stmts[i]
        else:
            return None, False
        return None, True

    def find(self, name, libs=True):
        d = self
        while d is not None:
            if name.upper() in d.defs:
                return d.defs[name.upper()]
            top, d = d, d.parent
        return top.libs.get(name.upper()) if libs and hasattr(top, 'libs') else None


def parse(text):
    top = Def(None, None)
    top.libs = {}
    cur = top
    control = False
    todo = spice.read(text)
    while todo:
        s = todo.pop(0)
        head = s.pos[0] if s.kind == 'other' else ''
        if control or head == '.control':
            control = head != '.endc'
            cur.stmts.append(('text', s))
        elif head == '.subckt':
            d = Def(s, cur)
            if d.name.upper() in cur.defs:
                raise Violation('definition-twice', f'{d.name} is defined twice\n{text}')
            cur.defs[d.name.upper()] = d
            cur = d
        elif head == '.ends':
            if cur.parent is None:
                raise Violation('ends', f'.ends without its .subckt\n{text}')
            if len(s.pos) > 1 and s.pos[1].upper() != cur.name.upper():
                raise Violation('ends', f'.ends of {s.pos[1]} ends {cur.name}\n{text}')
            cur = cur.parent
        elif head.startswith('.inc'):
            todo = spice.read(LIBS[s.pos[1].strip('"\'')]) + todo
        elif head == '.end':
            if cur is not top:
                raise Violation('ends', f'{cur.name} is not ended\n{text}')
            break
        else:
            if head == '.lib':
                lib = parse(LIBS[s.pos[1].strip('"\'')])
                for k, d in lib.defs.items():
                    top.libs.setdefault(k, d)
                    d.parent = top
                    d.lib = True
            cur.stmts.append(('text', s) if s.kind != 'elem' else ('elem', s))
    else:
        if cur is not top:
            raise Violation('ends', f'{cur.name} is not ended\n{text}')
    return top


class Node:
    """An expanded instance (or the whole circuit)."""

    def __init__(self, d, level=0):
        if level > 8:
            raise Violation('recursive', d.name)
        self.d = d = d if d.parent is None else d.copy(d.parent)
        self.ports, self.dparams = list(d.ports), dict(d.dparams)
        self.elems, self.subs, self.params, self.rest = {}, {}, {}, []
        for kind, s in d.stmts:
            if kind == 'elem':
                ref = s.pos[0]
                if ref in self.elems:
                    raise Violation('element-twice', f'{ref} in {d.name}')
                self.elems[ref] = copy.deepcopy(s)
                if ref[0] == 'X':
                    self.expand(ref, level)
            elif s.kind == 'param':
                for k, v in s.kv.items():
                    self.params[k.upper()] = v
            elif s.kind != 'comment':
                self.rest.append(s)

    def expand(self, ref, level=0):
        name = self.elems[ref].pos[-1]
        d = self.d.over.get(ref) or self.d.find(name)
        if d is None:
            raise Violation('no-definition', f'{ref} refers to {name}, which is not defined')
        self.subs[ref] = Node(d, level + 1)

    def at(self, path):
        node = self
        for r in path.upper().split(':') if path else ():
            if r not in node.subs:
                return None
            node = node.subs[r]
        return node

    def paths(self):
        yield ''
        for r, n in self.subs.items():
            for p in n.paths():
                yield r + (':' + p if p else '')

    def canon(self):
        return [self.ports, sorted(self.dparams.items()), sorted(self.params.items()), sorted(str(s.key()) for s in self.rest),
                sorted((r, s.pos[:-1] if r in self.subs else s.pos, sorted(s.kv.items()), self.subs[r].canon() if r in self.subs else None) for r, s in self.elems.items())]


def split(path):
    where, _, ref = path.upper().rpartition(':')
    return where, ref


class Doc:
    def __init__(self, text):
        self.base = text
        self.defs = parse(text)
        self.top = Node(self.defs)
        self.touched = set()      # paths of the nodes that were edited, with those around them

    def canon(self):
        return self.top.canon()

    def touch(self, path):
        p = path.upper().split(':') if path else []
        for i in range(len(p) + 1):
            self.touched.add(':'.join(p[:i]))

    def apply(self, op):
        """Expected exception, None when it works."""
        name = op[0]
        if name in ('read', 'save'):
            return None
        if name == 'reset':
            self.defs = parse(self.base)
            self.top, self.touched = Node(self.defs), set()
            return None
        if name == 'def':
            node = self.top.at(op[1])
            if node is None:
                return ComponentNotFoundError
            d = node.d
            for n in op[2].split('/'):
                d = d.find(n)
            error, changed = d.edit(tuple(op[3]))
            if changed:
                p = op[1].upper().split(':') if op[1] else []
                for i in range(len(p), 0, -1):      # the definition may be in the copy of one of the instances of the path
                    own, x = self.top.at(':'.join(p[:i])).d, d
                    while x is not None and x is not own:
                        x = x.parent
                    if x is own:
                        self.touch(':'.join(p[:i]))
                        break
                self.follow(self.top, '')
            return error
        if name == 'held':       # an element that is taken before a definition is edited
            node = self.top.at(split(op[1])[0])
            if node is None or split(op[1])[1] not in node.elems:
                return ComponentNotFoundError
            return self.apply(tuple(op[3])) or self.apply(('val', op[1], op[2]))
        if name == 'same':
            node = self.top.at(split(op[1])[0])
            if node is None or split(op[1])[1] not in node.elems:
                return ComponentNotFoundError
            self.touch(split(op[1])[0])
            return None
        if name in ('val', 'item', 'attr', 'model', 'cpar'):
            where, ref = split(op[1])
            what = op[2]
        elif name in ('delpath',):
            where, ref = split(op[1])
        else:
            where, ref = op[1], op[2]
            what = op[3] if len(op) > 3 else None
        node = self.top.at(where)
        if node is None:
            return ComponentNotFoundError
        if name in ('inst', 'iitem'):      # a component, or else a parameter
            if ref.upper() in node.elems:
                self.set_value(node, where, ref.upper(), what)
            elif ref.upper() in node.params:
                node.params[ref.upper()] = N.text(what)
            else:
                return KeyError
            self.touch(where)
            return None
        if name == 'par':
            if what is None:
                node.params.pop(ref.upper(), None)
            else:
                node.params[ref.upper()] = N.text(what)
            self.touch(where)
            return None
        if name == 'vals':
            if any(r not in node.elems for r in ref):
                return ComponentNotFoundError
            for r, v in ref.items():
                self.set_value(node, where, r, v)
            self.touch(where)
            return None
        if name == 'ins':
            s = spice.read(ref)[0]
            if not any(spice.same_stmt(s, x) == '' for x in node.rest):
                node.rest.append(s)
            self.touch(where)
            return None
        if name in ('rem', 'remx'):
            if name == 'remx':
                keep = [x for x in node.rest if not re.match(ref, x.code, re.IGNORECASE)]
            else:
                s = spice.read(ref)[0]
                keep = [x for x in node.rest if spice.same_stmt(s, x) != '']
            if len(keep) < len(node.rest):
                node.rest = keep
                self.touch(where)
            return None
        if name in ('add', 'iadd'):
            s = spice.Stmt(what, '')
            node.subs.pop(ref, None)
            node.d.over.pop(ref, None)
            node.elems[ref] = s
            if ref[0] == 'X':
                node.expand(ref)
            self.touch(where)
            return None
        ref = ref.upper()
        if ref not in node.elems:
            return ComponentNotFoundError
        self.touch(where)
        if name in ('val', 'item', 'attr', 'model', 'subval', 'imodel'):
            self.set_value(node, where, ref, what)
        elif name in ('cpar', 'icpar'):
            s = node.elems[ref]
            for k, v in what.items():
                if v is None:
                    s.kv.pop(k, None)
                else:
                    s.kv[k] = N.text(v)
        elif name in ('del', 'idel', 'delpath'):
            del node.elems[ref]
            node.subs.pop(ref, None)
        else:
            raise KeyError(name)
        return None

    def follow(self, node, path):
        """Instances without edits of their own are as their definition."""
        for ref in node.subs:
            me = path + ':' + ref if path else ref
            if me in self.touched:
                self.follow(node.subs[ref], me)
            else:
                node.expand(ref)

    def set_value(self, node, where, ref, v):
        s = node.elems[ref]
        if ref[0] == 'X':
            node.d.over.pop(ref, None)
            s.pos[-1] = v
            node.expand(ref)
            me = (where.upper() + ':' if where else '') + ref
            self.touched = {t for t in self.touched if t != me and not t.startswith(me + ':')}
        else:
            N.set_value(s, v)


def apply_real(e, op):
    name = op[0]
    if name == 'val':
        e.set_component_value(op[1], op[2])
    elif name == 'item':
        e[op[1]] = op[2]
    elif name == 'attr':
        e[op[1]].value = op[2]
    elif name == 'model':
        e.set_element_model(op[1], op[2])
    elif name == 'cpar':
        e.set_component_parameters(op[1], **op[2])
    elif name == 'delpath':
        e.remove_component(op[1])
    elif name in ('inst', 'iitem'):
        e[op[1]][op[2]] = op[3]
    elif name == 'vals':
        e[op[1]].set_component_values(**op[2])
    elif name == 'imodel':
        e[op[1]].set_element_model(op[2], op[3])
    elif name == 'icpar':
        e[op[1]].set_component_parameters(op[2], **op[3])
    elif name == 'idel':
        e[op[1]].remove_component(op[2])
    elif name == 'iadd':
        e[op[1]].add_component(component(e, op[3]))
    elif name == 'read':
        observe(e, sorted(Doc(e_base(e)).top.paths()))
    elif name == 'save':
        N.save(e)
    elif name == 'reset':
        e.reset_netlist()
    elif name == 'held':
        c = e[op[1]]
        c.value
        apply_real(e, tuple(op[3]))
        c.value = op[2]
    elif name == 'same':
        e[op[1]].value = e[op[1]].value_str
    else:
        sub = e.get_subcircuit(op[1]) if op[1] else e
        if name == 'subval':
            sub.set_component_value(op[2], op[3])
        elif name == 'par':
            sub.set_parameter(op[2], op[3])
        elif name == 'del':
            sub.remove_component(op[2])
        elif name == 'add':
            sub.add_component(component(e, op[3]))
        elif name == 'ins':
            sub.add_instruction(op[2])
        elif name == 'rem':
            sub.remove_instruction(op[2])
        elif name == 'remx':
            sub.remove_Xinstruction(op[2])
        elif name == 'def':
            for n in op[2].split('/'):
                sub = sub.get_subcircuit_named(n)
            what, ref = op[3][:2]
            if what == 'val':
                sub.set_component_value(ref, op[3][2])
            elif what == 'item':
                sub[ref].value = op[3][2]
            elif what == 'cpar':
                sub.set_component_parameters(ref, **op[3][2])
            elif what == 'par':
                sub.set_parameter(ref, op[3][2])
            elif what == 'del':
                sub.remove_component(ref)
            elif what == 'add':
                sub.add_component(component(e, op[3][2]))
            elif what == 'ins':
                sub.add_instruction(ref)
            elif what == 'rem':
                sub.remove_instruction(ref)
            elif what == 'remx':
                sub.remove_Xinstruction(ref)
            else:
                raise KeyError(what)
        else:
            raise KeyError(name)


def e_base(e):
    with open(e.circuit_file, encoding='utf-8') as f:
        return f.read()


def component(e, line):
    from spicelib.editor.spice_subcircuit_instance import SpiceCircuitInstance
    return (SpiceCircuitInstance if line[0] == 'X' else SpiceComponent)(netlist=e, obj=line + '\n')


def load(text, name='h.net'):
    for n, t in LIBS.items():
        p = os.path.join(scratch(), n)
        if not os.path.exists(p):
            with open(p, 'w') as f:
                f.write(t)
    return N.load(text, name)


def observe(e, paths):
    """What the editor says of every instance: components and parameters."""
    out = {}
    for path in paths:
        try:
            sub = e.get_subcircuit(path) if path else e
        except ComponentNotFoundError:
            continue
        comps = {}
        for ref in sub.get_components():
            full = f'{path}:{ref}' if path else ref
            par = {k: N.plain(v) for k, v in e.get_component_parameters(full).items() if k != 'Value'}
            comps[ref] = (list(e.get_component_nodes(full)), ' '.join(str(e.get_component_value(full)).split()), par, str(sub.get_component_value(ref)),
                          str(e[full].value_str))
        pars = {n: N.plain(sub.get_parameter(n)) for n in sub.get_all_parameter_names()}
        out[path] = (comps, pars)
        if path:
            inst = e[path]
            for what, want, got in (('components', sorted(comps), sorted(inst.get_components())), ('parameters', sorted(pars), sorted(inst.get_all_parameter_names())),
                                    ('values', [comps[r][3] for r in comps], [str(inst[r.lower()].value_str) for r in comps]),
                                    ('values', [comps[r][3] for r in comps], [str(inst.get_component_value(r)) for r in comps]),
                                    ('nodes', [comps[r][0] for r in comps], [list(inst.get_component_nodes(r)) for r in comps]),
                                    ('parameter values', [pars[n] for n in pars], [N.plain(inst[n.lower()]) for n in pars])):
                if want != got:
                    raise Violation('instance:' + what, f'{path}: {got}, expected {want}')
    return out


def check_getters(e, doc, when):
    paths = sorted(doc.top.paths())
    got = observe(e, paths)
    if sorted(got) != paths:
        raise Violation(f'{when}:instances', f'{sorted(got)}, expected {paths}')
    for path in paths:
        node = doc.top.at(path)
        comps, pars = got[path]
        seen = [c.reference for c in (e.get_subcircuit(path) if path else e)]
        if not set(node.elems) <= set(seen):
            raise Violation(f'{when}:iteration', f'{path}: {seen}, expected {sorted(node.elems)}')
        if set(comps) != set(node.elems):
            raise Violation(f'{when}:components', f'{path}: {sorted(comps)}, expected {sorted(node.elems)}')
        for ref, s in node.elems.items():
            nodes, val, par, val2, val3 = comps[ref]
            n = N.nnodes(s)
            if nodes != s.pos[1:1 + n]:
                raise Violation(f'{when}:nodes', f'{path}:{ref}: {nodes}, expected {s.pos[1:1 + n]}')
            me = f'{path}:{ref}' if path else ref
            for v in (val, val2, val3):
                if me not in doc.touched and ref not in node.d.over and not spice.same_value(N.squeeze(v), N.squeeze(N.get_value(s))):
                    raise Violation(f'{when}:value', f'{path}:{ref}: {v!r}, expected {N.get_value(s)!r}')
            want = N.get_params(s)
            if set(par) != set(want) or not all(spice.same_value(N.squeeze(par[k]), N.squeeze(want[k])) for k in want):
                raise Violation(f'{when}:parameters', f'{path}:{ref}: {par}, expected {want}')
        if path == '':
            pars = {k: v for k, v in pars.items() if k in node.params or k not in doc_included(doc)}
        if sorted(pars) != sorted(node.params) or not all(spice.same_value(N.squeeze(pars[k]), N.squeeze(node.params[k])) for k in pars):
            raise Violation(f'{when}:circuit-parameters', f'{path}: {pars}, expected {node.params}')
        for ref in ('R1', 'R9', 'X1'):
            if ref not in node.elems:
                try:
                    v = e.get_component_value(f'{path}:{ref}' if path else ref)
                except ComponentNotFoundError:
                    continue
                raise Violation(f'{when}:ghost', f'{path}:{ref} = {v!r}')


def check_defs(e, defs, when):
    """What the definitions say of themselves."""
    for d in defs.values():
        sub = e.get_subcircuit_named(d.name)
        if sub is None:
            raise Violation(f'{when}:definition', f'{d.name} is not found')
        want = d.elems()
        got = {r: ' '.join(str(sub.get_component_value(r)).split()) for r in sub.get_components()}
        if set(got) != set(want):
            raise Violation(f'{when}:definition-components', f'{d.name}: {sorted(got)}, expected {sorted(want)}')
        for r, s in want.items():
            if r not in d.over and not spice.same_value(N.squeeze(got[r]), N.squeeze(N.get_value(s))):
                raise Violation(f'{when}:definition-value', f'{d.name} {r}: {got[r]!r}, expected {N.get_value(s)!r}')
        par = {n.upper(): N.plain(sub.get_parameter(n)) for n in sub.get_all_parameter_names()}
        want = d.params()
        if set(par) != set(want) or not all(spice.same_value(N.squeeze(par[k]), N.squeeze(want[k])) for k in par):
            raise Violation(f'{when}:definition-parameters', f'{d.name}: {par}, expected {want}')
        check_defs(sub, d.defs, when)


def doc_included(doc):
    return ()


def same_node(g, w, path):
    """Raises when the expanded circuits differ."""
    if g.ports != w.ports:
        raise Violation('saved:ports', f'{path}: {g.ports}, expected {w.ports}')
    for what, a, b in (('definition parameters', g.dparams, w.dparams), ('parameters', g.params, w.params)):
        if set(a) != set(b) or not all(spice.same_value(N.squeeze(a[k]), N.squeeze(b[k])) for k in b):
            raise Violation('saved:' + what, f'{path}: {a}, expected {b}')
    if set(g.elems) != set(w.elems):
        raise Violation('saved:elements', f'{path}: {sorted(g.elems)}, expected {sorted(w.elems)}')
    for ref, s in w.elems.items():
        a, b = copy.deepcopy(g.elems[ref]), copy.deepcopy(s)
        if ref in w.subs:
            a.pos[-1] = b.pos[-1] = 'NAME'
        if b.comment == '' or a.comment == '':
            a.comment = b.comment = ''
        d = spice.same_stmt(a, b)
        if d:
            raise Violation('saved:element', f'{path}:{ref}: {d}')
    pool = list(g.rest)
    for s in w.rest:
        hit = next((x for x in pool if spice.same_stmt(x, s) == ''), None)
        if hit is None:
            raise Violation('saved:statement', f'{path}: {s.code!r} is missing')
        pool.remove(hit)
    if pool:
        raise Violation('saved:statement', f'{path}: {[s.code for s in pool]} should not be there')
    for ref in w.subs:
        same_node(g.subs[ref], w.subs[ref], f'{path}:{ref}')


def anon(s, refs):
    """Without comment and without the name of the definition, when the library has made one."""
    if s.kind == 'param' and s.comment:
        s = copy.deepcopy(s)
        s.comment = ''
    if s.kind == 'elem' and s.pos[0] in refs:
        s = copy.deepcopy(s)
        s.pos[-1] = 'NAME'
    return s


def same_def(g, w, top=False):
    """The definition is as it was: statements and the definitions in it."""
    if not top:
        for kind in ('elem', 'text'):
            a = [anon(s, w.over) for k, s in g.stmts if k == kind and s.kind != 'comment']
            b = [anon(s, w.over) for k, s in w.stmts if k == kind and s.kind != 'comment']
            if len(a) != len(b) or any(spice.same_stmt(x, y) for x, y in zip(a, b)):
                raise Violation('saved:definition', f'{w.name}: {[s.code for s in a]}, expected {[s.code for s in b]}')
        if g.ports != w.ports or g.dparams != w.dparams:
            raise Violation('saved:definition', f'{w.name}: ports {g.ports} {g.dparams}, expected {w.ports} {w.dparams}')
    for k, d in w.defs.items():
        if k not in g.defs:
            raise Violation('saved:definition-missing', d.name)
        same_def(g.defs[k], d)
    own = set()
    for ref, d in w.over.items():
        k = g.elems()[ref].pos[-1].upper()
        if k not in g.defs:
            raise Violation('saved:definition-missing', f'{k}, that {ref} of {w.name} needs')
        same_def(g.defs[k], d)
        own.add(k)
    if not top and set(g.defs) - own != set(w.defs):
        raise Violation('saved:definition', f'{w.name}: definitions {sorted(g.defs)}, expected {sorted(w.defs)}')


def check_text(txt, doc):
    defs = parse(txt)
    try:
        same_node(Node(defs), doc.top, '')
        same_def(defs, doc.defs, True)
        extra = set(defs.defs) - set(doc.defs.defs)
        used = {s.pos[-1].upper() for k, s in defs.stmts if k == 'elem' and s.pos[0][0] == 'X'}
        if extra - used:
            raise Violation('saved:unused-definition', f'{sorted(extra - used)}')
    except Violation as v:
        raise Violation(v.key, f'{v.msg}\n{txt}')


EXPECTED = (ComponentNotFoundError, ParameterNotFoundError, ValueError, IndexError, RuntimeError, KeyError, PermissionError)


def run_ops(base, ops, between=None):
    doc = Doc(BASES.get(base, base))
    e = load(doc.base)
    for op in ops:
        op = tuple(op)
        want = doc.apply(op)
        try:
            apply_real(e, op)
            got = None
        except EXPECTED as ex:
            got = type(ex)
        if got is not want:
            raise Violation('error', f'{op}: raised {got}, expected {want}')
        if between:
            between(e, doc)
    return e, doc
