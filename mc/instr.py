"""Reference for instructions: what adding and removing them does to the lines of a netlist or to the texts of a schematic."""
import re

from mc import spice
from spicelib.editor.updates import UpdateType as U

UNIQUE = ('.ac', '.dc', '.tran', '.noise', '.tf')
OPS = ('ins', 'insall', 'rem', 'remx', 'addctl', 'remctl')


def unique(line):
    return line.lower().split()[:1] in [[u] for u in UNIQUE]


def pieces(text):
    """The instructions in a text of a schematic: lines, with their continuation lines."""
    out = []
    for line in text.split('\\n'):
        if out and line.lstrip().startswith('+'):
            out[-1] += '\\n' + line
        else:
            out.append(line)
    return out


class Texts:
    """Instructions in a schematic. `get()` gives the active texts [(handle, text)], `set(handle, text or None)`, `new(text)`."""

    def __init__(self, get, put, new, record):
        self.get, self.put, self.new, self.record = get, put, new, record

    def apply(self, op):
        """Expected (answer, exception)."""
        name = op[0]
        if name == 'insall':
            for t in op[1]:
                self.apply(('ins', t))
            return None, None
        if name == 'ins':
            t = op[1].strip().replace('\n', '\\n')
            if t.lower().startswith('.param'):
                return None, RuntimeError
            texts = [(h, pieces(x)) for h, x in self.get()]
            if any(p.strip() == t for _, ps in texts for p in ps):
                return None, None
            for h, ps in texts if unique(t) else ():
                for i, p in enumerate(ps):
                    if unique(p):
                        ps[i] = t
                        self.put(h, '\\n'.join(ps))
                        self.record('INSTRUCTION:' + p.strip(), U.DeleteInstruction, None)
                        self.record('INSTRUCTION:' + t, U.AddInstruction, None)
                        return None, None
            self.new(t)
            self.record('INSTRUCTION:' + t, U.AddInstruction, None)
            return None, None
        if name == 'rem':
            t = op[1].strip().replace('\n', '\\n')
            return self.remove(lambda p: t in p, 1), None
        if name == 'remx':
            return self.remove(lambda p: re.match(op[1], p.lstrip(), re.I), None), None
        raise KeyError(name)

    def remove(self, match, limit):
        done = 0
        for h, x in self.get():
            keep = []
            ps = pieces(x)
            for p in ps:
                if match(p) and done != limit:
                    done += 1
                    self.record('INSTRUCTION:' + p.strip(), U.DeleteInstruction, None)
                else:
                    keep.append(p)
            if len(keep) < len(ps):
                self.put(h, '\\n'.join(keep) if keep else None)
        return done > 0


def line_of(s):
    """Text of a statement, as it was given or written."""
    if s.kind == 'comment':
        return s.comment
    code = ' '.join(s.pos + [f'{k}={v}' for k, v in s.kv.items()]) if s.kind == 'param' else s.code
    return code + (' ; ' + s.comment if s.comment else '')


class Lines:
    """Instructions in a netlist: `doc.stmts`, where those of definitions and control sections are `inner`."""

    def __init__(self, doc):
        self.doc = doc

    def own(self):
        return [s for s in self.doc.stmts if not s.inner]

    def controls(self):
        """The control sections, each as a list of statements."""
        out, depth = [], 0
        for s in self.doc.stmts:
            if s.kind == 'other' and s.pos[0] == '.subckt':
                depth += 1
            if depth == 0 and s.kind == 'other' and s.pos[0] == '.control':
                out.append([])
            if depth == 0 and s.inner:
                out[-1].append(s)
            if s.kind == 'other' and s.pos[0] == '.ends':
                depth -= 1
        return out

    def same(self, s, t):
        w = spice.read(t)
        return len(w) == 1 and s.comment == w[0].comment and s.code.split() == w[0].code.split()

    def apply(self, op):
        doc, name = self.doc, op[0]
        if name == 'insall':
            for t in op[1]:
                self.apply(('ins', t))
            return None, None
        if name == 'ins':
            t = op[1]
            if t.strip().lower().startswith('.param'):
                return None, RuntimeError
            if any(self.same(s, t) for s in self.own()):
                return None, None
            if unique(t):
                for i, s in enumerate(doc.stmts):
                    if not s.inner and s.kind == 'other' and s.pos[0] in UNIQUE:
                        n = spice.read(t)[0]
                        n.added, n.inner = s.added, False
                        doc.stmts[i] = n
                        doc.record('INSTRUCTION:' + t.strip(), U.UpdateInstruction, None)
                        return None, None
            n = spice.read(t)[0]
            n.added, n.inner = True, False
            doc.stmts.append(n)
            doc.record('INSTRUCTION:' + t.strip(), U.AddInstruction, None)
            return None, None
        if name == 'rem':
            for s in self.own():
                if self.same(s, op[1]):
                    doc.stmts.remove(s)
                    doc.record('INSTRUCTION:' + op[1].strip(), U.DeleteInstruction, None)
                    return True, None
            return False, None
        if name == 'remx':
            hit = [s for s in self.own() if re.match(op[1], line_of(s), re.I)]
            for s in hit:
                doc.stmts.remove(s)
                doc.record('INSTRUCTION:' + line_of(s), U.DeleteInstruction, None)
            return bool(hit), None
        if name == 'addctl':
            t = op[1].strip()
            if not t.lower().startswith('.control') or not t.lower().endswith('.endc'):
                return None, ValueError
            new = spice.read(t)
            if any(len(c) == len(new) and all((a.code, a.comment) == (b.code, b.comment) for a, b in zip(c, new)) for c in self.controls()):
                return None, None
            for s in new:
                s.added, s.inner = True, True
                if s.kind != 'other':
                    s.kind = 'frame'
            doc.stmts += new
            doc.record('INSTRUCTION:' + t, U.AddInstruction, None)
            return None, None
        if name == 'remctl':
            if op[1] < 0:
                return None, IndexError
            c = self.controls()
            if op[1] >= len(c):
                return False, None
            gone = {id(s) for s in c[op[1]]}
            doc.stmts[:] = [s for s in doc.stmts if id(s) not in gone]
            doc.record('INSTRUCTION:' + '\n'.join(s.code for s in c[op[1]]), U.DeleteInstruction, None)
            return True, None
        raise KeyError(name)


def apply_real(e, op):
    name = op[0]
    if name == 'ins':
        return e.add_instruction(op[1])
    if name == 'insall':
        return e.add_instructions(*op[1])
    if name == 'rem':
        return e.remove_instruction(op[1])
    if name == 'remx':
        return e.remove_Xinstruction(op[1])
    if name == 'addctl':
        return e.add_control_section(op[1])
    if name == 'remctl':
        return e.remove_control_section(op[1])
    raise KeyError(name)
