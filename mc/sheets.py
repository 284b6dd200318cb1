"""Hierarchical schematics: one reference document per file, instances that refer to them, and the real editor of the top one."""
import os

from . import instr
from .core import Violation, fresh_dir
from spicelib.editor.editor_errors import ComponentNotFoundError


class Reader:
    """What an instance says through the editor of the top schematic, in the form of an editor."""

    def __init__(self, e, path):
        self.e, self.path, self.sub = e, path + ':', e.get_subcircuit(path)

    def get_components(self, *prefixes):
        return self.sub.get_components(*prefixes)

    def get_all_parameter_names(self):
        return self.sub.get_all_parameter_names()

    def get_parameter(self, name):
        return self.sub.get_parameter(name)

    def __getattr__(self, name):    # the others take a reference first
        f = getattr(self.e, name)
        return lambda ref, *more: f(self.path + ref, *more)


class Sheets:
    """files: name -> text, the first one is the top. block(doc, ref): file of its schematic, ('lib', references) of a library,
    None when nothing is inside."""

    def __init__(self, mod, files, block):
        self.mod, self.block = mod, block
        self.top = next(iter(files))
        self.text = dict(files)          # of the files that were not edited
        self.docs = {n: mod.Doc(t) for n, t in files.items()}
        self.touched = set()

    def canon(self):
        return [(n, d.canon()) for n, d in self.docs.items()]

    def resolve(self, path):
        """(file or library, reference) of a path; None when there is nothing."""
        name = self.top
        while ':' in path:
            ref, path = path.split(':', 1)
            if isinstance(name, tuple) or not has(self.docs[name], ref):
                return None, path
            name = self.block(self.docs[name], ref)
            if name is None:
                return None, path
        return name, path

    def paths(self):
        """Paths of the instances of schematics."""
        todo = [('', self.top)]
        while todo:
            path, name = todo.pop()
            for ref in refs(self.docs[name]):
                f = self.block(self.docs[name], ref)
                if f is not None and not isinstance(f, tuple):
                    p = f'{path}:{ref}' if path else ref
                    yield p, f
                    todo.append((p, f))

    def reset(self, files):
        """They are read again, with what is inside of them."""
        todo, seen = list(files), set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if self.base[n] == self.text[n]:
                self.touched.discard(n)
            for doc in (self.docs[n], self.mod.Doc(self.base[n])):
                todo += [f for f in (self.block(doc, r) for r in refs(doc)) if isinstance(f, str)]
            self.docs[n] = self.mod.Doc(self.base[n])

    def apply(self, op):
        """The expected exception."""
        name = op[0]
        if name == 'reset':
            self.reset(self.docs)
            return None
        if name in ('save', 'read'):
            return None
        if name == 'in' and ':' in str(op[2][-1:] and op[2][1:2]):
            return self.apply((op[2][0], f'{op[1]}:{op[2][1]}') + tuple(op[2][2:]))
        if name == 'in' and op[2][0] == 'reset':
            file = self.resolve(op[1] + ':')[0]
            if file is None:
                return ComponentNotFoundError
            self.reset([file])
            return None
        if name == 'in':
            file, inner = self.resolve(op[1] + ':')[0], tuple(op[2])
            if file is None:
                return ComponentNotFoundError
        else:
            file, ref = self.resolve(op[1]) if ':' in str(op[1]) and name not in instr.OPS and name != 'par' else (self.top, op[1])
            if file is None:
                return ComponentNotFoundError
            if isinstance(file, tuple):
                return PermissionError if ref in file[1] else ComponentNotFoundError
            inner = (name, ref) + tuple(op[2:])
        error = self.docs[file].apply(inner)
        self.touched.add(file)
        return error


def has(doc, ref):
    return ref in refs(doc)


def refs(doc):
    return [s.ref for s in (doc.syms if hasattr(doc, 'syms') else doc.comps())]


def write(mod, base, extra):
    d = fresh_dir('sheets')
    for n, t in dict(base, **extra).items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', newline='', encoding=mod.ENCODING) as f:
            f.write(t)
    return d


def content(mod, d, n):
    with open(os.path.join(d, n), newline='', encoding=mod.ENCODING) as f:
        return f.read().replace('\r\n', '\n')


def apply_real(e, op, mod, d, sh):
    if op[0] == 'in' and op[2][0] == 'reset':
        return e.get_subcircuit(op[1]).reset_netlist()
    if op[0] == 'in':
        return mod.apply_real(e.get_subcircuit(op[1]), tuple(op[2]))
    if op[0] == 'reset':
        return e.reset_netlist()
    if op[0] == 'save':
        return e.save_netlist(os.path.join(d, sh.top))
    if op[0] == 'read':
        return check_getters(e, sh, 'read')
    return mod.apply_real(e, op)


def check_getters(e, sh, when):
    sh.mod.check_getters(e, sh.docs[sh.top], when)
    for path, f in sh.paths():
        sh.mod.check_getters(e.get_subcircuit(path), sh.docs[f], f'{when} {path}')
        sh.mod.check_getters(Reader(e, path), sh.docs[f], f'{when} through {path}')


def check_files(d, sh, when):
    """The files of the schematics that are in use are those of the reference."""
    for f in {sh.top} | {f for _, f in sh.paths()}:
        t = content(sh.mod, d, f)
        sh.mod.check_text(t, sh.docs[f], f'{when} {f}')
        if f not in sh.touched and f != sh.top and t != sh.text[f]:
            raise Violation('untouched-file', f'{f} was written without an edit\n{t}')


def run(mod, files, extra, block, ops, eager):
    sh = Sheets(mod, files, block)
    d = write(mod, files, extra)
    sh.base = dict(files)
    e = mod.Editor(os.path.join(d, sh.top))
    for op in ops:
        op = tuple(op)
        want = sh.apply(op)
        try:
            apply_real(e, op, mod, d, sh)
            got = None
        except mod.EXPECTED + (PermissionError, AttributeError) as ex:
            got = type(ex)
            if got is AttributeError and op[0] != 'in':
                raise
        if want is PermissionError and 'cattr' in (op[0], op[0] == 'in' and op[2][0]) and got is None:
            got = want      # attributes of components of libraries are not saved anywhere
        if want is ComponentNotFoundError and op[0] == 'in' and got is AttributeError:
            got = want      # a component that has nothing inside
        if got is not want:
            raise Violation('error', f'{op}: raised {got}, expected {want}')
        if op[0] == 'save':
            check_files(d, sh, 'saved')
            for f in {sh.top} | {f for _, f in sh.paths()}:
                sh.base[f] = content(mod, d, f)
        if eager:
            check_getters(e, sh, 'read')
    return e, sh, d


def judge(mod, files, extra, block, case, rec):
    e, sh, d = run(mod, files, extra, block, [tuple(o) for o in case['ops']], case['eager'])
    check_getters(e, sh, 'read')
    e.save_netlist(os.path.join(d, sh.top))
    check_files(d, sh, 'saved')
    check_getters(e, sh, 'after saving')
    again = mod.Editor(os.path.join(d, sh.top))
    check_getters(again, sh, 'reloaded')
    if rec is not None:
        rec.state(sh.canon())
    return e, sh, d, again
