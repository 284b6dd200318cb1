"""Histories of saving: edits, saves to files of every name, save_as, resets and other editors of the same files; the files hold what was saved."""
import io
import itertools
import os
import re
from pathlib import Path

from . import ascdoc as A
from . import qschdoc as Q
from .core import Violation, fresh_dir
from spicelib import AscEditor, QschEditor, SpiceEditor

# what a circuit is: the value of R1, of R2 (None: no such component), of the parameter p (None: not defined) and a directive
START = ('1k', '2k', '1', 0)
OTHER = ('77', None, None, 0)
KINDS = {'net': SpiceEditor, 'asc': AscEditor, 'qsch': QschEditor}
EXTRA = '.save V(a)'


def text(kind, c):
    comps = [(n, v) for n, v in zip(('R1', 'R2'), c) if v is not None]
    dirs = ['.op'] + ([f'.param p={c[2]}'] if c[2] else []) + [EXTRA] * c[3]
    if kind == 'net':
        return '\n'.join(['* saved'] + [f'{n} a 0 {v}' for n, v in comps] + dirs + ['.end']) + '\n'
    if kind == 'asc':
        return ('Version 4\nSHEET 1 880 680\n' + ''.join(f'SYMBOL res {96 * i} 0 R0\nSYMATTR InstName {n}\nSYMATTR Value {v}\n' for i, (n, v) in enumerate(comps))
                + ''.join(f'TEXT 0 {96 + 32 * i} Left 2 !{d}\n' for i, d in enumerate(dirs)))
    return Q.schematic(*(Q.comp('R', n, v, 1000 * i, 300) for i, (n, v) in enumerate(comps)), *(Q.txt(Q.Q + d, -750 - 100 * i) for i, d in enumerate(dirs)))


def parse(txt):
    """The circuit of a file, whatever its format (found from the file)."""
    comps, dirs = {}, []
    if txt.startswith(Q.HEADER):
        for n in Q.read(txt).items:
            if n.head.startswith('component'):
                t = Q.Comp(n).texts()
                comps[t[0].str] = t[1].str
            elif n.head.startswith('text '):
                dirs += n.str.replace(Q.Q, '').split('\\n')
        form = 'qsch'
    elif txt.startswith('Version 4'):
        name = None
        for ln in txt.split('\n'):
            if ln.startswith('SYMATTR InstName '):
                name = ln[17:]
            elif ln.startswith('SYMATTR Value '):
                comps[name] = ln[14:]
            elif ln.startswith('TEXT '):
                dirs += ln.split('!', 1)[1].split('\\n')
        form = 'asc'
    else:
        lines = [ln.strip() for ln in txt.split('\n')[1:]]
        lines = [ln for ln in lines if ln]
        if not lines or lines[-1].lower() != '.end':
            raise Violation('file', f'no .end: {txt!r}')
        for ln in lines[:-1]:
            if ln[0] == '.':
                dirs.append(ln)
            elif ln[0] != '*':
                comps[ln.split()[0]] = ln.split(None, 3)[3]
        form = 'net'
    par = [m.group(1) for m in (re.fullmatch(r'(?i)\.param\s+p\s*=\s*(\S+)', d.strip()) for d in dirs) if m]
    rest = sorted(d.strip() for d in dirs if not d.strip().lower().startswith('.param'))
    extra = rest.count(EXTRA)
    if len(par) > 1 or sorted(['.op'] + [EXTRA] * extra) != rest or set(comps) - {'R1', 'R2'}:
        raise Violation('file', f'{comps} {dirs} in {txt!r}')
    return form, (comps.get('R1'), comps.get('R2'), par[0] if par else None, extra)


EDITS = {
    'r1=5': lambda c: ('5',) + c[1:] if c[0] else c, 'r1=1k': lambda c: ('1k',) + c[1:] if c[0] else c, 'del2': lambda c: (c[0], None) + c[2:],
    'p=3': lambda c: c[:2] + ('3', c[3]), 'p=1': lambda c: c[:2] + ('1', c[3]), 'add': lambda c: c[:3] + (1,), 'rem': lambda c: c[:3] + (0,),
}


def edit(e, op):
    if op[:2] == 'r1':
        e.set_component_value('R1', op[3:])
    elif op == 'del2':
        if 'R2' in e.get_components():
            e.remove_component('R2')
    elif op[:2] == 'p=':
        e.set_parameter('p', op[2:])
    elif op == 'add':
        e.add_instruction(EXTRA)
    elif op == 'rem':
        e.remove_instruction(EXTRA)


def targets(kind):
    """Names given to save_netlist and save_as -> (file written, format) or None where the name is refused."""
    ext = kind
    own = {'a.' + ext: ('a.' + ext, kind), 'b.' + ext: ('b.' + ext, kind), 'd/a.' + ext: ('d/a.' + ext, kind)}
    save, as_ = dict(own), dict(own)
    if kind == 'net':
        for t in ('c.cir', 'b.v2.net', 'plain'):
            save[t] = as_[t] = (t, 'net')
    elif kind == 'asc':
        save.update({'c': ('c.asc', 'asc'), 'b.txt': ('b.asc', 'asc'), 'c.net': None, 'c.cir': None})
        as_.update({'c': ('c.asc', 'asc'), 'b.txt': ('b.asc', 'asc')})
    else:
        save.update({'c.net': ('c.net', 'net'), 'c.cir': ('c.cir', 'net'), 'c.txt': None, 'c': None})
    return save, as_


def alphabet(kind):
    save, as_ = targets(kind)
    out = list(EDITS) + ['reset', 'io', 'own']
    out += [f'save {t} {how}' for t in save for how in ('str', 'path', 'write') if how == 'str' or t[0] in 'ab' and t.endswith(kind)]
    out += [f'as {t} {how}' for t in as_ for how in ('str', 'path') if how == 'str' or t[0] == 'b']
    return out + ['other a', 'other b', 'other d/a']


def judge(case, rec):
    kind, ops = case['kind'], case['ops']
    d = fresh_dir('saving')
    os.mkdir(os.path.join(d, 'd'))
    enc = 'cp1252' if kind == 'qsch' else 'utf-8'

    def put(name, c):
        with open(os.path.join(d, name), 'w', encoding=enc, newline='') as f:
            f.write(text(kind, c))
    if kind == 'asc':
        src = A.setup_dir()
        for p in ('', 'd'):
            with open(os.path.join(src, 'res.asy')) as f, open(os.path.join(d, p, 'res.asy'), 'w') as g:
                g.write(f.read())
        getattr(AscEditor, 'symbol_cache', {}).clear()
    files = {f'a.{kind}': (kind, START), f'b.{kind}': (kind, OTHER)}
    for n, (_, c) in files.items():
        put(n, c)
    save, as_ = targets(kind)
    e = KINDS[kind](os.path.join(d, f'a.{kind}'))
    mem, cur, stale, loaded = START, f'a.{kind}', False, START      # loaded: what the editor took its file for
    for k, op in enumerate(ops):
        w = f'{kind} {ops[:k + 1]}'
        what, _, rest = op.partition(' ')
        try:
            if op in EDITS:
                edit(e, op)
                mem = EDITS[op](mem)
            elif op == 'reset':
                e.reset_netlist()
                mem = loaded = files[cur][1]
                stale = False
            elif op == 'io':
                s = io.StringIO()
                e.save_netlist(s)
                got = parse(s.getvalue())
                want = ('net' if kind == 'qsch' else kind), mem
                if got != want:
                    raise Violation('buffer', f'{got}, the circuit is {want}; {w}')
            elif stale and mem == loaded and kind == 'qsch' and (op == 'own' or what in ('save', 'as') and rest.rsplit(' ', 1)[0] == cur):
                return    # a schematic that was not changed is not written again, although something else wrote its file
            elif op == 'own':
                e.save_netlist(e.circuit_file)
                files[cur] = (files[cur][0], mem)
                loaded, stale = mem, False
            elif what in ('save', 'as'):
                name, how = rest.rsplit(' ', 1)
                path = os.path.join(d, name)
                path = Path(path) if how == 'path' else path
                want = (save if what == 'save' else as_)[name]
                try:
                    (e.save_as if what == 'as' else e.write_netlist if how == 'write' else e.save_netlist)(path)
                except ValueError:
                    if want is not None:
                        raise
                else:
                    if want is None:
                        raise Violation('accepted', f'{name} was written; {w}')
                    files[want[0]] = (want[1], mem)
                    if what == 'as':
                        cur = want[0]
                    if want[0] == cur:
                        loaded, stale = mem, False
            elif what == 'other':
                n = f'{rest}.{kind}'
                if n in files:
                    o = KINDS[kind](os.path.join(d, n))
                    if 'R1' in o.get_components():
                        o.set_component_value('R1', '9')
                    files[n] = (kind, ('9',) + files[n][1][1:])
                    o.save_netlist(os.path.join(d, n))
                    stale |= n == cur
        except Violation:
            raise
        except Exception as ex:
            raise Violation('exception', f'{type(ex).__name__}: {ex}; {w}') from ex
        found = sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs if not f.endswith('.asy'))
        if found != sorted(files):
            raise Violation('files', f'{found}, expected {sorted(files)}; {w}')
        for n, want in files.items():
            with open(os.path.join(d, n), encoding=enc, newline='') as f:
                got = parse(f.read())
            if got != want:
                raise Violation('content', f'{n} holds {got}, expected {want}; {w}')
        if os.path.relpath(str(e.circuit_file), d) != cur:
            raise Violation('circuit file', f'{e.circuit_file}, expected {cur}; {w}')
        comps = set(e.get_components())
        got = tuple(e.get_component_value(r) if r in comps else None for r in ('R1', 'R2')) + (e.get_parameter('p') if 'p' in [x.lower() for x in e.get_all_parameter_names()] else None,)
        if tuple(None if v is None else str(v) for v in got) != mem[:3]:
            raise Violation('editor', f'the editor has {got}, expected {mem}; {w}')
    if rec is not None:
        rec.state([kind, mem, cur, sorted(files.items())])


def few(kind):
    return ['r1=5', 'r1=1k', 'add', 'reset', 'own', f'save a.{kind} str', f'save b.{kind} str', f'as a.{kind} str', f'as b.{kind} str', f'as d/a.{kind} str', 'other a', 'other b']


def sequences(ops, depth, first):
    for n in depth:
        for rest in itertools.product(ops, repeat=n - 1):
            seq = [ops[first], *rest]
            if seq[-1] in EDITS and n > 1:
                continue     # an edit at the end: the file system is not touched
            yield seq
