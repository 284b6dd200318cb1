"""Where editors look for the files that circuits refer to, and how they read them."""
import itertools
import os

from .core import Violation, fresh_dir, scratch

ENCS = ['utf-8', 'utf-8-sig', 'utf-16', 'bom-be', 'utf_16_le', 'cp1252']
SPOTS = ['own', 'cwd', 'sim', 'c1', 'c2']    # folder of the circuit, current folder, simulator, two custom ones
ORDER = {                                    # of preference
    'net-lib': ['own', 'cwd', 'sim', 'c1', 'c2'], 'net-inc': ['own', 'cwd', 'sim', 'c1', 'c2'],
    'asc-sym': ['own', 'cwd', 'sim', 'c1', 'c2'], 'asc-dir': ['own', 'cwd', 'sim', 'c1', 'c2'], 'asc-lib': ['own', 'cwd', 'sim', 'c1', 'c2'],
    'asc-block': ['own', 'cwd', 'c1', 'c2'], 'asc-beside': ['own', 'cwd', 'sim', 'c1', 'c2'], 'qsch': ['own', 'cwd', 'c1', 'c2', 'sim']}
KINDS = list(ORDER)
HOW = ['', 'top', 'nested', 'case']          # the file is not there, is there, is in a folder below, has other letter case
STYLES = ['args', 'list', 'mixed', 'missing', 'home', 'twice']
PIN = 'PIN 0 0 NONE 0\nPINATTR PinName A\nPINATTR SpiceOrder 1\n'
NAME = {'net-lib': 'amp.lib', 'net-inc': 'part.inc', 'asc-sym': 'part.asy', 'asc-dir': 'Misc/part.asy', 'asc-lib': 'amp.lib', 'asc-block': 'blk.asc', 'asc-beside': 'blk.asy',
        'qsch': 'blk.qsch'}
SUB = {'asc-sym': 'sym', 'asc-dir': 'sym', 'asc-lib': 'sub', 'asc-beside': 'sym'}
TOP = {
    'net-lib': '* t\nX1 1 2 amp\n.lib amp.lib\n.end\n', 'net-inc': '* t\nR1 1 2 1k\n.include "part.inc"\n.end\n',
    'asc-sym': 'Version 4\nSHEET 1 880 680\nSYMBOL part 16 0 R0\nSYMATTR InstName X1\n',
    'asc-dir': 'Version 4\nSHEET 1 880 680\nSYMBOL Misc\\\\part 16 0 R0\nSYMATTR InstName X1\n',
    'asc-lib': 'Version 4\nSHEET 1 880 680\nSYMBOL cell 16 0 R0\nSYMATTR InstName X1\n',
    'asc-block': 'Version 4\nSHEET 1 880 680\nSYMBOL blk 16 0 R0\nSYMATTR InstName X1\n',
    'asc-beside': 'Version 4\nSHEET 1 880 680\nSYMBOL blk 16 0 R0\nSYMATTR InstName X1\n',
}


def lib(n):
    return f'* l\n.subckt amp a b\nR1 a b {n}\n.ends amp\n'


def encode(text, enc):
    return b'\xfe\xff' + text.encode('utf_16_be') if enc == 'bom-be' else text.encode(enc)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode('cp1252'))


def sheet(n):
    """A schematic of a block with a cell whose library is in the same folder."""
    return f'Version 4\nSHEET 1 880 680\nSYMBOL cell 16 0 R0\nSYMATTR InstName X2\nSYMATTR Value2 m={n}\n'


def content(kind, n):
    from . import qschdoc as Q
    if kind in ('net-lib', 'asc-lib'):
        return lib(n)
    if kind == 'net-inc':
        return f'R2 1 2 {n}\n'
    if kind in ('asc-sym', 'asc-dir'):
        return f'Version 4\nSymbolType CELL\nSYMATTR Prefix X\nSYMATTR Value s{n}\nSYMATTR ModelFile all.lib\n{PIN}'
    if kind == 'asc-beside':
        return f'Version 4\nSymbolType BLOCK\n{PIN}'
    if kind == 'asc-block':
        return sheet(n)
    return Q.schematic(Q.comp('R', 'R1', str(n), -400, 300), Q.IO)


def fake(paths):
    from spicelib.sim.simulator import Simulator

    class Sim(Simulator):
        spice_exe = ['/bin/true']

        @classmethod
        def get_default_library_paths(cls):
            return list(paths)
    return Sim


def keep(classes):
    return [(c, k, c.__dict__[k]) for c in classes for k in ('custom_lib_paths', 'simulator_lib_paths') if k in c.__dict__]


def put_back(classes, kept):
    for c in classes:
        for k in ('custom_lib_paths', 'simulator_lib_paths'):
            if k in c.__dict__ and not any(x is c and y == k for x, y, _ in kept):
                delattr(c, k)
    for c, k, v in kept:
        setattr(c, k, v)


def give(cls, style, c1, c2, missing, c3):
    """c3: of the files that are not searched here."""
    if style == 'args':
        cls.set_custom_library_paths(c1, c2, c3)
    elif style == 'list':
        cls.set_custom_library_paths([c1, c2, c3])
    elif style == 'mixed':
        cls.set_custom_library_paths([c1], c2, [], [c3])
    elif style == 'missing':
        cls.set_custom_library_paths(missing, c1, [missing, c2], c3)
    elif style == 'home':
        home = os.environ.get('HOME')
        os.environ['HOME'] = os.path.dirname(c1)
        try:
            cls.set_custom_library_paths('~/' + os.path.basename(c1), ['~/' + os.path.basename(c2)], c3)
        finally:
            os.environ.pop('HOME')
            if home is not None:
                os.environ['HOME'] = home
    elif style == 'twice':    # the first ones are forgotten
        cls.set_custom_library_paths(c2, missing)
        cls.set_custom_library_paths(c1, c2, c3)


def check_spots(case):
    """The file in the preferred location is the one that is used."""
    kind, how, style = case
    from spicelib import AscEditor, QschEditor, SpiceEditor
    root = fresh_dir('loc')
    spot = {s: os.path.join(root, s) for s in SPOTS}
    for s in SPOTS:
        os.makedirs(spot[s])
    name = NAME[kind]
    base = {s: os.path.join(spot[s], SUB[kind]) if s == 'sim' and kind in SUB else spot[s] for s in SPOTS}
    where = {}
    for n, s in enumerate(SPOTS):
        h = how[n]
        if not h:
            continue
        folder, f = os.path.split(name)
        path = os.path.join(base[s], folder, *(['deep', 'er'] if h == 'nested' else []), f.upper() if h == 'case' else f)
        if h == 'case' and kind.startswith('asc-b'):    # a schematic file has its suffix in small letters
            path = os.path.join(base[s], folder, f.split('.')[0].upper() + '.' + f.split('.')[1])
        write(path, content(kind, n + 1))
        where[s] = n + 1
        if kind == 'asc-block':       # of the cell inside
            write(os.path.join(os.path.dirname(path), 'amp.lib'), lib(n + 1))
        elif kind == 'asc-beside':
            write(os.path.splitext(path)[0] + '.asc', f'Version 4\nSHEET 1 880 680\nSYMBOL part 0 0 R0\nSYMATTR InstName R1\nSYMATTR Value {n + 1}\n')
    if kind in ('asc-sym', 'asc-dir'):
        write(os.path.join(root, 'c3', 'all.lib'), ''.join(lib(n + 1).replace('amp', f's{n + 1}') for n in range(len(SPOTS))))
    if kind in ('asc-lib', 'asc-block'):
        write(os.path.join(root, 'c3', 'cell.asy'), f'Version 4\nSymbolType CELL\nSYMATTR Prefix X\nSYMATTR Value amp\nSYMATTR ModelFile amp.lib\n{PIN}')
    if kind == 'asc-block':
        write(os.path.join(root, 'c3', 'blk.asy'), f'Version 4\nSymbolType BLOCK\n{PIN}')
    if kind == 'asc-beside':
        write(os.path.join(root, 'c3', 'part.asy'), f'Version 4\nSymbolType CELL\nSYMATTR Prefix R\n{PIN}')
    os.makedirs(os.path.join(root, 'c3'), exist_ok=True)
    want = next((where[s] for s in ORDER[kind] if s in where), None)
    ext = {'net': 'net', 'asc': 'asc', 'qsc': 'qsch'}[kind[:3]]
    cls = {'net': SpiceEditor, 'asc': AscEditor, 'qsch': QschEditor}[ext]
    top = os.path.join(spot['own'], 'top.' + ext)
    if ext == 'qsch':
        from . import qschdoc as Q
        write(top, Q.schematic(Q.comp('', 'X1', 'blk', 800, 300, pins=Q.TWO, typ='X'), Q.txt(Q.Q + '.op')))
    else:
        write(top, TOP[kind])
    classes = list({c for k in (SpiceEditor, AscEditor, QschEditor) for c in k.__mro__ if c.__module__.startswith('spicelib')})
    kept = keep(classes)
    old = os.getcwd()
    try:
        os.chdir(spot['cwd'])
        cls.prepare_for_simulator(fake([os.path.join(root, 'nowhere'), spot['sim']]))
        give(cls, style, spot['c1'], spot['c2'], os.path.join(root, 'missing'), os.path.join(root, 'c3'))
        got = read(kind, cls, top)
        if got is None and want is None:
            return f'{kind} none'
        if str(got) != str(want):
            raise Violation('location', f'{kind}: file {dict(zip(SPOTS, how))}, custom paths {style}: the one of location {got} is used, not of {want}')
    finally:
        os.chdir(old)
        put_back(classes, kept)
    return f'{kind} {want}'


def read(kind, cls, top):
    """The number in the file that the editor found, None without any."""
    if kind == 'net-lib':
        e = cls(top)
        try:
            return e['X1:R1'].value_str
        except Exception:  # how it is reported is not the matter here
            return None
    if kind == 'net-inc':
        e = cls(top)
        out = os.path.join(os.path.dirname(top), 'out.net')
        parts = [c.value_str for c in e if c.reference == 'R2']
        if not parts:
            return None
        e.save_netlist(out)
        if f'R2 1 2 {parts[0]}\n' not in open(out, encoding=e.encoding).read():
            raise Violation('location', f'{kind}: the file that is saved has not R2 1 2 {parts[0]}')
        return parts[0]
    try:
        e = cls(top)
    except FileNotFoundError:
        return None
    if kind == 'asc-block':
        m = e.get_component_attribute('X1:X2', 'Value2')
        inner = e.get_component_value('X1:X2:R1')
        if m != f'm={inner}':
            raise Violation('location', f'{kind}: the schematic with {m} uses the library of location {inner}')
        return inner
    try:
        return e.get_component_value('X1:R1')
    except Exception:  # as above
        return None


# ---------------------------------------------------------------- encodings of files that are included
FIRST = ['* µ part', 'R2 a 0 4.7µ', '', '; µ', '.param µa=1']
MORE = ['R2 a 0 4.7µ', '.param p2=2µ']


def check_include(case):
    """Included files have encodings of their own; with an encoding given, it is the one of all files."""
    outer, inner, deep, first, forced = case
    from spicelib import SpiceEditor
    d = fresh_dir('inc')
    lines = {'t.net': ['* µ title', 'R1 a 0 1µ', '.include i.inc', 'C1 a 0 2µ', '.end'],
             'i.inc': [FIRST[first]] + MORE + (['.inc "d.inc"'] if deep else []), 'd.inc': ['* deep µ', 'L1 a 0 3µ']}
    for name, enc in (('t.net', outer), ('i.inc', inner), ('d.inc', deep)):
        if enc:
            write(os.path.join(d, name), encode('\n'.join(lines[name]) + '\n', enc))
    e = SpiceEditor(os.path.join(d, 't.net'), **({'encoding': forced} if forced else {}))
    out = os.path.join(d, 'o.net')
    e.save_netlist(out)
    body = [FIRST[first]] + MORE + (lines['d.inc'] if deep else [])
    want = lines['t.net'][:2] + body + lines['t.net'][3:]
    with open(out, encoding=e.encoding) as f:
        got = f.read().split('\n')
    if [x for x in got if x.strip()] != [x for x in want if x.strip()]:
        raise Violation('include', f'netlist in {outer}, included files in {inner} and {deep}, encoding={forced}: {got}, expected {want}')
    parts = {c.reference: c.value_str for c in e}
    if parts != {'R1': '1µ', 'R2': '4.7µ', 'C1': '2µ', **({'L1': '3µ'} if deep else {})}:
        raise Violation('include', f'{case}: components {parts}')
    if e.get_parameter('p2') != '2µ':
        raise Violation('include', f'{case}: parameter {e.get_parameter("p2")}')
    return f'{inner in (outer,)} {bool(deep)} {forced is not None}'


def includes():
    for outer in ENCS:
        for inner in ENCS:
            for first in range(len(FIRST)):
                for deep in [None] + ENCS:
                    yield [outer, inner, deep, first, None]
    for enc, name in (('utf-8', 'utf-8'), ('utf-8-sig', 'utf-8-sig'), ('utf-16', 'utf-16'), ('utf_16_le', 'utf_16_le'), ('cp1252', 'cp1252'), ('cp1252', 'windows-1252')):
        for first in range(len(FIRST)):
            for deep in (None, enc):
                yield [enc, enc, deep, first, name]


# ---------------------------------------------------------------- encoding given by the caller
def check_given(case):
    """A reader that is given the encoding of the file says the same as without, and saves in that encoding."""
    kind, enc, eol = case
    import checks.c26_files as C
    path = os.path.join(fresh_dir('given'), 'k.' + kind)
    if kind == 'net':
        from spicelib import SpiceEditor as R
        text = C.NET
    elif kind == 'asc':
        from spicelib import AscEditor as R
        text = C.ASC
    elif kind == 'asy':
        from spicelib.editor.asy_reader import AsyReader as R
        text = C.ASY
    else:
        from spicelib.log.ltsteps import LTSpiceLogReader as R
        text = C.LOG
    write(path, encode(text.replace('\n', eol), enc))
    name = 'utf-16' if enc == 'bom-be' else enc
    r = R(path, encoding=name)
    if kind == 'net':
        got = r.get_component_value('R1'), r.get_component_value('C1'), r.get_parameter('cµ'), r.get_components()
        want = '10µ', '{cµ}', '1n', ['R1', 'C1']
    elif kind == 'asc':
        got, want = (r.get_parameter('cµ'), r.get_components()), ('1n', [])
    elif kind == 'asy':
        got, want = r.get_value(), 'µ'
    else:
        got, want = (r['µm'], r['cµ']), ([1.5, 2.5], [1, 2])
    if got != want:
        raise Violation('given', f'{kind} in {enc}, with encoding={name}: {got}, expected {want}')
    if kind in ('net', 'asc'):
        out = os.path.join(os.path.dirname(path), 'o.' + kind)
        r.save_netlist(out)
        with open(out, encoding=name) as f:
            saved = f.read()
        for word in ('µ', '25°C'):
            if word not in saved:
                raise Violation('given', f'{kind} with encoding={name}: {saved!r} is saved')
    return f'given {kind}'


# ---------------------------------------------------------------- library folders of an installed simulator
FOLDERS = {'LTspice': ['~/AppData/Local/LTspice/lib', '~/Documents/LTspiceXVII/lib', '~/Documents/LTspice/lib', '~/My Documents/LTspiceXVII/lib',
                       '~/My Documents/LTspice/lib', '~/Local Settings/Application Data/LTspice/lib'],
           'Qspice': ['C:/Program Files/QSPICE', '~/Documents/QSPICE'], 'XyceSimulator': [], 'NGspiceSimulator': []}
STATES = ['', 'home', 'wine', 'both', 'file', 'other']      # nothing, a folder (of the home, of the wine drive, both), a file, a folder of another user
EXES = ['none', 'native', 'wine', 'alone', 'gone', 'link']


def check_folders(case):
    """The library folders are those that exist, of the home of the user or of the drive of wine that the simulator is in."""
    name, exe, states = case
    from spicelib import AscEditor, QschEditor, SpiceEditor
    from spicelib.simulators import ltspice_simulator, ngspice_simulator, qspice_simulator, xyce_simulator
    root = fresh_dir('inst')
    home, drive = os.path.join(root, 'home'), os.path.join(root, 'some where', '.wine', 'drive_c')
    os.makedirs(home)
    os.makedirs(os.path.join(drive, 'Program Files', 'Sim'))
    exe_file = os.path.join(drive, 'Program Files', 'Sim', 'sim.exe')
    native = os.path.join(root, 'bin', 'sim')
    write(exe_file, 'x')
    write(native, 'x')
    spice = {'none': [], 'native': [native], 'wine': ['wine', exe_file], 'alone': [exe_file], 'gone': ['wine', exe_file[:-4] + '2.exe'], 'link': ['wine', '-x', exe_file]}[exe]
    wine = exe in ('wine', 'alone', 'link')
    want = []
    for f, s in zip(FOLDERS[name], states):
        at = {'home': os.path.join(home, f[2:]) if f[0] == '~' else None,
              'wine': os.path.join(drive, 'users', 'me', f[2:]) if f[0] == '~' else os.path.join(drive, f[3:]),
              'other': os.path.join(drive, 'users', 'you', f[2:])}
        for k in ('home', 'wine', 'other'):
            if at[k] and (s in (k, 'both') and k != 'other' or s == k == 'other'):
                os.makedirs(at[k], exist_ok=True)
        if s == 'file':
            for k in ('home', 'wine'):
                if at[k]:
                    write(at[k], 'x')
        if s in ('wine' if wine else 'home', 'both') and at['wine' if wine else 'home']:
            want.append(os.path.normpath(at['wine' if wine else 'home']))
    cls = {'LTspice': ltspice_simulator.LTspice, 'Qspice': qspice_simulator.Qspice,
           'XyceSimulator': xyce_simulator.XyceSimulator, 'NGspiceSimulator': ngspice_simulator.NGspiceSimulator}[name]

    class Mine(cls):
        spice_exe = spice
    classes = list({c for k in (SpiceEditor, AscEditor, QschEditor) for c in k.__mro__ if c.__module__.startswith('spicelib')})
    kept = keep(classes)
    env = {k: os.environ.get(k) for k in ('HOME', 'USER')}
    os.environ.update(HOME=home, USER='me')
    try:
        got = [os.path.normpath(p) for p in Mine.get_default_library_paths()]
        if got != want:
            raise Violation('folders', f'{name} as {spice}, {dict(zip(FOLDERS[name], states))}: {got}, expected {want}')
        for c in (SpiceEditor, AscEditor, QschEditor):
            c.prepare_for_simulator(Mine)
            if [os.path.normpath(p) for p in c.simulator_lib_paths] != want:
                raise Violation('folders', f'{c.__name__} prepared for {name}: {c.simulator_lib_paths}, expected {want}')
    finally:
        for k, v in env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        put_back(classes, kept)
    return f'folders {len(want)}'


def folders(tier):
    for name in FOLDERS:
        for states in itertools.product(STATES, repeat=len(FOLDERS[name])):
            busy = sum(bool(s) for s in states)
            if busy <= (2 if tier == 'quick' else 3) or len(set(states)) == 1:
                for exe in EXES:
                    yield [name, exe, list(states)]


# ---------------------------------------------------------------- jobs
def spots(tier, kind):
    """Every subset of locations with every way of having the file (thorough: all combinations), every way to set the custom paths."""
    hows = [h for h in itertools.product(HOW, repeat=len(SPOTS)) if tier != 'quick' or len(set(h) - {''}) <= 1 or sum(bool(x) for x in h) <= 2]
    for how in hows:
        for style in STYLES if tier != 'quick' or sum(bool(x) for x in how) <= 2 else STYLES[:1]:
            yield [kind, list(how), style]


# ---------------------------------------------------------------- the model of a symbol and its library
LIBS = ['ModelFile', 'SpiceModel', 'SpiceLine', 'SpiceLine2', 'Def_Sub', 'Value2']     # in order of preference
MODELS = ['Value', 'SpiceModel', 'Value2']     # as well
FILES = ['f.lib', 'F.Sub', 'f.CIR', 'f.txt', 'f.mod', 'f']


def symbols():
    """Attributes of a symbol, in the order of the file: of libraries and of models."""
    for a, fa in itertools.product(LIBS, FILES):
        yield [[a, 'L', fa]]
        for b, fb in itertools.product(LIBS, FILES):
            if a != b:
                yield [[a, 'L', fa], [b, 'L', fb]]
    for a in MODELS:
        yield [[a, 'M', '']]
        for b in MODELS:
            if a != b:
                yield [[a, 'M', ''], [b, 'M', '']]


def check_symbol(case):
    """A cell gets the model and the library that its symbol names."""
    from spicelib import AscEditor
    root = fresh_dir('symbols')
    rows, models, libs = [], {}, {}
    for n, (attr, what, name) in enumerate(case):
        if what == 'L':
            name = f'{n}{name}'
            write(os.path.join(root, name), lib(n + 1))
            libs[attr] = name
        else:
            name = f'amp{n}'
            models[attr] = n + 1
        rows.append(f'SYMATTR {attr} {name}\n')
    if models:
        rows.append('SYMATTR ModelFile all.lib\n')
        write(os.path.join(root, 'all.lib'), ''.join(lib(n + 1).replace('amp', f'amp{n}') for n in range(len(case))))
        want = next(models[a] for a in MODELS if a in models)
    else:
        rows.append('SYMATTR Value amp\n')
        use = next((a for a in LIBS if a in libs and libs[a].lower().endswith(('.lib', '.sub', '.cir', '.txt'))), 'SpiceModel')
        want = int(libs[use][0]) + 1 if use in libs else None      # without a library there is nothing inside
    write(os.path.join(root, 'cell.asy'), 'Version 4\nSymbolType CELL\nSYMATTR Prefix X\n' + ''.join(rows) + PIN)
    top = os.path.join(root, 'top.asc')
    write(top, TOP['asc-lib'])
    old = os.getcwd()
    try:
        os.chdir(root)
        e = AscEditor(top)
        try:
            got = e.get_component_value('X1:R1')
        except Exception:  # how it is reported is not the matter here
            if want is not None:
                raise
            got = None
    finally:
        os.chdir(old)
    if str(got) != str(want):
        raise Violation('symbol', f'symbol with {[r.strip() for r in rows]}: its R1 is {got}, expected {want}')
    return f'symbol {len(case)} {want}'
