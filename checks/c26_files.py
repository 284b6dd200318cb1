"""C26: encodings and searches of library files."""
import itertools
import os
import zipfile

from mc import locate
from mc.core import Violation, fresh_dir, scratch

PROPERTY = 'C26'
LEVEL = 'exploration'
RULE = ('encodings: every text of up to 4 (thorough 6) tokens of {*, a, 1, space, line ends, µ, °, Ω, 電} in UTF-8 (with and without BOM), '
        'UTF-16 (LE and BE with BOM, LE without) and windows-1252, with and without expected pattern; every kind of file of the '
        'library opened in each encoding. Search: every sequence of up to 2 (thorough 3) locations of {folder, zip, ZIP, missing, folder '
        'named .zip} x content (11), every name asked for, and pairs of searches. Subcircuits: every library of up to 3 of 5 colliding '
        'names x first line (5) x name asked for. Editors: file of each kind (library, include, symbol, schematic of a block) in every subset of 5 locations, '
        'at the top or below, letter case, ways to set the paths; included files in every pair and triple of encodings; encodings given; library folders of every simulator, native and under wine, by what exists of them. Non-trivial: distinct (text, encoding), (locations, name), (library, name).')
ASSUMPTIONS = ['the text is not empty; UTF-16 without BOM starts with a Latin character, like all files of the simulators',
               'windows-1252 text has no character sequences that are valid UTF-8 by chance',
               'folder names in the file asked for have the letter case of the file system',
               'of several files of equal name below one location, the upper one wins, else any of them']

TOK = ['*', 'a', '1', ' ', '\n', '\r\n', 'µ', '°', 'Ω', '電']
ENCS = ['utf-8', 'utf-8-sig', 'utf-16', 'bom-be', 'utf_16_le', 'cp1252']


def encode(text, enc):
    if enc == 'bom-be':
        return b'\xfe\xff' + text.encode('utf_16_be')
    return text.encode(enc)


def put(name, data):
    path = os.path.join(scratch('e'), name)
    with open(path, 'wb') as f:
        f.write(data)
    return path


def decoded(path, enc):
    with open(path, encoding=enc) as f:
        return f.read()


def check_text(case):
    from spicelib.utils.detect_encoding import detect_encoding, EncodingDetectError
    text, enc = case
    path = put('t.txt', encode(text, enc))
    norm = text.replace('\r\n', '\n')
    got = detect_encoding(path)
    if decoded(path, got) != norm:
        raise Violation('decoded', f'{text!r} in {enc}: detected {got}, which reads {decoded(path, got)!r}')
    if encode(text, enc) != open(path, 'rb').read():
        raise Violation('changed', f'{case}')
    for pat, flags in ((r'^\*', 0), ('^A', 2), (r'([\s\S]*)µ', 0)):
        import re
        fits = re.match(pat, norm, flags) is not None
        try:
            got = detect_encoding(path, pat, flags)
        except EncodingDetectError:
            if fits:
                raise Violation('pattern', f'{text!r} in {enc} has {pat!r}, detection failed')
            continue
        if fits and decoded(path, got) != norm:
            raise Violation('decoded', f'{text!r} in {enc} with {pat!r}: detected {got}, which reads {decoded(path, got)!r}')
    return enc


NET = '* µ title °\nR1 in out 10µ\nC1 out 0 {cµ}\n.param cµ=1n\n* comment 25°C\n.end\n'
ASC = ('Version 4\nSHEET 1 880 680\nWIRE 0 0 16 0\nFLAG 0 0 µnet\nTEXT 10 10 Left 2 !.param cµ=1n\nTEXT 10 40 Left 2 ;25°C\n')
LOG = 'Circuit: * µ.asc\n\n.step cµ=1\n.step cµ=2\n\nMeasurement: µm\n  step\tMAX(v(µ))\tFROM\tTO\n     1\t1.5\t0\t1\n     2\t2.5\t0\t1\n\nDate: 25°C\n'
EXP = 'time\tV(µ)\n0\t1.5\n1\t2.5\n'
ASY = 'Version 4\nSymbolType CELL\nSYMATTR Value µ\nSYMATTR Prefix R\nSYMATTR Description 25°C\nPIN 0 0 NONE 0\nPINATTR PinName A\nPINATTR SpiceOrder 1\n'


def check_kind(case):
    """Every reader of the library gets the text, whatever the encoding; what is saved reads the same."""
    kind, enc, eol = case
    if kind == 'net':
        from spicelib import SpiceEditor
        path = put('k.net', encode(NET.replace('\n', eol), enc))
        e = SpiceEditor(path)
        for n in range(2):
            got = e.get_component_value('R1'), e.get_component_value('C1'), e.get_parameter('cµ'), e.get_components()
            if got != ('10µ', '{cµ}', '1n', ['R1', 'C1']):
                raise Violation('netlist', f'{case}: {got}')
            out = os.path.join(scratch('e'), 'k2.net')
            e.save_netlist(out)
            e = SpiceEditor(out)
    elif kind == 'asc':
        from spicelib import AscEditor
        path = put('k.asc', encode(ASC.replace('\n', eol), enc))
        e = AscEditor(path)
        for n in range(2):
            got = e.get_parameter('cµ')
            if got != '1n':
                raise Violation('asc', f'{case}: {got}')
            out = os.path.join(scratch('e'), 'k2.asc')
            e.save_netlist(out)
            e = AscEditor(out)
            text = decoded(out, e.encoding)
            if 'µnet' not in text or '25°C' not in text:
                raise Violation('asc', f'{case}: {text!r}')
    elif kind == 'log':
        from spicelib.log.ltsteps import LTSpiceLogReader
        r = LTSpiceLogReader(put('k.log', encode(LOG.replace('\n', eol), enc)))
        if r['µm'] != [1.5, 2.5] or r['cµ'] != [1, 2]:
            raise Violation('log', f'{case}: {r.dataset}, {r.stepset}')
    elif kind == 'export':
        from spicelib.log.ltsteps import reformat_LTSpice_export
        src = 'time\tV(µ)\nStep Information: R=1  (Run: 1/1)\n0\t1.5\n'
        path = put('k.txt', encode(src.replace('\n', eol), enc))
        out = os.path.join(scratch('e'), 'k.tsv')
        reformat_LTSpice_export(path, out)
        from spicelib.utils.detect_encoding import detect_encoding
        text = decoded(out, detect_encoding(out))
        if text != 'Run\tR\ttime\tV(µ)\n1\t1\t0\t1.5\n':
            raise Violation('export', f'{case}: {text!r}')
    elif kind == 'asy':
        from spicelib.editor.asy_reader import AsyReader
        r = AsyReader(put('k.asy', encode(ASY.replace('\n', eol), enc)))
        if r.get_value() != 'µ':
            raise Violation('asy', f'{case}: {r.get_value()}')
    elif kind == 'lib':
        from spicelib import SpiceEditor
        put('k.lib', encode('* µ library\n.subckt amp a b\nR1 a b 7µ\n.ends\n'.replace('\n', eol), enc))
        e = SpiceEditor(put('k.net', b'* t\nX1 1 2 amp\n.lib k.lib\n.end\n'))
        if e['X1:R1'].value_str != '7µ':
            raise Violation('lib', f'{case}: {e["X1:R1"].value_str}')
    return f'{kind} {enc}'


# ---------------------------------------------------------------- search
CONTENTS = [(), ('a.lib',), ('A.LIB',), ('a.lib', 'A.LIB'), ('A.lib', 'a.LIB'), ('sub/a.lib',), ('sub/A.lib', 'b.lib'), ('sub/deep/a.lib',),
            ('sub/a.lib', 'a.lib'), ('other/a.lib', 'sub/b.lib'), ('aa.lib', 'a.lib.bak', 'xa.lib', 'sub/xa.lib', 'xsub/b.lib')]
KINDS = ['dir', 'zip', 'ZIP', 'dir.zip', 'missing']
QUERIES = ['a.lib', 'A.LIB', 'b.lib', 'sub/a.lib', 'sub/A.LIB', 'none.lib']


def build(root, slot, kind, content):
    """Creates the location -> its path."""
    n = f'{slot}-{kind}-{content}'
    path = {'dir': n, 'zip': n + '.zip', 'ZIP': n + '.ZIP', 'dir.zip': n + 'd.zip', 'missing': n}[kind]
    path = os.path.join(root, path)
    files = CONTENTS[content]
    if kind in ('dir', 'dir.zip'):
        os.makedirs(path)
        for f in files:
            os.makedirs(os.path.dirname(os.path.join(path, f)), exist_ok=True)
            with open(os.path.join(path, f), 'w') as h:
                h.write(f'{n}:{f}')
    elif kind != 'missing':
        with zipfile.ZipFile(path, 'w') as z:
            for f in files:
                z.writestr(f, f'{n}:{f}')
    return path


def matches(files, query):
    """The acceptable files of a location."""
    folder, base = os.path.split(query)
    found = [f for f in files if os.path.basename(f).lower() == base.lower() and (not folder or f.startswith(folder + '/'))]
    top = [f for f in found if os.path.dirname(f) == folder]
    exact = [f for f in top if os.path.basename(f) == base]
    return exact or top or found


def wanted(seq, query):
    for slot, (kind, content) in enumerate(seq):
        m = [] if kind == 'missing' else matches(CONTENTS[content], query)
        if m:
            return [f'{slot}-{kind}-{content}:{f}' for f in m]
    return None


_built = {}


def place(seq):
    root = os.path.join(scratch(), 'places')
    os.makedirs(root, exist_ok=True)
    out = []
    for slot, (kind, content) in enumerate(seq):
        key = (slot, kind, content)
        if key not in _built:
            _built[key] = build(root, slot, kind, content)
        out.append(_built[key])
    return out


def check_search(seq, queries):
    from spicelib.utils.file_search import search_file_in_containers
    os.chdir(scratch('cwd'))
    paths = place(seq)
    got = []
    for q in queries:
        want = wanted(seq, q)
        path = search_file_in_containers(q, *paths)
        if (path is None) != (want is None):
            raise Violation('found', f'{seq}, {q}: {path}, expected {want}')
        if path is not None:
            got.append((path, want, q))
    for path, want, q in got:   # earlier results stay what they were
        text = open(path).read()
        if text not in want:
            raise Violation('wrong-file', f'{seq}, {q}: {path} holds {text}, expected {want}')
    return len(got)


def check_later(pair):
    """Two searches in different locations: the file found first stays."""
    from spicelib.utils.file_search import search_file_in_containers
    os.chdir(scratch('cwd'))
    root = fresh_dir('later')
    a = [build(fresh_dir(f'later/{n}'), 0, kind, content) for n, (kind, content) in enumerate(pair)]
    for n, (path, (kind, content)) in enumerate(zip(a, pair)):   # same names, other contents
        if kind in ('zip', 'ZIP'):
            with zipfile.ZipFile(path, 'w') as z:
                for f in CONTENTS[content]:
                    z.writestr(f, f'{n}:{f}')
        elif kind != 'missing':
            for f in CONTENTS[content]:
                with open(os.path.join(path, f), 'w') as h:
                    h.write(f'{n}:{f}')
    del root
    for q in QUERIES:
        found = [search_file_in_containers(q, p) for p in a]
        for n, (p, (kind, content)) in enumerate(zip(found, pair)):
            want = [f'{n}:{f}' for f in matches(CONTENTS[content], q)] if kind != 'missing' else []
            if (p is None) == bool(want) or (p and open(p).read() not in want):
                raise Violation('earlier-file', f'{pair}, {q}: the file found in location {n} holds {p and open(p).read()}, expected {want}')
    return 'later'


# ---------------------------------------------------------------- subcircuits of libraries
SUBS = ['amp', 'amp2', 'AMPX', 'amp.x', 'ampqx']
FIRST = ['* library', '', '.subckt dummy a b\nR1 a b 1\n.ends', '$ comment', '.param x=1']


def check_lib(case):
    from spicelib import SpiceEditor
    names, first, ask, two = case
    d = fresh_dir('lib')
    text = first + '\n'
    for k, n in enumerate(names):
        text += f'.subckt {n} a b\nR1 a b {k + 1}\n.ends {n}\n'
    with open(d + '/one.lib', 'w') as f:
        f.write('* one\n.subckt other a b\nR1 a b 99\n.ends\n' if two else text)
    with open(d + '/two.lib', 'w') as f:
        f.write(text)
    with open(d + '/c.net', 'w') as f:
        f.write(f'* t\nX1 1 2 {ask}\n.lib one.lib\n' + ('.inc "two.lib"\n' if two == 'inc' else '.lib two.lib\n' if two else '') + '.end\n')
    e = SpiceEditor(d + '/c.net')
    want = [k + 1 for k, n in enumerate(names) if n.lower() == ask.lower()]
    try:
        got = e['X1:R1'].value_str
    except Exception:  # how a missing subcircuit is reported is not the matter here
        got = None
    if got != (str(want[0]) if want else None):
        raise Violation('subcircuit', f'{case}: value of X1:R1 is {got}, expected {want}')
    return 'found' if want else 'none'


def jobs(tier):
    n = 4 if tier == 'quick' else 6
    out = [['text', e, t, n] for e in ENCS for t in range(len(TOK))]
    out += [['kind'], ['include'], ['given'], ['symbol']] + [['folders', tier, k] for k in range(4)] + [['spots', tier, k] for k in locate.KINDS]
    locs = [(k, c) for k in KINDS for c in range(len(CONTENTS)) if k != 'missing' or c == 0]
    out += [['search', tier, i] for i in range(len(locs))]
    out += [['lib', tier, i] for i in range(len(FIRST))] + [['later', i] for i in range(len(CONTENTS))]
    return out


def run_job(job, rec):
    kind = job[0]
    if kind == 'text':
        _, enc, t, n = job
        for k in range(n):
            for rest in itertools.product(TOK, repeat=k):
                text = TOK[t] + ''.join(rest)
                if enc == 'utf_16_le' and text[0] in 'Ω電':
                    continue
                try:
                    encode(text, enc)
                except UnicodeEncodeError:
                    continue
                case = [text, enc]
                rec.case(rec.run(['text', case], check_text, case))
                rec.state(case)
        rec.sample({'text': text, 'encoding': enc})
    elif kind == 'kind':
        for k in ('net', 'asc', 'log', 'export', 'asy', 'lib'):
            for enc in ENCS:
                for eol in ('\n', '\r\n'):
                    case = [k, enc, eol]
                    rec.case(rec.run(['kind', case], check_kind, case))
                    rec.state(case)
    elif kind == 'include':
        for case in locate.includes():
            rec.case(rec.run(['include', case], locate.check_include, case))
            rec.state(case)
        rec.sample({'encodings': case})
    elif kind == 'given':
        for k in ('net', 'asc', 'asy', 'log'):
            for enc in ENCS:
                for eol in ('\n', '\r\n'):
                    case = [k, enc, eol]
                    rec.case(rec.run(['given', case], locate.check_given, case))
                    rec.state(case)
    elif kind == 'symbol':
        for case in locate.symbols():
            rec.case(rec.run(['symbol', case], locate.check_symbol, case))
            rec.state(case)
        rec.sample({'attributes': case})
    elif kind == 'spots':
        for case in locate.spots(*job[1:]):
            rec.case(rec.run(['spots', case], locate.check_spots, case))
            rec.state(case)
        rec.sample({'kind, locations, style': case})
    elif kind == 'folders':
        for n, case in enumerate(locate.folders(job[1])):
            if n % 4 == job[2]:
                rec.case(rec.run(['folders', case], locate.check_folders, case))
                rec.state(case)
        rec.sample({'simulator, executable, folders': case})
    elif kind == 'search':
        _, tier, i = job
        locs = [(k, c) for k in KINDS for c in range(len(CONTENTS)) if k != 'missing' or c == 0]
        seqs = [[locs[i]]] + [[locs[i], b] for b in locs]
        if tier != 'quick':
            small = [x for x in locs if x[0] != 'ZIP']
            seqs += [[locs[i], b, c] for b in small for c in small]
        for seq in seqs:
            rec.case(rec.run(['search', [seq, QUERIES]], check_search, seq, QUERIES))
            rec.state(seq)
        rec.sample({'locations': seqs[-1]})
    elif kind == 'later':
        for k1 in KINDS[:4]:
            for k2 in KINDS[:4]:
                for c2 in range(len(CONTENTS)):
                    case = [[k1, job[1]], [k2, c2]]
                    rec.case(rec.run(['later', case], check_later, case))
                    rec.state(case)
    else:
        _, tier, i = job
        for r in range(0, 4 if tier == 'quick' else 5):
            for names in itertools.permutations(SUBS, r):
                for ask in SUBS + ['AMP', 'am']:
                    for two in (False, 'lib', 'inc'):
                        case = [list(names), FIRST[i], ask, two]
                        rec.case(rec.run(['lib', case], check_lib, case))
                        rec.state(case)
        rec.sample({'library': names, 'asked': ask})


def replay(case, rec):
    kind, c = case
    rec.case()
    if kind == 'search':
        rec.run(case, check_search, [tuple(x) for x in c[0]], c[1])
    elif kind == 'later':
        rec.run(case, check_later, [tuple(x) for x in c])
    else:
        rec.run(case, {'text': check_text, 'kind': check_kind, 'lib': check_lib, 'include': locate.check_include, 'given': locate.check_given, 'symbol': locate.check_symbol, 'folders': locate.check_folders, 'spots': locate.check_spots}[kind], c)
