"""Independent reader of SPICE netlist text, used as reference by the netlist checks (nothing of spicelib is used)."""
import functools
import re
from fractions import Fraction

SUFFIX = {'t': 12, 'g': 9, 'meg': 6, 'k': 3, 'm': -3, 'u': -6, 'µ': -6, 'n': -9, 'p': -12, 'f': -15}
NUM = re.compile(r'([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)([a-zA-Zµ]*)$')


@functools.lru_cache(maxsize=4096, typed=True)
def num(s):
    """Exact value of a SPICE number, None when it is not one."""
    if isinstance(s, bool) or s is None:
        return None
    if isinstance(s, (int, float)):
        return Fraction(repr(float(s))) if not isinstance(s, int) else Fraction(s)
    m = NUM.match(s.strip())
    if not m:
        return None
    v = Fraction(m.group(1))
    suf = m.group(2).lower()
    if suf.startswith('meg'):
        return v * 10 ** 6
    if suf[:1] in SUFFIX:
        return v * Fraction(10) ** SUFFIX[suf[:1]]
    return v


def same_value(a, b):
    """Two values (number or text) denote the same thing."""
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return abs(na - nb) <= abs(nb) * Fraction(1, 10 ** 9)
    return str(a).strip() == str(b).strip()


def split_comment(line):
    """(code, comment) of one physical line; ';' inside quotes or braces does not start a comment."""
    depth, q = 0, False
    for i, ch in enumerate(line):
        if ch == '"':
            q = not q
        elif not q and ch in '{([':
            depth += 1
        elif not q and ch in '})]':
            depth -= 1
        elif ch == ';' and not q and depth <= 0:
            return line[:i], line[i + 1:].strip()
    return line, ''


def statements(text):
    """Logical lines: list of (code, comment). Comment lines and blank lines are ('', text)."""
    out = []
    for line in text.replace('\r\n', '\n').replace('\r', '\n').split('\n'):
        s = line.strip()
        if not s:
            continue
        if s[0] == '*' or s[0] == ';' or s[0] == '#':
            out.append(['', s])
            continue
        code, comment = split_comment(s)
        if s[0] == '+' and out:
            for prev in reversed(out):
                if prev[0]:
                    break
            prev[0] = prev[0].rstrip() + ' ' + code[1:].strip()
            prev[1] = (prev[1] + ' ' + comment).strip()
        else:
            out.append([code.strip(), comment])
    # several comments of one statement may be written with or without the ';' between them, in any order
    return [(c, ' '.join(sorted(k.replace(';', ' ').split())) if c else k) for c, k in out]


def tokens(code):
    """Blank separated tokens; brackets and quotes group; 'k = v' and 'k= v' become 'k=v'; lists 'a, b' become 'a,b'."""
    out, cur, depth, q = [], '', 0, None
    for ch in code:
        if q:
            cur += ch
            if ch == q:
                q = None
        elif ch in '"\'':
            q = ch
            cur += ch
        elif ch in '{([':
            depth += 1
            cur += ch
        elif ch in '})]':
            depth -= 1
            cur += ch
        elif ch.isspace() and depth <= 0:
            if cur:
                out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    joined = []
    for t in out:
        if joined and (t[0] in '=,' and t not in ('==',) or joined[-1][-1:] in ('=', ',')):
            joined[-1] += t
        else:
            joined.append(t)
    return joined


NODES = {'R': 2, 'C': 2, 'L': 2, 'V': 2, 'I': 2, 'D': 2, 'B': 2, 'E': 4, 'G': 4, 'F': 2, 'H': 2, 'J': 3, 'T': 4, 'S': 4,
         'W': 2, 'Z': 3, 'O': 4}


FLAGS = ('noiseless',)   # the library writes noiseless=True when it rewrites a line (imposed by its own golden files)


class Stmt:
    """kind: 'elem', 'param', 'other' (directive), 'comment'. pos: positional tokens, kv: ordered dict."""

    def __init__(self, code, comment):
        self.code, self.comment = code, comment
        self.kv = {}
        self.pos = []
        if not code:
            self.kind = 'comment'
            return
        tk = tokens(code)
        head = tk[0]
        if head[0] == '.':
            self.kind = 'param' if head.lower() in ('.param', '.params') else 'other'
            if self.kind == 'other':
                self.pos = [head.lower()] + tk[1:]
                return
            self.pos = ['.param']
        else:
            self.kind = 'elem'
            self.pos = [head.upper().replace('§', '')]
        it = iter(tk[1:])
        prev_pos = None
        for t in it:
            m = re.match(r'([A-Za-z_]\w*)=(?!=)(.*)$', t, re.S)
            if m and m.group(1).lower() in FLAGS and m.group(2) == 'True':
                self.pos.append(m.group(1))
            elif m:
                self.kv[m.group(1)] = m.group(2)
            elif self.kind == 'param':
                if prev_pos is not None:       # '.param a 1'
                    self.kv[prev_pos] = t
                    prev_pos = None
                else:
                    prev_pos = t
            elif t.lower() != 'params:':
                self.pos.append(t)

    @property
    def ref(self):
        return self.pos[0] if self.kind == 'elem' else None

    def key(self):
        """Canonical content (letter case of names kept; numbers kept as written)."""
        return (self.kind, tuple(self.pos), tuple(sorted(self.kv.items())), self.comment)


def read(text):
    return [Stmt(c, k) for c, k in statements(text)]


def same_stmt(a, b):
    """Same statement; values compared as numbers when they are numbers. Returns '' or what differs."""
    if a.kind != b.kind:
        return f'kind {a.kind} / {b.kind}'
    if a.kind == 'comment':
        return '' if a.comment == b.comment else f'comment {a.comment!r} / {b.comment!r}'
    if len(a.pos) != len(b.pos) or any(not same_value(x, y) for x, y in zip(a.pos, b.pos)):
        return f'tokens {a.pos} / {b.pos}'
    ka, kb = a.kv, b.kv
    if a.kind == 'param':      # names of circuit parameters are not case sensitive
        ka, kb = ({k.upper(): v for k, v in x.items()} for x in (ka, kb))
    if set(ka) != set(kb):
        return f'parameters {sorted(ka)} / {sorted(kb)}'
    for k in ka:
        if not same_value(ka[k], kb[k]):
            return f'parameter {k}: {ka[k]!r} / {kb[k]!r}'
    if a.comment != b.comment:
        return f'trailing comment {a.comment!r} / {b.comment!r}'
    return ''
