"""C09: engineering notation. All bounded numerals and texts against exact rational arithmetic."""
import itertools
import math
import re
from fractions import Fraction as F

from mc.core import Violation

PROPERTY = 'C09'
LEVEL = 'exploration'
RULE = ('format->parse: every mantissa of 3 (thorough 4) digits plus rounding-edge mantissas x decades 1e-22..1e22 x '
        'sign; parse: every numeral form x suffix spelling x unit x spacing, incl. infix form (4k7); '
        'texts: every string up to 4 (thorough 5) over a token alphabet; all operators between numbers with units and numbers, complex numbers and arrays. Non-trivial: distinct texts handled.')
ASSUMPTIONS = ['reference: fractions.Fraction of the decimal digits times the suffix factor; parse compared within 1e-12 relative',
               'suffixes per library documentation: f p n u µ m k M Meg g t %, m/M and f/F are case sensitive',
               'texts with a scientific exponent followed by a suffix letter are outside the claim']

SUFFIX = {'f': F(1, 10**15), 'p': F(1, 10**12), 'P': F(1, 10**12), 'n': F(1, 10**9), 'N': F(1, 10**9),
          'u': F(1, 10**6), 'U': F(1, 10**6), 'µ': F(1, 10**6), 'μ': F(1, 10**6), 'm': F(1, 1000),
          'k': F(1000), 'K': F(1000), 'M': F(10**6), 'Meg': F(10**6), 'MEG': F(10**6), 'meg': F(10**6), 'mEg': F(10**6),
          'MeG': F(10**6), 'G': F(10**9), 'g': F(10**9), 'T': F(10**12), 't': F(10**12), '': F(1), '%': F(1, 100)}
SUFFIX.update({a + b + c: F(10**6) for a in 'mM' for b in 'eE' for c in 'gG'})
UNITS = ['', 'V', 'A', 'Ω', 'H', 'Hz', 's', 'F', 'Ohm', 'W', 'J', 'C']
EDGE = ['9.9999949', '9.9999951', '9.999995', '9.99999', '1.0000004', '1.0000006', '1.00000', '9.9999999999']


def jobs(tier):
    digits = 3 if tier == 'quick' else 4
    js = [['fmt', digits, e] for e in range(-22, 23)]
    js += [['num', tier, s] for s in SUFFIX]
    js += [['txt', 4 if tier == 'quick' else 5, c] for c in ALPHA]
    js += [['unit', tier], ['arith', tier]]
    return js


def close(a, ref):
    return abs(F(a) - ref) <= abs(ref) * F(1, 10**12)


def check_format(v, unit=''):
    from spicelib.utils.float_unit import format_eng, scan_eng, float_unit
    from spicelib.editor.primitives import try_value
    text = format_eng(v)
    back = scan_eng(text)
    tol = F(10) ** (math.floor(math.log10(abs(v))) - 5) * F(50000001, 100000000) if v else F(0)
    if abs(F(back) - F(v)) > tol:
        raise Violation('format-roundtrip', f'format_eng({v!r}) = {text!r} reads back as {back!r}')
    s = str(float_unit(v))
    if abs(F(float(float_unit(s))) - F(v)) > tol:
        raise Violation('float-unit-roundtrip', f'str(float_unit({v!r})) = {s!r} reads back as {float(float_unit(s))!r}')
    t = try_value(text)
    if isinstance(t, str) or abs(F(float(t)) - F(v)) > tol:
        raise Violation('try-value', f'try_value({text!r}) = {t!r}, not {v!r}')
    return text


NUM = re.compile(r'([+-]?)(\d+(?:\.\d*)?|\.\d+)(?:[eE]([+-]?\d+))?')


def reference(text):
    """(value) of a text of the grammar, 'reject' when it cannot be a number, None when outside of the claim."""
    t = text.strip()
    if not t or t[0] not in '0123456789.+-':
        return 'reject'
    m = NUM.match(t)
    if not m:
        return None
    sign = -1 if m.group(1) == '-' else 1
    rest = t[m.end():]
    num = F(m.group(2) if not m.group(2).endswith('.') else m.group(2) + '0')
    if m.group(3) is not None:
        if not rest or (rest[0] in 'VAHsWJC' and rest.isalpha()):
            return sign * num * F(10) ** int(m.group(3))
        return None
    r = rest.lstrip(' ')
    for suf in sorted(SUFFIX, key=len, reverse=True):
        if suf and r.startswith(suf):
            tail = r[len(suf):]
            d = re.match(r'\d*', tail).group()
            if d:
                if '.' in m.group(2):
                    return None
                num = F(m.group(2) + '.' + d)
                tail = tail[len(d):]
            tail = tail.strip()
            return sign * num * SUFFIX[suf] if tail == '' or tail.isalpha() else None
    if r[:1] in ('R', 'r'):
        d = re.match(r'\d*', r[1:]).group()
        if d and '.' not in m.group(2):
            num = F(m.group(2) + '.' + d)
        elif d:
            return None
        return sign * num if r[1 + len(d):] in ('',) else None
    if r == '' or (r[0] in UNITSTART and r.isalpha()):
        return sign * num
    return None


UNITSTART = 'VAHsFWJCΩO'


def check_text(text):
    from spicelib.utils.float_unit import scan_eng, to_float, float_unit, UnitError
    from spicelib.editor.primitives import try_value
    ref = reference(text)
    try:
        got = scan_eng(text)
    except (ValueError, UnitError):
        got = 'reject'
    if ref is None:
        return 'outside' if got == 'reject' else 'outside-number'
    if ref == 'reject':
        if got != 'reject':
            raise Violation('accepts-non-number', f'scan_eng({text!r}) = {got!r}')
        if to_float(text) != text or not isinstance(to_float(text), str):
            raise Violation('non-number-changed', f'to_float({text!r}) = {to_float(text)!r}')
        try:
            to_float(text, accept_invalid=False)
        except (ValueError, UnitError):
            pass
        else:
            raise Violation('accepts-non-number', f'to_float({text!r}, accept_invalid=False) accepted')
        tv = try_value(text)
        if not isinstance(tv, (str, complex)):
            raise Violation('accepts-non-number', f'try_value({text!r}) = {tv!r}')
        return 'reject'
    if got == 'reject':
        raise Violation('rejects-number', f'scan_eng({text!r}) rejected, expected {float(ref)!r}')
    if not close(got, ref):
        raise Violation('wrong-value', f'scan_eng({text!r}) = {got!r}, expected {float(ref)!r}')
    tf = to_float(text)
    if isinstance(tf, str) or not close(float(tf), ref):
        raise Violation('wrong-value', f'to_float({text!r}) = {tf!r}, expected {float(ref)!r}')
    if str(tf) != text.strip():
        raise Violation('text-changed', f'str(to_float({text!r})) = {str(tf)!r}')
    fu = float_unit(text)
    if not close(float(fu.clean()), ref):
        raise Violation('wrong-value', f'float_unit({text!r}).clean() = {fu!r}')
    return 'number'


ALPHA = ['1', '0', '.', '-', '+', 'e', 'E', 'k', 'm', 'M', 'u', 'G', 'R', 'V', 'x', ' ', '_']


def numerals(tier):
    ints = ['0', '1', '4', '10', '47', '100', '330', '999', '1000']
    fr = ['', '.', '.0', '.5', '.07', '.333']
    for i in ints:
        for f in fr:
            yield i + f
    for f in ('.5', '.047', '.1'):
        yield f
    if tier != 'quick':
        for i in range(11, 100):
            yield str(i)
            yield f'{i // 10}.{i % 10}'


def run_job(job, rec):
    kind = job[0]
    if kind == 'fmt':
        _, digits, e = job
        lo = 10 ** (digits - 1)
        mants = [f'{m // lo}.{m % lo:0{digits - 1}d}' for m in range(lo, 10 * lo)] + EDGE
        for m in mants:
            for s in ('', '-'):
                v = float(f'{s}{m}e{e}')
                text = rec.run(['fmt', v], check_format, v)
                rec.case('format ' + re.sub(r'[\d.+-]', '', text or ''))
                rec.state(text)
        rec.sample({'format': v, 'text': text})
    elif kind == 'num':
        _, tier, suf = job
        for n in numerals(tier):
            for sign in ('', '-', '+'):
                for sp in ('', ' ', '  '):
                    for unit in UNITS:
                        if (suf == '' and unit == 'F') or (suf == '%' and unit):
                            pass
                        t = f'{sign}{n}{sp}{suf}{unit}'
                        rec.case(rec.run(['txt', t], check_text, t))
                        rec.state(t)
                        rec.case(rec.run(['txt', f' {t} '], check_text, f' {t} '))
                if '.' not in n and suf not in ('%',):
                    for d in ('0', '5', '07', '333'):
                        for s2 in ([suf] if suf else ['R', 'r']):
                            t = f'{sign}{n}{s2}{d}'
                            rec.case(rec.run(['txt', t], check_text, t))
                            rec.state(t)
                if suf == '':
                    for ex in ('e3', 'E-9', 'e+12', 'E0', 'e-15', 'E6'):
                        for unit in ('', 'V', 'A', 'H'):
                            t = f'{sign}{n}{ex}{unit}'
                            rec.case(rec.run(['txt', t], check_text, t))
                            rec.state(t)
        rec.sample({'text': t})
    elif kind == 'txt':
        _, n, c = job
        for k in range(0, n):
            for tail in itertools.product(ALPHA, repeat=k):
                t = c + ''.join(tail)
                rec.case(rec.run(['txt', t], check_text, t))
                rec.state(t)
        rec.sample({'text': t})
    elif kind == 'arith':
        arith(rec)
    elif kind == 'unit':
        for e in range(-15, 15):
            for m in ('1', '1.5', '2.2', '4.7', '9.99', '123', '999.9995'):
                for u in ('Ω', 'V', 'A', 'F', 'H', 'W', 'C', 'J', 's', 'Hz'):
                    rec.run(['unit', m, e, u], check_unit, m, e, u)
                    rec.case('unit')


def check_unit(m, e, u):
    from spicelib.utils.float_unit import float_unit
    x = float_unit(float(f'{m}e{e}'), u)
    s = str(x)
    y = float_unit(s)
    if not (y.unit == x.unit == u) or abs(float(y) - float(x)) > 1e-5 * abs(float(x)):
        raise Violation('unit-roundtrip', f'float_unit({m}e{e}, {u!r}) prints {s!r}, reads back {float(y)!r} {y.unit!r}')


UNITS_SHOWN = {'R': 'Ω', 'Ω': 'Ω', 'V': 'V', 'A': 'A', 'F': 'F', 'H': 'H', 'W': 'W', 'C': 'C', 'J': 'J', 's': 's', 'K': 'K', 'Hz': 'Hz', '%': '%', '°C': '°C', 'DEG': '°',
               'RAD': 'rad', 'ARMS': 'Arms', 'VRMS': 'Vrms', 'Volts': 'V', 'Volt': 'V', 'Ohms': 'Ω', 'Amperes': 'A', 'seconds': 's', 'Hertz': 'Hz'}


def check_set_unit(text, u):
    from spicelib.utils.float_unit import float_unit
    x = float_unit(text)
    x.unit = u
    if x.unit != UNITS_SHOWN[u] or not str(x).endswith(UNITS_SHOWN[u]) or float(x) != float(float_unit(text)):
        raise Violation('set unit', f'{text!r} with unit {u!r} prints {str(x)!r}, its unit is {x.unit!r}')
    number = str(x)[:-len(UNITS_SHOWN[u])]
    if abs(float(float_unit(number)) - float(x)) > 1e-5 * abs(float(x)):
        raise Violation('set unit', f'{text!r} with unit {u!r} prints {str(x)!r}')


OPERANDS = {'2': 2, '0': 0, '-3': -3, '2.5': 2.5, 'true': True, '1j': 1j, '2-3j': 2 - 3j, 'inf': math.inf, 'None': None, 'list': [1], 'tuple': ()}
ARRAYS = {'f8': [1.0, 2.5], 'i8': [1, -2, 3], 'one': [4.0], 'c': [1j, 2], 'empty': [], '2d': [[1.0, 2.0], [3.0, 4.0]]}
TEXTS = ['1k', '4.7uF', '-2m', '0', '3meg', '1e-9', '-0.5', '10V']
BINARY = ['add', 'sub', 'mul', 'truediv', 'pow', 'mod', 'floordiv', 'eq', 'ne', 'lt', 'le', 'gt', 'ge']


def check_arith(text, kind, other, op, swap):
    """A number with a unit computes as the float it is."""
    import operator
    import numpy as np
    from spicelib.utils.float_unit import float_unit
    x = float_unit(text)
    if kind == 'unit':
        o, plain = float_unit(other), float(float_unit(other))
    elif kind == 'array':
        o = plain = np.array(ARRAYS[other])
    elif kind == 'numpy':
        o = plain = getattr(np, other.split()[0])(other.split()[1])
    else:
        o = plain = OPERANDS[other]
    f = getattr(operator, op)

    def outcome(a, b):
        try:
            with np.errstate(all='ignore'):
                return f(b, a) if swap else f(a, b)
        except (TypeError, ZeroDivisionError, OverflowError) as e:
            return type(e)
    got, want = outcome(x, o), outcome(float(x), plain)
    if isinstance(want, type) or isinstance(got, type):
        same = got is want
    elif isinstance(want, np.ndarray):
        same = isinstance(got, np.ndarray) and got.shape == want.shape and bool(np.all((got == want) | ((got != got) & (want != want))))
    else:
        same = not isinstance(got, np.ndarray) and (got == want or got != got and want != want)
    if not same:
        raise Violation('arithmetic', f'{op} of float_unit({text!r}) and {o!r} (swapped: {swap}) is {got!r}, {want!r} for the float')
    if hash(x) != hash(float(x)) or {x: 1}.get(float(x)) != 1 or len({x, float_unit(text)}) != 1:
        raise Violation('hash', f'float_unit({text!r}) is not the key {float(x)!r}')
    if x != text or not x == text or x == 'abc' or x == '':
        raise Violation('equality', f'float_unit({text!r}) compared with its text')


def arith(rec):
    for text in TEXTS:
        for op in BINARY:
            for kind, others in (('number', OPERANDS), ('unit', TEXTS), ('array', ARRAYS), ('numpy', ['int64 3', 'float64 -1.5'])):
                for other in others:
                    for swap in (False, True):
                        if kind == 'numpy' and op == 'pow':     # of a negative number: nan or complex
                            continue
                        case = ['arith', text, kind, other, op, swap]
                        rec.run(case, check_arith, *case[1:])
                        rec.case('arithmetic')
                        rec.state(case)
        for u in UNITS_SHOWN:
            rec.run(['set', text, u], check_set_unit, text, u)
            rec.case('set unit')


def replay(case, rec):
    if case[0] in ('arith', 'set'):
        {'arith': check_arith, 'set': check_set_unit}[case[0]](*case[1:])
        return
    if case[0] == 'fmt':
        check_format(case[1])
    elif case[0] == 'unit':
        check_unit(*case[1:])
    else:
        check_text(case[1])
