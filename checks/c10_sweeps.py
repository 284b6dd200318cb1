"""C10: sweep iterators against exact rational arithmetic."""
import itertools
import math
from fractions import Fraction as F

from mc.core import Violation

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = ('every (start, stop, step|count) over the grids below for sweep, sweep_n, sweep_log, sweep_log_n, 1 and 2 '
        'argument forms, int and float arguments, each iterated twice and once after a partial iteration and through '
        'next(). Non-trivial: distinct argument tuples with at least 2 points.')
ASSUMPTIONS = ['arguments are decimal numbers; the reference computes with their exact decimal value',
               'points compared within 1e-9 relative to the largest argument',
               'normalisation as documented: step sign/size gives direction when it can, a positive step counts down when stop<start, '
               'a negative step with start<stop counts down from stop']
LIMIT = 5000


def take(it, n=LIMIT):
    out = []
    for v in it:
        out.append(v)
        if len(out) > n:
            raise Violation('endless', f'more than {n} points')
    return out


def dec(x):
    return F(str(x)) if not isinstance(x, F) else x


def ref_sweep(start, stop, step):
    a, b, s = dec(start), dec(stop), dec(step)
    if s < 0 and a < b:
        a, b = b, a
    elif s > 0 and b < a:
        s = -s
    n = int((b - a) / s) + 1 if a != b else 1
    return [a + k * s for k in range(n)]


def ref_sweep_log(start, stop, step):
    a, b, s = dec(start), dec(stop), dec(step)
    if a < b and s < 1:
        a, b = b, a
    elif b < a and s > 1:
        s = 1 / s
    out = [a]
    up = s > 1
    while True:
        v = out[-1] * s
        if (up and v > b) or (not up and v < b):
            return out
        out.append(v)


def same(got, ref, what):
    scale = max([abs(float(r)) for r in ref] + [1e-300])
    if len(got) != len(ref):
        raise Violation('point-count', f'{what}: {len(got)} points {got[:3]}..{got[-2:]}, expected {len(ref)} '
                                       f'{[float(r) for r in ref[:3]]}..{[float(r) for r in ref[-2:]]}')
    for g, r in zip(got, ref):
        if abs(F(float(g)) - r) > F(scale) * F(1, 10**9):
            raise Violation('point-value', f'{what}: {g!r} instead of {float(r)!r} in {got[:8]}')


def rel_same(got, ref, what):
    if len(got) != len(ref):
        raise Violation('point-count', f'{what}: {len(got)} points {got[:3]}..{got[-2:]}, expected {len(ref)} '
                                       f'{[float(r) for r in ref[:3]]}..{[float(r) for r in ref[-2:]]}')
    for g, r in zip(got, ref):
        if abs(float(g) - float(r)) > abs(float(r)) * 1e-9:
            raise Violation('point-value', f'{what}: {g!r} instead of {float(r)!r} in {got[:8]}')


def all_ways(make, cmp, ref, what):
    obj = make()
    cmp(take(obj), ref, what)
    cmp(take(obj), ref, what + ' (iterated again)')
    it = iter(obj)
    for _ in range(min(2, len(ref))):
        next(it)
    cmp(take(obj), ref, what + ' (restarted)')
    fresh = make()
    got = []
    for _ in range(len(ref)):
        try:
            got.append(next(fresh))
        except StopIteration:
            break
    cmp(got, ref, what + ' (next)')
    try:
        extra = next(fresh)
    except StopIteration:
        pass
    else:
        raise Violation('beyond-stop', f'{what}: extra point {extra!r}')
    cmp(take(iter(iter(make()))), ref, what + ' (iter of iter)')
    return len(ref)


def run_case(kind, args, rec=None):
    from spicelib.utils import sweep_iterators as si
    what = f'{kind}{tuple(args)}'
    if kind == 'sweep':
        ref = ref_sweep(*args)
        n = all_ways(lambda: si.sweep(*args), same, ref, what)
    elif kind == 'sweep1':
        ref = ref_sweep(0, args[0], 1)
        n = all_ways(lambda: si.sweep(args[0]), same, ref, what)
        all_ways(lambda: si.sweep(0, args[0]), same, ref, what)
    elif kind == 'sweep_n':
        a, b, c = dec(args[0]), dec(args[1]), args[2]
        ref = [a + (b - a) * k / (c - 1) for k in range(c)]
        n = all_ways(lambda: si.sweep_n(*args), same, ref, what)
    elif kind == 'sweep_log':
        ref = ref_sweep_log(*args)
        n = all_ways(lambda: si.sweep_log(*args), rel_same, ref, what)
    elif kind == 'sweep_log1':
        ref = ref_sweep_log(1, args[0], 10)
        n = all_ways(lambda: si.sweep_log(args[0]), rel_same, ref, what)
    elif kind == 'sweep_log_n':
        a, b, c = args
        ref = [float(a) * math.exp(math.log(b / a) * k / (c - 1)) for k in range(c)]
        n = all_ways(lambda: si.sweep_log_n(*args), rel_same, ref, what)
    elif kind == 'never':  # arguments that cannot reach the end: empty or refused, never endless
        name, a = args
        try:
            take(getattr(si, name)(*a))
        except (AssertionError, ValueError, ZeroDivisionError, TypeError, OverflowError):
            return 0
        return 0
    return n


def num(i, d):
    """i/d as the user would write it: an int when it is one."""
    return i // d if i % d == 0 else i / d


def grid(tier):
    q = tier == 'quick'
    r = 15 if q else 30
    for a in range(-r, r + 1):
        yield ['lin', a, r, 10, [1, 2, 3, 5, 7, 10] if q else [1, 2, 3, 4, 5, 6, 7, 9, 10, 25]]
        yield ['lin', a, r, 1, [1, 2, 3, 7] if q else [1, 2, 3, 4, 5, 7, 11]]
        if not q:
            yield ['lin', a, r, 100, [1, 3, 7, 11]]
            yield ['lin', a, 20, 1000000, [1, 3, 7]]
        yield ['n', a, r, 10, [2, 3, 4, 5, 7, 11] if q else list(range(2, 21))]
    for e in range(-6, 7):
        yield ['log', e, tier]
    yield ['never']


def jobs(tier):
    return list(grid(tier))


def do(rec, kind, args):
    n = rec.run([kind, args], run_case, kind, args, seconds=20)
    rec.case(f'{kind}:{n}')
    if n and n > 1:
        rec.state([kind, repr(args)])


def run_job(job, rec):
    if job[0] == 'lin':
        _, a, r, d, steps = job
        for b in range(-r, r + 1):
            for s in steps:
                for sg in (1, -1):
                    do(rec, 'sweep', [num(a, d), num(b, d), num(sg * s, d)])
        do(rec, 'sweep1', [num(a, d)])
        rec.sample(['sweep', num(a, d), num(b, d), num(s, d)])
    elif job[0] == 'n':
        _, a, r, d, counts = job
        for b in range(-r, r + 1):
            if a != b:
                for c in counts:
                    do(rec, 'sweep_n', [num(a, d), num(b, d), c])
                    do(rec, 'sweep_n', [num(a, 1), num(b, 1), c])
    elif job[0] == 'log':
        _, e, tier = job
        a = float(f'1e{e}')
        for e2 in range(-6, 7):
            for m in (1, 2, 3, 11):
                b = float(f'{m}e{e2}')
                for s in (10, 2, 5, 100, 1.5, 0.1, 0.5):
                    do(rec, 'sweep_log', [a, b, s])
                for base in (2, 5):
                    x, y = float(base) ** e, float(base) ** e2
                    do(rec, 'sweep_log', [x, y, base])
                for c in (2, 3, 6, 11):
                    do(rec, 'sweep_log_n', [a, b, c])
        do(rec, 'sweep_log1', [a])
        do(rec, 'sweep_log1', [11 * a])
        rec.sample(['sweep_log', a, b, s])
    else:
        V = (-10, -1, 0, 1, 10, 0.5)
        for a, b in itertools.product(V, V):
            for s in (0, 1, -1, 2, 0.5, -0.5, 10):
                for name in ('sweep', 'sweep_log'):
                    do(rec, 'never', [name, [a, b, s]])
            for c in (0, 1, 2, 3):
                for name in ('sweep_n', 'sweep_log_n'):
                    do(rec, 'never', [name, [a, b, c]])


def replay(case, rec):
    run_case(*case)
