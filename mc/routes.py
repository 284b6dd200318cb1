"""The ways to the same edit: every one leaves the same file and the same answers as the editor's own function."""
import itertools
import os

from . import sheets as S
from .core import Violation

VALUE = {
    'set_component_value': lambda e, r, v: e.set_component_value(r, v),
    'set_component_values': lambda e, r, v: e.set_component_values(**{r: v}),
    'editor item': lambda e, r, v: e.__setitem__(r, v),
    'value': lambda e, r, v: setattr(e[r], 'value', v),
    'value_str': lambda e, r, v: setattr(e[r], 'value_str', v),
    'set_value': lambda e, r, v: e[r].set_value(v),
    'get_component': lambda e, r, v: e.get_component(r).set_value(v),
    **{f'item {k}': (lambda e, r, v, k=k: e[r].__setitem__(k, v)) for k in ('value', 'val', 'v', 'value_str', 'model', 'Value')},
}
PARAMETER = {
    'set_component_parameters': lambda e, r, k, v: e.set_component_parameters(r, **{k: v}),
    'set_parameters': lambda e, r, k, v: e[r].set_parameters(**{k: v}),
    'set_params': lambda e, r, k, v: e[r].set_params(**{k: v}),
    'set_parameter': lambda e, r, k, v: e[r].set_parameter(k, v),
    'set_param': lambda e, r, k, v: e[r].set_param(k, v),
    'item': lambda e, r, k, v: e[r].__setitem__(k, v),
    'params': lambda e, r, k, v: setattr(e[r], 'params', {k: v}),
    'get_component': lambda e, r, k, v: e.get_component(r).set_parameter(k, v),
    'clear_parameter': lambda e, r, k, v: e[r].clear_parameter(k) if v is None else e[r].set_param(k, v),
}
CLEAR = {
    'one by one': lambda e, r: [e.set_component_parameters(r, **{k: None}) for k in names(e, r)],
    'all at once': lambda e, r: e.set_component_parameters(r, **{k: None for k in names(e, r)}),
    'clear_parameters': lambda e, r: e[r].clear_parameters(),
    'clear_param': lambda e, r: e[r].clear_param(),
}


def names(e, r):
    return [k for k in e.get_component_parameters(r) if isinstance(k, str) and k not in ('Value',)]


def reads(e, refs):
    """What the editor answers; every way to ask gives the same."""
    out = {}
    for r in refs:
        v, p, c = e.get_component_value(r), {k: x for k, x in e.get_component_parameters(r).items() if k != 'Value'}, e[r]
        out[r] = (v, {str(k): str(x) for k, x in p.items()})
        for how, got in (('value_str', c.value_str), ('get_value_str', c.get_value_str()), ('get_component', e.get_component(r).value_str)):
            if got != v:
                raise Violation('read-route', f'{r}: {how} {got!r}, get_component_value {v!r}')
        for how, got in [('value', c.value), ('get_value', c.get_value())] + [(k, c[k]) for k in ('value', 'val', 'v', 'model', 'Value', 'value_str')]:
            if str(got) != str(c.value):
                raise Violation('read-route', f'{r}: {how} {got!r}, value {c.value!r}')
        for how, got in (('params', c.params), ('get_parameters', c.get_parameters())):
            if {str(k): str(x) for k, x in got.items() if k != 'Value'} != out[r][1]:
                raise Violation('read-route', f'{r}: {how} {got}, get_component_parameters {p}')
        for k in p:
            for how, got in (('get_parameter', c.get_parameter(k)), ('item', c[k]), ('get_component_parameters', e.get_component_parameters(r)[k])):
                if str(got) != str(p[k]):
                    raise Violation('read-route', f'{r}: {how} of {k} {got!r}, expected {p[k]!r}')
        for k in ('nothere', 'x y'):
            for how, f in (('get_parameter', c.get_parameter), ('item', c.__getitem__)):
                try:
                    got = f(k)
                except Exception as ex:
                    if type(ex).__name__ != 'ParameterNotFoundError':
                        raise
                else:
                    raise Violation('read-route', f'{r}: {how} of {k!r} gives {got!r}')
    return out


def perform(e, edit, route):
    if edit[0] == 'value':
        VALUE[route](e, edit[1], edit[2])
    elif edit[0] == 'parameter':
        PARAMETER[route](e, edit[1], edit[2], edit[3])
    else:
        CLEAR[route](e, edit[1])


def routes_of(edit):
    return {'value': VALUE, 'parameter': PARAMETER, 'clear': CLEAR}[edit[0]]


def result(load, save, refs, edits, ways, held):
    e = load()
    h = [e[r] for r in refs] if held else None
    for edit, way in zip(edits, ways):
        perform(e, edit, way)
    out = save(e), reads(e, refs), [(str(u.name), str(u.value), str(u.updates)) for u in e.netlist_updates]
    if held:
        for r, c in zip(refs, h):
            if c.value_str != e.get_component_value(r) or {str(k): str(x) for k, x in c.params.items() if k != 'Value'} != out[1][r][1]:
                raise Violation('held', f'{r}: the component got before the edits answers {c.value_str!r} {dict(c.params)}, the editor {out[1][r]}')
    return out


def judge(load, save, refs, case, cache, rec):
    edits, ways = [tuple(x) for x in case['edits']], case['ways']
    key = repr(edits)
    if key not in cache:
        cache.clear()
        cache[key] = result(load, save, refs, edits, [next(iter(routes_of(x))) for x in edits], False)
    got = result(load, save, refs, edits, ways, case['held'])
    for what, g, w in zip(('saved', 'read', 'updates'), got, cache[key]):
        if g != w:
            raise Violation(f'route-{what}', f'{edits} by {ways}:\n{g}\nby the functions of the editor:\n{w}')
    if rec is not None:
        rec.state([what for what in got[:2]])


def cases(edits, depth):
    """All sequences of up to depth edits, each done in every way (from the second on: two ways each)."""
    for n in range(1, depth + 1):
        for seq in itertools.product(edits, repeat=n):
            ways = [list(routes_of(x)) for x in seq]
            if n > 1:
                for i in range(max(map(len, ways))):
                    yield {'edits': [list(x) for x in seq], 'ways': [w[(i + 3 * j) % len(w)] for j, w in enumerate(ways)], 'held': i % 2}
            else:
                for w in itertools.product(*ways):
                    for held in (0, 1):
                        yield {'edits': [list(x) for x in seq], 'ways': list(w), 'held': held}


def sheets(mod, extra):
    """Load and save for the hierarchical schematics of a module: all files are compared."""
    top, at = next(iter(mod.SHEETS)), {}

    def load():
        at['dir'] = S.write(mod, mod.SHEETS, extra)
        return mod.Editor(os.path.join(at['dir'], top))

    def save(e):
        e.save_netlist(os.path.join(at['dir'], top))
        return '\n'.join(S.content(mod, at['dir'], n) for n in mod.SHEETS)

    return load, save


def blocks(u):
    """Edits of the hierarchical schematics and the components to look at; u: the name of the second block."""
    return (['R1', 'X1:R1', 'X1:C1', u + ':R1', 'X1:X1:R1', u + ':X1:R1', 'X3:R1', 'X3:V1'],
            [('value', 'X1:R1', 4700), ('value', f'{u}:X1:R1', '{x}'), ('value', 'X3:V1', '5'), ('parameter', 'X1:R1', 'tol', '5'), ('parameter', f'{u}:X1:R1', 'temp', 3),
             ('parameter', 'X1:C1', 'Rser', '{y}'), ('parameter', 'X1:R1', 'tol', None), ('clear', 'X1:R1'), ('value', 'R1', '1'), ('value', f'{u}:C1', '2u')])


def jobs(specs, tier):
    return [['routes', name, i, 8, {'quick': 2, 'thorough': 3}[tier]] for name in specs for i in range(8)]


def run(specs, job, rec):
    """A part of the cases of one of the specifications: (load, save, components to look at, edits)."""
    _, name, part, of, depth = job[:5]
    load, save, refs, edits = specs[name]
    cache = {}
    rec.maximum('depth_routes', depth)
    for case in cases(edits, depth):
        if sum(map(ord, repr(case['edits']))) % of != part:
            continue
        case['routes'] = name
        rec.run(case, judge, load, save, refs, case, cache, rec)
        rec.case('routes ' + name)
        rec.trace()
        rec.step(len(case['edits']))


def replay(specs, case):
    load, save, refs, _ = specs[case['routes']]
    judge(load, save, refs, case, {}, None)
