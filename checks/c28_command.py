"""C28: command lines of the simulators, with a recording process launcher. No process is ever started."""
import itertools
import os
import subprocess
from pathlib import Path

from mc import sched
from mc import simharness as H
from mc.core import Violation, fresh_dir

PROPERTY = 'C28'
LEVEL = 'exploration'
RULE = ('switch validation: every switch of the documentation of the four simulators x spelling (4) x parameters (valid, invalid), '
        'default switches, unknown ones; command composition: every ordered list of up to 2 (thorough 3) validated switches x netlist name '
        'x loader x timeout x working directory x console log x compatibility mode x exit code, for run and create_netlist; '
        'SimRunner: every history of up to 3 (thorough 4) of {add switch, add switch with file, clear, run, run with its own switches, '
        'run_now} under every schedule with at most one preemption. Non-trivial: distinct command lines.')
ASSUMPTIONS = ['the process launcher (subprocess.run) is replaced by a recorder: the simulators are not installed here',
               'linux; LTspice is run under wine (Z: in front of the netlist)',
               'a switch that needs a parameter is given one (what happens without is not specified)',
               'an invalid parameter may be refused by an exception or by an empty list']

# switch -> parameter kind: None (no parameter), 'glue' (attached), or lists of (valid, invalid) values
ANY = (['p.txt', 'a b/c.txt'], [])
INT = (['3', '12'], ['x', '1.5'])
TABLE = {
    'LTspice': {'-alt': None, '-ascii': None, '-big': None, '-encrypt': None, '-fastaccess': '-FastAccess', '-FixUpSchematicFonts': None,
                '-FixUpSymbolFonts': None, '-ini': ANY, '-I': 'glue', '-max': None, '-netlist': None, '-norm': None, '-PCBnetlist': None,
                '-SOI': None, '-sync': None},
    'NGspiceSimulator': {'-c': ANY, '--circuitfile': ANY, '-D': (['filetype=ascii', 'debug', 'x=a b'], []), '--define': (['y=1', 'flag'], []),
                         '-i': None, '--interactive': None, '-n': None, '--no-spiceinit': None, '-q': None, '--completion': None,
                         '--soa-log': ANY, '-s': None, '--server': None, '-t': ANY, '--term': ANY},
    'Qspice': {'-ASCII': None, '-ascii': '-ASCII', '-binary': None, '-BSIM1': None, '-Meyer': None, '-ProtectSelections': ANY,
               '-ProtectSubcircuits': ANY, '-r': ANY},
    'XyceSimulator': {'-capabilities': None, '-license': None, '-param': 'words', '-doc': 'words', '-doc_cat': 'words', '-count': None,
                      '-syntax': None, '-norun': None, '-namesfile': ANY, '-noise_names_file': ANY, '-quiet': None, '-jacobian_test': None,
                      '-hspice-ext': (['all', 'units'], []), '-redefined_params': (['ignore', 'usefirst', 'uselast', 'warn', 'error'], ['x']),
                      '-subckt_multiplier': (['true', 'false'], ['1']), '-local_variation': (['true', 'false'], ['maybe']),
                      '-delim': (['TAB', 'COMMA', ';'], []), '-o': ANY, '-per-processor': None, '-remeasure': ANY,
                      '-nox': (['on', 'off'], ['true']), '-linsolv': (['klu'], []), '-maxord': INT, '-max-warnings': INT, '-prf': ANY,
                      '-rsf': ANY, '-a': None, '-randseed': INT, '-plugin': (['a,b'], [])},
}
DEFAULTS = {'LTspice': ['-Run', '-b'], 'NGspiceSimulator': ['-b', '-o', '-r', '-a', '--batch', '--output', '--rawfile', '--autorun'],
            'Qspice': ['-o'], 'XyceSimulator': ['-l', '-r']}
UNKNOWN = ['-zz', '--', '-runs', '-x=1', 'netlist.net', '-h', '-uninstall']


def sims():
    from spicelib.simulators import ltspice_simulator, ngspice_simulator, qspice_simulator, xyce_simulator
    return {'LTspice': ltspice_simulator.LTspice, 'NGspiceSimulator': ngspice_simulator.NGspiceSimulator,
            'Qspice': qspice_simulator.Qspice, 'XyceSimulator': xyce_simulator.XyceSimulator}


def want_switch(switch, kind, param):
    if kind is None:
        return [switch]
    if isinstance(kind, str) and kind[0] == '-':
        return [kind]
    if kind == 'glue':
        return [switch + param]
    if kind == 'words':
        return [switch] + param.split()
    return [switch, param]


def params(kind):
    """[(parameter, valid)]"""
    if kind is None or (isinstance(kind, str) and kind[0] == '-'):
        return [('', True)]
    if kind == 'glue':
        return [('/tmp/lib', True), ('C:/a b', True)]
    if kind == 'words':
        return [('', True), ('R', True), ('R 1 inst', True)]
    return [(p, True) for p in kind[0]] + [(p, False) for p in kind[1]]


def check_switch(case):
    name, switch, spelled, param, valid = case
    cls = sims()[name]
    kind = TABLE[name][switch]
    for n in range(2):   # a second enquiry gives the same answer, whatever was done with the first one
        try:
            got = cls.valid_switch(spelled, param) if param != '' or n else cls.valid_switch(spelled)
        except ValueError:
            if valid:
                raise Violation('refused', f'{name}.valid_switch({spelled!r}, {param!r}) refused')
            return 'refused'
        if not valid:
            if got:
                raise Violation('invalid-accepted', f'{name}.valid_switch({spelled!r}, {param!r}) = {got}')
            return 'refused'
        want = want_switch(switch, kind, param)
        if got != want:
            raise Violation('switch', f'{name}.valid_switch({spelled!r}, {param!r}) = {got}, expected {want} (enquiry {n})')
        got.append('-garbage')
        got[0] = '-other'
    return 'ok'


def check_refused(case):
    name, switch, may_raise = case
    cls = sims()[name]
    try:
        got = cls.valid_switch(switch, 'p=1')
    except ValueError:
        if not may_raise:
            raise Violation('raise', f'{name}.valid_switch({switch!r}) raises')
        return 'refused'
    if got or may_raise == 'must':
        raise Violation('not-refused', f'{name}.valid_switch({switch!r}) = {got}')
    return 'empty'


class Launch:
    """Stand-in of subprocess.run: records, creates the files asked for, returns or raises as told."""

    def __init__(self, code=0, create=None, timeout=False):
        self.calls = []
        self.code, self.create, self.timeout = code, create, timeout

    def __call__(self, command, timeout=None, stdout=None, stderr=None, cwd=None, **kw):
        self.calls.append(dict(command=list(command), timeout=timeout, stdout=getattr(stdout, 'name', stdout), stderr=stderr, cwd=cwd, kw=kw))
        for p in self.create or ():
            Path(p).write_text('x')
        if self.timeout:
            raise subprocess.TimeoutExpired(command, timeout)
        return subprocess.CompletedProcess(command, self.code)


class Launcher:
    def __init__(self, rec):
        self.rec = rec

    def __enter__(self):
        self.old = subprocess.run
        subprocess.run = self.rec
        return self.rec

    def __exit__(self, *exc):
        subprocess.run = self.old


EXES = ['one', 'sp ace', 'loader']


def exe_of(kind, folder):
    """Creates the executable -> (argument of create_from, expected beginning of the command)."""
    exe = Path(folder) / ('my sim' if kind == 'sp ace' else 'sim.exe')
    exe.write_text('')
    if kind == 'loader':
        wine = Path(folder) / 'wine'
        wine.write_text('')
        return f"{wine} '{folder}/C drive/sim.exe'", [str(wine), f'{folder}/C drive/sim.exe']
    return (exe if kind == 'one' else str(exe)), [str(exe)]


NETS = ['c.net', 'a b.net', 'c.v1.cir', 'sub/c.net', 'C']


def check_run(case):
    name, switches, form, net, exek, timeout, cwd, exe_log, mode, code = case
    cls = sims()[name]

    class Mine(cls):   # create_from works on the class it is called on
        pass
    folder = fresh_dir('cmd')
    os.makedirs(folder + '/sub')
    arg, exe = exe_of(exek, folder)
    if Mine.create_from(arg) is not Mine:
        raise Violation('create_from', f'{arg!r}')
    if name == 'NGspiceSimulator' and mode != 'default':
        Mine.set_compatibility_mode(mode)
    netlist = f'{folder}/{net}'
    given = list(switches) if form == 'list' else switches[0] if form == 'str' else None
    kw = dict(cmd_line_switches=given, timeout=timeout, exe_log=exe_log, cwd=cwd and folder)
    if not exe_log:
        kw['stdout'] = subprocess.DEVNULL
    keep = list(given) if isinstance(given, list) else given
    with Launcher(Launch(code, timeout=code == 'timeout')) as launch:
        try:
            got = Mine.run(Path(netlist) if timeout else netlist, **kw)
        except subprocess.TimeoutExpired:
            got = 'timeout'
    if got != code:
        raise Violation('retcode', f'{case}: {got!r}')
    if given != keep:
        raise Violation('argument-changed', f'{case}: the list of switches given is now {given}')
    if len(launch.calls) != 1:
        raise Violation('launches', f'{case}: {launch.calls}')
    c = launch.calls[0]
    cmd = [str(a) for a in c['command']]
    stem = netlist[:netlist.rindex('.')] if '.' in os.path.basename(netlist) else netlist
    if name == 'LTspice':
        want = exe + ['-Run', '-b', 'Z:' + netlist] + list(switches)
    elif name == 'Qspice':
        want = exe + ['-o', stem + '.log', netlist] + list(switches)
    elif name == 'XyceSimulator':
        want = exe + list(switches) + ['-l', stem + '.log', '-r', stem + '.raw', netlist]
    else:
        comp = 'kiltpsa' if mode == 'default' else mode
        want = exe + list(switches) + (['-D', f'ngbehavior={comp}'] if comp else []) + ['-b', '-o', stem + '.log', '-r', stem + '.raw', netlist]
    if sorted(cmd) != sorted(want) or cmd[:len(exe)] != exe:
        raise Violation('command', f'{case}: {cmd}, expected {want}')
    pairs = [want[i:i + 2] for i in range(len(want)) if want[i] in ('-o', '-l', '-r', '-D') and i >= len(exe)]
    for p in pairs:
        if p not in [cmd[i:i + 2] for i in range(len(cmd) - 1)]:
            raise Violation('command', f'{case}: {p} is not in {cmd}')
    if name in ('NGspiceSimulator', 'XyceSimulator'):
        if cmd[-1] != netlist:
            raise Violation('order', f'{case}: the netlist has to be the last argument: {cmd}')
    k = len(switches)
    if list(switches) not in [cmd[i:i + k] for i in range(len(cmd) - k + 1)]:
        raise Violation('order', f'{case}: switches {switches} are not together in the order given: {cmd}')
    if c['timeout'] != timeout:
        raise Violation('timeout', f'{case}: process given the timeout {c["timeout"]}')
    if (c['cwd'] and str(c['cwd'])) != kw['cwd']:
        raise Violation('cwd', f'{case}: {c["cwd"]}')
    if exe_log:
        if c['stdout'] != stem + '.exe.log' or c['stderr'] != subprocess.STDOUT:
            raise Violation('exe_log', f'{case}: {c}')
    elif c['stdout'] != subprocess.DEVNULL:
        raise Violation('stdout', f'{case}: {c}')
    return f'{name} {len(cmd)}'


def check_netlist(case):
    switches, form, net, exe_log, code, made = case

    class Mine(sims()['LTspice']):
        pass
    folder = fresh_dir('cmd')
    arg, exe = exe_of('one', folder)
    Mine.create_from(arg)
    circuit = f'{folder}/{net}'
    out = circuit[:circuit.rindex('.')] + '.net'
    os.makedirs(os.path.dirname(circuit), exist_ok=True)
    given = list(switches) if form == 'list' else switches[0] if form == 'str' else None
    with Launcher(Launch(code, create=[out] if made else None)) as launch:
        try:
            got = Mine.create_netlist(circuit, given, timeout=5, exe_log=exe_log)
        except RuntimeError:
            got = None
    if (str(got) if got else None) != (out if code == 0 and made else None):
        raise Violation('netlist', f'{case}: {got}')
    c = launch.calls[0]
    if c['command'] != exe + ['-netlist', circuit] + list(switches) or c['timeout'] != 5 or len(launch.calls) != 1:
        raise Violation('command', f'{case}: {launch.calls}')
    return 'netlist'


def check_missing(name):
    """Without executable nothing is launched."""
    from spicelib.sim.simulator import SpiceSimulatorError

    class Mine(sims()[name]):
        spice_exe = []
    folder = fresh_dir('cmd')
    for exe in ([], [folder + '/none'], ['no-such-exe-xyz']):
        Mine.spice_exe = exe
        with Launcher(Launch()) as launch:
            try:
                Mine.run(folder + '/c.net')
            except SpiceSimulatorError:
                pass
            else:
                raise Violation('missing', f'{name}: ran without executable {exe}')
        if launch.calls or Mine.is_available():
            raise Violation('missing', f'{name}: {exe} {launch.calls}')
    for arg in (folder + '/none', Path(folder) / 'none', folder.replace('/', '\\') + '\\none', 'no-such-exe-xyz -x'):
        try:
            Mine.create_from(arg)
        except FileNotFoundError:
            continue
        raise Violation('missing', f'{name}: create_from({arg!r}) accepted')
    return 'missing'


# ---------------------------------------------------------------- switches of the runner
OPS = ['add', 'addfile', 'clear', 'run', 'runown', 'now']


def make_history(name, ops):
    def make():
        folder = Path(fresh_dir('run'))
        cls = sims()[name]
        Mine = type('Mine', (cls,), {'spice_exe': [str(folder / 'sim.exe')], 'process_name': 'no-such-process-xyz'})
        (folder / 'sim.exe').write_text('')
        calls = {}

        def launch(command, timeout=None, **kw):
            n = next(a for a in command if str(a).endswith('.net'))
            calls[Path(n).stem] = (list(command), timeout)
            base = Path(str(n)[2:] if str(n).startswith('Z:') else n)
            base.with_suffix(Mine.raw_extension).write_text('raw')
            base.with_suffix('.log').write_text('log')
            return subprocess.CompletedProcess(command, 0)

        def body():
            old = subprocess.run
            subprocess.run = launch
            try:
                r = H.SimRunner(simulator=Mine, parallel_sims=2, timeout=7, output_folder=str(folder / 'out'))
                cur, want, k = [], {}, 0
                for op in ops:
                    k += 1
                    if op == 'add':
                        r.add_command_line_switch(f'-s{k}')
                        cur.append(f'-s{k}')
                    elif op == 'addfile':
                        r.add_command_line_switch(f'-f{k}', f'file {k}')
                        cur += [f'-f{k}', f'file {k}']
                    elif op == 'clear':
                        r.clear_command_line_switches()
                        cur = []
                    else:
                        net = H.netlist(folder, f'j{k}')
                        own = [f'-o{k}', 'x'] if op == 'runown' else None
                        if op == 'now':
                            r.run_now(net, timeout=3, run_filename=f'n{k}.net')
                        else:
                            given = list(own) if own else None
                            r.run(net, switches=given, run_filename=f'n{k}.net')
                            if given is not None:
                                given.append('-later')
                        want[f'n{k}'] = (own or list(cur), 3 if op == 'now' else 7)
                r.wait_completion()
                return calls, want, folder
            finally:
                subprocess.run = old
        return body
    return make


def judge_history(name, ops, v):
    calls, want, folder = v
    if set(calls) != set(want):
        raise Violation('runner-launches', f'{name} {ops}: launched {sorted(calls)}, expected {sorted(want)}')
    fixed = {'LTspice': 4, 'Qspice': 4, 'XyceSimulator': 6, 'NGspiceSimulator': 9}[name]
    for n, (sw, timeout) in want.items():
        cmd, t = calls[n]
        k = len(sw)
        if len(cmd) != fixed + k or sw not in [cmd[i:i + k] for i in range(len(cmd) - k + 1)]:
            raise Violation('runner-switches', f'{name} {ops}: {n} was launched with {cmd}, its switches are {sw}')
        if t != timeout:
            raise Violation('runner-timeout', f'{name} {ops}: {n} has the timeout {t}, requested {timeout}')


def history(name, ops, rec, bound):
    def judged(s, v, choices):
        rec.case()
        rec.step(s.points)
        rec.count('schedules')
        while choices and choices[-1] == 0:
            choices = choices[:-1]

        def check():
            if isinstance(v, sched.Stuck):
                raise Violation(v.kind, v.msg)
            if isinstance(v, Exception):
                raise v
            judge_history(name, ops, v)
        rec.run(['hist', name, list(ops), choices, bool(bound)], check)
    rec.trace(sched.explore(make_history(name, ops), judged, bound, H.SIM_FILES))
    rec.state(['hist', name, ops])


# ---------------------------------------------------------------- jobs
def jobs(tier):
    out = [['switch', n] for n in TABLE]
    for n in TABLE:
        m = len(switch_values(n))
        out += [['run', tier, n, i] for i in range(m + 1)]
    out += [['netlist', tier]]
    for n in TABLE if tier != 'quick' else ['XyceSimulator', 'LTspice']:
        out += [['hist', tier, n, a, b] for a in OPS for b in OPS]
    return out


def switch_values(name):
    out = []
    for s, kind in TABLE[name].items():
        p = [x for x, ok in params(kind) if ok][-1]
        out.append(want_switch(s, kind, p))
    return out


def run_job(job, rec):
    if job[0] == 'switch':
        name = job[1]
        for s, kind in TABLE[name].items():
            spelled = {s, s.lstrip('-') if not s.startswith('--') else s, f' {s}', f'{s}\t '}
            for sp in sorted(spelled):
                for p, ok in params(kind):
                    case = [name, s, sp, p, ok]
                    rec.case(rec.run(['sw', case], check_switch, case))
                    rec.state(case)
        for s in DEFAULTS[name]:
            for sp in (s, s[1:] if not s.startswith('--') else s, f' {s} '):
                case = [name, sp, 'may']
                rec.case(rec.run(['ref', case], check_refused, case))
        for s in UNKNOWN:
            case = [name, s, 'must']
            rec.case(rec.run(['ref', case], check_refused, case))
        for s in (None, '', '  '):
            case = [name, s, '']
            rec.case(rec.run(['ref', case], check_refused, case))
        rec.case(rec.run(['missing', name], check_missing, name))
        rec.run(['ngb', name], check_ngbehavior, name)
        rec.sample({'simulator': name, 'switches': len(TABLE[name])})
    elif job[0] == 'run':
        _, tier, name, i = job
        values = switch_values(name)
        if i == len(values):
            lists = [((), 'none'), ((), 'list')]
        else:
            a = values[i]
            lists = [(a, 'list')] + ([(a, 'str')] if len(a) == 1 else [])
            lists += [(a + b, 'list') for b in values]
            if tier != 'quick':
                lists += [(a + b + c, 'list') for b in values for c in values[::4]]
        for sw, form in lists:
            full = len(sw) < 2 or tier != 'quick'
            for net in NETS if full else NETS[:3:2]:
                for exek in EXES if full else EXES[:1]:
                    for timeout, cwd, exe_log in (((None, False, False), (4.5, True, True), (600, True, False), (0.5, False, True))
                                                  if full else ((4.5, True, True),)):
                        for mode in (('default', 'hs', None) if name == 'NGspiceSimulator' and full else ('default',)):
                            for code in ((0, 1, -11, 'timeout') if full and net == NETS[0] else (0,)):
                                case = [name, list(sw), form, net, exek, timeout, cwd, exe_log, mode, code]
                                rec.case(rec.run(['run', case], check_run, case))
                                rec.state(case[:5])
        rec.sample({'run': case})
    elif job[0] == 'netlist':
        vals = switch_values('LTspice')
        for sw, form in [((), 'none'), ((), 'list')] + [(v, 'list') for v in vals] + [(v, 'str') for v in vals if len(v) == 1] + \
                [(a + b, 'list') for a in vals for b in vals]:
            for net in ('c.asc', 'a b.v1.asc', 'U.ASC', 'r.asc.d/c.v.asc'):
                for exe_log in (False, True):
                    for code, made in ((0, True), (0, False), (1, True), (1, False)):
                        case = [list(sw), form, net, exe_log, code, made]
                        rec.case(rec.run(['net', case], check_netlist, case))
                        rec.state(case)
    else:
        _, tier, name, a, b = job
        for rest in [()] + [(o,) for o in OPS] + ([(o, p) for o in OPS for p in OPS] if tier != 'quick' else []):
            ops = (a, b) + rest
            if any(o in ('run', 'runown', 'now') for o in ops):
                history(name, ops, rec, 0)
                if len(ops) < 4 and ops[-1] not in ('now',) and sum(o in ('run', 'runown') for o in ops) <= (1 if tier == 'quick' else 2):
                    history(name, ops, rec, 1)
        rec.sample({'history': ops})


def check_ngbehavior(name):
    """-D ngbehavior is set by the library, unless its compatibility mode is switched off."""
    if name != 'NGspiceSimulator':
        return

    class Mine(sims()[name]):
        pass
    for mode in ('hs', None, 'kiltpsa'):
        Mine.set_compatibility_mode(mode)
        got = Mine.valid_switch('-D', 'ngbehavior=ps')
        if got != ([] if mode else ['-D', 'ngbehavior=ps']):
            raise Violation('ngbehavior', f'compatibility mode {mode}: {got}')


def replay(case, rec):
    kind, case = case[0], case[1:]
    rec.case()
    if kind == 'hist':
        name, ops, choices, traced = case
        s, v = sched.run_schedule(make_history(name, tuple(ops)), tuple(choices), H.SIM_FILES if traced else ())

        def check():
            if isinstance(v, sched.Stuck):
                raise Violation(v.kind, v.msg)
            if isinstance(v, Exception):
                raise v
            judge_history(name, ops, v)
        rec.run(['hist'] + case, check)
    else:
        fn = {'sw': check_switch, 'ref': check_refused, 'run': check_run, 'net': check_netlist, 'missing': check_missing, 'ngb': check_ngbehavior}[kind]
        rec.run([kind] + case, fn, case[0])
