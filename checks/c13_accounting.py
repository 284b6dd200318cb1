"""C13: every accepted launch runs once, on its own netlist, and is delivered once, complete; the counters add up."""
import itertools
import os

from mc import sched  # noqa: F401
from mc import scenario
from mc import simharness as H
from mc.core import Violation, fresh_dir

PROPERTY = 'C13'
LEVEL = 'exploration'
RULE = ('all schedules with at most D deviations (see C12) of launches collected by iteration, tasks(), handles, waiting, '
        'interleaved launching and collecting, run_now; D=0 over limit 1..3 x 1..4 simulations x durations x outcome x way of '
        'collecting, D=1 (quick) / D=2 (thorough) on chosen scenarios; equal and colliding source names, editors as source, '
        'all sequences of up to 3 (4) runner settings and launches (switches, time limits, callback arguments, simulator), the given lists '
        'and dictionaries used again; handles polled all the time; the answer of waiting; filters by dict and function. Non-trivial: distinct (scenario, context switches, end time).')
ASSUMPTIONS = ['one user thread drives the runner (the server threads are covered by C16)',
               'preemption inside a source line is not explored',
               'run_filename is not used twice by the caller']


def judge(sc, o):
    w = o.world
    accepted = [x for x in o.launch if x['task'] is not None]
    names = [x['job'] for x in accepted]
    starts = [s[0] for s in w.starts]
    for n in names:
        if starts.count(n) != 1:
            raise Violation('runs', f'job {n} was simulated {starts.count(n)} times')
    if len(starts) != len(names):
        raise Violation('runs', f'simulated {starts}, accepted {names}')
    files = [s[1] for s in w.starts]
    if len(set(files)) != len(files):
        raise Violation('same-file', f'two simulations on one netlist: {files}')
    tmo = sc.get('timeout', 10)
    ok = [n for n in names if scenario.expected(o.plan[n], o.plan[n].get('timeout', tmo))[0]]
    nok, nfail, runno = o.counts
    if nok != len(ok) or nok + nfail != len(names) or runno != len(o.launch):
        raise Violation('counters', f'okSim={nok} failSim={nfail} runno={runno}; succeeded {ok} of {names}')
    if sorted(o.completed) != sorted({x['task'].runno for x in accepted}):
        raise Violation('completed-list', f'{o.completed} for runs {[x["task"].runno for x in accepted]}')
    for x in accepted:
        t = x['task']
        i = o.info.get(t.runno)
        if i is None or i['retcode'] != t.retcode or i['netlist_file'] != t.netlist_file \
                or i['start_time'] != t.start_time or i['stop_time'] != t.stop_time:
            raise Violation('sim-info', f'run {t.runno}: {i}')
        own = scenario.retcode_of(o.plan[x['job']], o.plan[x['job']].get('timeout', tmo))
        if t.retcode != own:
            raise Violation('retcode', f"{x['job']}: {t.retcode}, simulator gave {own}")
        if (H.RAW_HEAD + x['job']) not in (t.raw_file.read_text() if t.raw_file is not None and t.raw_file.exists()
                                           else H.RAW_HEAD + x['job']):
            raise Violation('mixed-up', f"run of {x['job']} has the raw file of another one")
    nbad = len(names) - len(ok)
    for x in o.waits + [dict(value=o.settled, pending=0, timeout=None)]:
        if x['value'] not in (True, False) or (x['value'] and (x['pending'] or (nbad and x.get('timeout') is None))):
            raise Violation('outcome', f"wait_completion answered {x['value']}: {nbad} of {len(names)} failed, {x['pending']} not over")
    if bool(o.settled) != (nbad == 0):
        raise Violation('outcome', f'wait_completion answered {o.settled} at the end: {nbad} of {len(names)} failed')
    if sc['collect'] == 'poll':
        for n, v in o.polled:
            if v is not None and v != o.handles[n]:
                raise Violation('early-result', f'{n}: get_results gave {v} while the task was running, finally {o.handles[n]}')
    if sc['collect'] in ('iter', 'tasks', 'waititer', 'mid', 'handle', 'now'):
        want = []
        for n in ok:
            e = scenario.expected(o.plan[n], o.plan[n].get('timeout', tmo))
            want.append((n, e))
        got = [c[0] for c in o.collected]
        for n, e in want:
            cb = o.plan[n].get('cb')
            if cb is not None and (not e[2] or cb in ('raise', 'procdie')):
                continue  # delivers None
            if not e[1]:
                continue  # outputs missing: C14
            if got.count(n) != 1:
                raise Violation('delivered', f'result of {n} delivered {got.count(n)} times: {o.collected}')
        if sc['collect'] != 'handle' and len(got) != len(want):
            raise Violation('delivered-count', f'{len(got)} results for {len(want)} successes: {o.collected}')
        for n, v, comp in o.collected:
            if n is not None and o.plan[n].get('mode', 'ok') == 'ok' and not comp:
                raise Violation('incomplete', f'result of {n} handed out before its files are complete: {v}')
            if n is not None and n not in ok and sc['collect'] != 'handle':
                raise Violation('failed-delivered', f'{n} failed but {v} was delivered')


MODES = ['ok', 'fail', 'neg', 'crash']


def scenarios0(tier):
    out = []
    for p in (1, 2, 3):
        for n in (1, 2, 3):
            for spec in itertools.product([(d, m) for d in (0, 0.35, 2.5) for m in ('ok', 'fail')], repeat=n):
                for way in ('iter', 'waititer', 'handle', 'mid', 'tasks', 'poll') if n < 3 or tier == 'thorough' else ('iter', 'mid'):
                    out.append(dict(p=p, jobs=[dict(dur=d, mode=m) for d, m in spec], collect=way))
    for ms in itertools.product(MODES, repeat=4 if tier == 'thorough' else 3):
        out.append(dict(p=2, jobs=[dict(dur=d, mode=m) for d, m in zip((0.35, 0, 1, 0), ms)], collect='iter'))
        out.append(dict(p=2, jobs=[dict(dur=d, mode=m) for d, m in zip((0.35, 0, 1, 0), ms)], collect='now'))
    for cbs in itertools.product((None, 'func', 'slow', 'raise', 'kw'), repeat=3):
        for way in ('iter', 'handle', 'mid', 'poll'):
            out.append(dict(p=2, timeout=60, jobs=[dict(dur=d, cb=c) for d, c in zip((0.35, 0, 0), cbs)], collect=way))
    for tmo in (1, 3):
        for ds in itertools.product((0.3, 2, 5), repeat=2):
            out.append(dict(p=1, timeout=tmo, jobs=[dict(dur=d) for d in ds], collect='wait'))
    return out


def scenarios1(tier):
    out = [dict(p=2, jobs=[dict(dur=0.35), dict(dur=0), dict(dur=0, mode='fail')], collect='iter'),
           dict(p=2, jobs=[dict(dur=0), dict(dur=0.2)], collect='mid'),
           dict(p=3, jobs=[dict(dur=0), dict(dur=0), dict(dur=0)], collect='tasks'),
           dict(p=2, jobs=[dict(dur=0, cb='func'), dict(dur=0.2, cb='func')], collect='iter'),
           dict(p=1, jobs=[dict(dur=0, cb='func'), dict(dur=0.2, mode='crash')], collect='handle'),
           dict(p=2, jobs=[dict(dur=0.35), dict(dur=0)], collect='now'),
           dict(p=2, jobs=[dict(dur=0.2), dict(dur=0, mode='fail')], collect='poll'),
           dict(p=2, jobs=[dict(dur=0, cb='func'), dict(dur=0, cb='slow')], collect='poll')]
    if tier == 'thorough':
        out += [dict(p=p, jobs=[dict(dur=d, cb=c) for d, c in zip(ds, cs)], collect=way) for p in (1, 2, 3)
                for ds in ((0, 0.35, 0), (0.35, 0.35, 0)) for cs in ((None,) * 3, ('func', None, 'slow'))
                for way in ('iter', 'mid', 'handle', 'poll')]
    return out


def scenarios2(tier):
    if tier != 'thorough':
        return []
    return [dict(p=2, jobs=[dict(dur=0), dict(dur=0.2)], collect='mid'),
            dict(p=2, jobs=[dict(dur=0), dict(dur=0, mode='fail')], collect='iter'),
            dict(p=2, jobs=[dict(dur=0, cb='func'), dict(dur=0.2)], collect='iter'),
            dict(p=3, jobs=[dict(dur=0), dict(dur=0), dict(dur=0)], collect='tasks'),
            dict(p=1, jobs=[dict(dur=0, cb='func'), dict(dur=0)], collect='handle')]


def jobs(tier):
    out = []
    for sc in scenarios2(tier):
        out += [dict(sc=sc, bound=2, shard=i, of=24) for i in range(24)]
    for sc in scenarios1(tier):
        out += [dict(sc=sc, bound=1, shard=i, of=2) for i in range(2)]
    s0 = scenarios0(tier)
    out += [dict(scs=s0[i:i + 60]) for i in range(0, len(s0), 60)]
    out += [dict(names=i) for i in range(8)]
    out += [dict(settings=[i, 16, 4 if tier == 'thorough' else 3]) for i in range(16)]
    return out


# ------------------------------------------------------------- names, editors and filters (default schedule)
SOURCES = ['a.net', 'a_1.net', 'sub/a.net', 'sub/a_1.net', 'a.b.net', 'a.cir', 'ED:a.net', 'ED:sub/a.net', 'ASC:b.asc', 'ED2:a.net']


def names_case(picks, out, rec):
    """Launches of equally named sources; editors are changed in between and shared."""
    from pathlib import Path
    from spicelib.editor.spice_editor import SpiceEditor
    from spicelib.editor.asc_editor import AscEditor
    d = Path(fresh_dir('nm'))
    (d / 'sub').mkdir()
    os.chdir(d)  # without output folder, editors are saved in the working directory

    def body():
        w = H.new_world({}, d)
        r = H.SimRunner(simulator=H.FakeSim, parallel_sims=2, output_folder=str(d / 'out') if out else None)
        eds = {}
        runs = []
        for k, s in enumerate(picks):
            kind, _, rel = s.rpartition(':')
            p = d / rel
            tag = f"n{k}"
            if kind == 'ASC':
                p.write_text('Version 4\nSHEET 1 880 680\nTEXT 0 0 Left 2 !.op\nTEXT 0 40 Left 2 ;job=x\n')
                e = eds.setdefault(s, None) or AscEditor(p)
                eds[s] = e
                e.set_parameter('tag', 100 + k)
                src = e
            elif kind:
                if s not in eds:
                    p.write_text('* job=x\nR1 a 0 1k\n.param tag=0\n.op\n.end\n')
                    eds[s] = SpiceEditor(p)
                e = eds[s]
                if kind == 'ED2':
                    e.set_component_value('R1', f'{k + 1}k')
                e.set_parameter('tag', 100 + k)
                src = e
            else:
                p.write_text(f'* job=x\nR1 a 0 1k\n.param tag={100 + k}\n.op\n.end\n')
                src = p if k % 2 else str(p)
            t = r.run(src)
            runs.append((t, 100 + k, s))
        # edits made after the launch do not belong to it
        for e in eds.values():
            if e is not None:
                e.set_parameter('tag', 999)
        r.wait_completion()
        return r, w, runs, eds
    s, v = sched.run_schedule(lambda: body, (), H.SIM_FILES)
    if isinstance(v, Exception):
        raise v
    r, w, runs, eds = v
    files = [str(t.netlist_file) for t, _, _ in runs]
    if len(set(files)) != len(files):
        raise Violation('same-file', f'{files}')
    if r.okSim != len(runs) or len(w.starts) != len(runs):
        raise Violation('counters', f'{r.okSim} {r.failSim} of {len(runs)}')
    import re
    for t, tag, src in runs:
        text = t.netlist_file.read_text()
        m = re.search(r'tag\s*=\s*(\d+)', text)
        if not m or int(m.group(1)) != tag:
            raise Violation('wrong-content', f'{src}: launched with tag {m and m.group(1)}, wanted {tag}')
        if 'E' in src.split(':')[0] or src.startswith('ASC'):
            if t.edits is None or int(t.edits.parameter('tag')) != tag:
                raise Violation('edits', f"{src}: edits of the launch say {t.edits and t.edits.parameter('tag')}, launched with {tag}")
    # filters
    tags = list(dict.fromkeys(t.edits.parameter('tag') for t, _, src in runs if ':' in src))
    for f, want in filters(tags):
        want = {int(x) for x in want}
        if callable(f):
            got = sorted(t.runno for t in r.tasks(f))
        else:
            got = sorted(t.runno for t in r.tasks(dict(f)))
        exp = sorted(t.runno for t, tag, src in runs if ':' in src and tag in want)
        if got != exp:
            raise Violation('filter', f'conditions {f if not callable(f) else "function"}: runs {got}, expected {exp}')
    rec.state([picks, out])
    rec.step(len(picks))
    r.cleanup_files()


def filters(tags):
    yield {'tag': 12345}, set()
    for t in tags:
        yield {'tag': t}, {t}
    if len(tags) >= 2:
        yield {'tag': tags[:2]}, set(tags[:2])
        yield {'tag': tuple(tags[1:])}, set(tags[1:])
        yield {'tag': set(tags)}, set(tags)
        yield {'tag': tags, 'nothere': 1}, set()
        yield (lambda task: task.edits is not None and task.edits.parameter('tag') != tags[0]), set(tags[1:])


# ------------------------------------------------------------- settings of the launches (default schedule)
STEPS = [('add', '-x', ''), ('add', '-I', 'lib path'), ('clear',), ('run',), ('run', 'sw', ['-a']), ('run', 'sw', ['-b', 'c']), ('run', 'sw', []), ('run', 'tmo', 0.2), ('run', 'tmo', 5),
         ('run', 'args', {'alpha': 3, 'beta': 'y'}), ('run', 'args', (4, None)), ('run', 'log', True), ('now',), ('now', 'sw', ['-n']), ('now', 'tmo', 5), ('simulator',)]


class OtherSim(H.FakeSim):
    pass


def settings_case(steps, rec):
    """Every launch has the switches, time limit and callback arguments as they were when it was launched; the lists and
    dictionaries given belong to the caller, who uses them again."""
    from pathlib import Path
    d = Path(fresh_dir('set'))

    def body():
        w = H.new_world({f'j{k}': dict(dur=0.35) for k in range(len(steps))}, d)
        r = H.SimRunner(simulator=H.FakeSim, parallel_sims=8, timeout=3, output_folder=str(d / 'out'))
        given = {'sw': [], 'args': {}}
        own, want, seen, sim = [], {}, {}, H.FakeSim

        def callback(raw, log, alpha, beta):
            seen[Path(log).stem[4:].split('_')[0]] = (alpha, beta)

        for k, st in enumerate(steps):
            j = f'j{k}'
            if st[0] == 'add':
                r.add_command_line_switch(*st[1:])
                own += [x for x in st[1:] if x]
            elif st[0] == 'clear':
                r.clear_command_line_switches()
                own = []
            elif st[0] == 'simulator':
                r.set_simulator(OtherSim)
                sim = OtherSim
            else:
                kw, exp = {}, dict(switches=list(own), timeout=3, args=None, log=False, sim=sim)
                if st[1:2] == ('sw',):
                    given['sw'][:] = st[2]
                    kw['switches'] = given['sw']
                    exp['switches'] = list(st[2] or own)
                elif st[1:2] == ('tmo',):
                    kw['timeout'] = exp['timeout'] = st[2]
                elif st[1:2] == ('log',):
                    kw['exe_log'] = exp['log'] = True
                elif st[1:2] == ('args',):
                    kw['callback'] = callback
                    if isinstance(st[2], dict):
                        given['args'].update(st[2])
                        kw['callback_args'] = given['args']
                        exp['args'] = (st[2]['alpha'], st[2]['beta'])
                    else:
                        kw['callback_args'] = exp['args'] = st[2]
                want[j] = exp
                net = H.netlist(d, j)
                r.run_now(net, **kw) if st[0] == 'now' else r.run(net, **kw)
                given['sw'][:] = ['-later']
                given['args'].update(alpha='later', beta='later')
        r.wait_completion()
        return w, want, seen, r, [(t.netlist_file.stem[4:].split('_')[0], t.simulator) for t in r.completed_tasks]
    s, v = sched.run_schedule(lambda: body, (), H.SIM_FILES)
    if isinstance(v, Exception):
        raise v
    w, want, seen, r, sims = v
    if dict(sims) != {j: e['sim'] for j, e in want.items()}:
        raise Violation('simulator', f'{sims}')
    for j, e in want.items():
        if w.switches.get(j) != e['switches']:
            raise Violation('switches', f"{j} ran with {w.switches.get(j)}, expected {e['switches']}")
        if w.timeouts.get(j) != e['timeout']:
            raise Violation('timeout', f"{j} ran with {w.timeouts.get(j)}, expected {e['timeout']}")
        if w.consoles.get(j) != e['log']:
            raise Violation('exe-log', f"{j} ran with exe_log={w.consoles.get(j)}, expected {e['log']}")
        if e['args'] is not None and seen.get(j) != e['args']:
            raise Violation('callback-args', f"callback of {j} was called with {seen.get(j)}, expected {e['args']}")
    failed = [j for j, e in want.items() if e['timeout'] < 0.35]
    if (r.okSim, r.failSim) != (len(want) - len(failed), len(failed)):
        raise Violation('counters', f'{r.okSim} {r.failSim}: {sorted(want)}, {failed}')
    rec.state([[repr(e) for e in want.values()]])
    rec.step(len(steps))


def run_job(job, rec):
    if 'settings' in job:
        i, of, depth = job['settings']
        k = 0
        for n in range(1, depth + 1):
            for x in itertools.product(STEPS, repeat=n):
                k += 1
                if k % of == i:
                    rec.case()
                    rec.run(dict(settings=x), settings_case, x, rec)
                    rec.count('sequences of launch settings')
        return
    if 'scs' in job:
        for sc in job['scs']:
            scenario.explore(sc, rec, judge, 0)
            rec.count('scenarios with the default schedule')
    elif 'names' in job:
        picks = [x for n in (1, 2, 3) for x in itertools.product(SOURCES, repeat=n)]
        for i, x in enumerate(picks):
            if i % 8 == job['names']:
                for out in (True, False):
                    if not out and any('a_1' in y for y in x):
                        continue  # beside the sources, run 1 of a.net is a_1.net
                    rec.case()
                    rec.run(dict(names=list(x), out=out), names_case, list(x), out, rec)
                    rec.count('source name combinations')
    else:
        n = scenario.explore(job['sc'], rec, judge, job['bound'], job['shard'], job['of'])
        rec.count(f"schedules with at most {job['bound']} deviations", n)


def replay(case, rec):
    if 'settings' in case:
        settings_case([tuple(tuple(y) if k == 2 and st[1] == 'args' and isinstance(y, list) else y for k, y in enumerate(st)) for st in case['settings']], rec)
    elif 'names' in case:
        names_case(case['names'], case['out'], rec)
    else:
        scenario.replay(case, rec, judge)
