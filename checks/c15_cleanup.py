"""C15: cleaning up removes exactly the files of the finished simulations."""
import itertools
import os
from pathlib import Path

from mc import sched  # noqa: F401
from mc import simharness as H
from mc.core import Violation, fresh_dir

PROPERTY = 'C15'
LEVEL = 'exploration'
RULE = ('every sequence of at most 4 (quick) / 5 (thorough) operations out of: launch a path (.net) that succeeds, fails, dies in the '
        'middle, takes long with console log and operating point files, has a run file name with several dots; launch an editor (.net, .asc); blocking run; let time '
        'pass; clean up - in three folder layouts (own output folder, output folder that holds the source, none), beside user '
        'files with look-alike names; each followed by waiting and a final clean-up; plus every schedule with at most 1 '
        'deviation (2 in thorough) of a clean-up racing with the end of simulations. Oracle: set and content of all files.')
ASSUMPTIONS = ['the names given to runs are not already used by other files of the user in the same folder',
               'one runner per output folder']

OPS = ['ok', 'fail', 'partial', 'long', 'ed', 'asc', 'now', 'dot', 'time', 'clean']
JOB = {'ok': dict(dur=0.2, extra=['.op.raw', '.log.raw', '.db']), 'fail': dict(mode='fail', dur=0.2, extra=['.op.raw']),
       'partial': dict(mode='partial', dur=0), 'long': dict(dur=3, exe_log=True, extra=['.op.raw']),
       'ed': dict(dur=0.2), 'asc': dict(dur=0.2, extra=['.op.raw', '.log.raw', '.db', '.net']), 'now': dict(dur=0.1),
       'dot': dict(dur=0.2, extra=['.op.raw', '.log.raw', '.db'])}
USER = ['circ_9.raw', 'circ_9.net', 'circ_1.raw.txt', 'circ_1x.raw', 'circ_1_1.raw', 'xcirc_1.raw', 'circ.raw', 'circ.log',
        'circ_1.op.raw.txt', 'circ_1.txt', 'circ_2.asc.bak', 'circ_01.raw', 'circ_1.fail.txt', 'other.log', 'circ_10.log',
        'CIRC_1.raw', 'circ.op.raw', 'circ.log.raw', 'circ.db', 'circ.v2.raw', 'circ.v2.db', 'sub/circ_1.raw', 'sub/circ_1.net']
LAYOUTS = ['own', 'same', 'none']


def snapshot(d):
    out = {}
    d = str(d)
    for root, _, files in os.walk(d):
        rel = os.path.relpath(root, d)
        for f in files:
            with open(os.path.join(root, f)) as h:
                out[f if rel == '.' else f'{rel}/{f}'] = h.read()
    return out


class World15:
    def __init__(self, layout):
        self.d = Path(fresh_dir('cl'))
        self.layout = layout
        self.out = {'own': self.d / 'out', 'same': self.d / 'src', 'none': None}[layout]
        src = self.d / 'src'
        src.mkdir()
        folders = [src] if layout != 'own' else [src, self.d / 'out']
        f = folders[-1]
        (f / 'sub').mkdir(parents=True)
        for u in USER:
            with open(f'{f}/{u}', 'w') as h:
                h.write('user ' + u)
        self.src = src
        for k in ('ok', 'fail', 'partial', 'long', 'now', 'dot'):
            H.netlist(src, k, stem='circ')
        (src / 'circ.asc').write_text('Version 4\nSHEET 1 880 680\nTEXT 0 0 Left 2 !.op\nTEXT 0 40 Left 2 ;job=asc\n')
        (src / 'ed.net').write_text('* job=ed\nR1 a 0 1k\n.op\n.end\n')
        os.chdir(src)
        self.user = snapshot(self.d)


def scenario_body(layout, ops, rec, racing=False):
    from spicelib.editor.spice_editor import SpiceEditor
    from spicelib.editor.asc_editor import AscEditor
    wd = World15(layout)
    w = H.new_world({}, wd.out or wd.src)

    def body():
        r = H.SimRunner(simulator=H.FakeSim, parallel_sims=8, timeout=60,
                        output_folder=None if wd.out is None else str(wd.out))
        tasks = []  # (kind, task, base path without suffix)
        cleaned = []
        here = wd.out or wd.src
        eds = {}

        def files(kind, stem, task):
            ext = '.asc' if kind == 'asc' else '.net'
            out = [stem + ext]
            j = JOB[kind]
            done = not task.is_alive()
            return out, j, done

        def launch(kind):
            w.plan.clear()
            for k, j in JOB.items():
                w.plan[k] = dict(j)
            runno = r.runno + 1
            if kind == 'ed':
                e = eds.get(kind) or SpiceEditor(wd.src / 'ed.net')
                eds[kind] = e
                stem = f'ed_{runno}'
                e.set_component_value('R1', f'{runno}k')
                t = r.run(e)
            elif kind == 'asc':
                e = eds.get(kind) or AscEditor(wd.src / 'circ.asc')
                eds[kind] = e
                stem = f'circ_{runno}'
                t = r.run(e)
            else:
                p = wd.src / 'circ.net'
                p.write_text(f'* job={kind}\nR1 a 0 1k\n.end\n')
                wd.user['src/circ.net'] = p.read_text()
                stem = f'circ_{runno}'
                if kind == 'now':
                    r.run_now(str(p))
                    t = r.completed_tasks[-1]
                else:
                    name = None
                    if kind == 'dot':  # a name given by the user, with more than one dot
                        stem = f'circ.v2_{runno}'
                        name = stem + '.net'
                    t = r.run(p, exe_log=JOB[kind].get('exe_log', False), run_filename=name)
            if t is None:
                raise Violation('refused', kind)
            if t.netlist_file.parent.absolute() != here.absolute() or t.netlist_file.stem != stem:
                raise Violation('place', f'{t.netlist_file}, expected {stem} in {here}')
            tasks.append((kind, t, stem))

        def check(where):
            now = snapshot(wd.d)
            rel = here.relative_to(wd.d)
            for u, text in wd.user.items():
                if now.get(u) != text:
                    raise Violation('user-file', f'{where}: {u} is {"gone" if u not in now else "changed"}')
            extra = {f for f in now if f not in wd.user}
            for i, (kind, t, stem) in enumerate(tasks):
                mine = {f for f in extra if f.startswith(f'{rel}/{stem}.')}
                extra -= mine
                suf = {f[len(f'{rel}/{stem}'):] for f in mine}
                ext = '.asc' if kind == 'asc' else '.net'
                j = JOB[kind]
                if i in cleaned:
                    if suf:
                        raise Violation('left-behind', f'{where}: {sorted(mine)} of a finished {kind} run')
                    continue
                over = not t.is_alive()
                want = {ext}
                if over:
                    fails = j.get('mode') in ('fail', 'partial')
                    want |= {'.raw', '.fail' if fails else '.log'} | set(j.get('extra', ()))
                    if j.get('exe_log'):
                        want.add('.exe.log')
                if not want <= suf:
                    raise Violation('removed-too-much', f'{where}: {kind} run has {sorted(suf)}, needs {sorted(want)}')
                if over and kind != 'asc' and not fails and not racing:
                    b = here / stem
                    if not H.complete(f'{b}.raw', f'{b}.log', kind):
                        raise Violation('content', f'{where}: {stem}')
            if extra:
                raise Violation('unknown-file', f'{where}: {sorted(extra)}')
            return now

        def clean(where):
            before = [not t.is_alive() for _, t, _ in tasks]
            r.cleanup_files()
            after = [not t.is_alive() for _, t, _ in tasks]
            for i, (b, a) in enumerate(zip(before, after)):
                if b and i not in cleaned:
                    cleaned.append(i)
                elif a and i not in cleaned:
                    # ended during the clean-up: entirely cleaned or entirely kept
                    if not tasks[i][1].netlist_file.exists():
                        cleaned.append(i)

        for n, op in enumerate(ops):
            if op == 'time':
                sched.v_sleep(0.5)
            elif op == 'clean':
                clean(n)
            else:
                launch(op)
            if not racing:
                now = check(f'after {ops[:n + 1]}')
                rec.step()
                rec.state([layout, sorted(x for x in now if x not in wd.user), r.runno])
        r.wait_completion(timeout=1000)
        for _, t, _ in tasks:
            t.join()
        check(f'after {ops} and waiting')
        clean('end')
        check(f'after {ops}, waiting and a clean-up')
        if len(cleaned) != len(tasks):
            raise Violation('left-behind', 'finished simulations were not cleaned')
    return body


RACES = [('ok', 'clean'), ('ok', 'ok', 'time', 'clean'), ('ok', 'fail', 'clean', 'time', 'clean'), ('ok', 'long', 'time', 'clean'),
         ('ed', 'ok', 'clean', 'clean')]


def jobs(tier):
    depth = 5 if tier == 'thorough' else 4
    out = []
    for lay in LAYOUTS:
        for a in OPS[:-2]:
            for b in OPS if tier == 'thorough' else [None]:
                out.append(dict(layout=lay, first=a, second=b, depth=depth))
    bound = 2 if tier == 'thorough' else 1
    n = 16 if tier == 'thorough' else 2
    out = [dict(race=list(x), layout='own', bound=bound if i < 2 else 1, shard=k, of=n)
           for i, x in enumerate(RACES) for k in range(n)] + out
    return out


def run_case(layout, ops, rec):
    s, v = sched.run_schedule(lambda: scenario_body(layout, ops, rec), (), ())
    if isinstance(v, sched.Stuck):
        raise Violation(v.kind, v.msg)
    if isinstance(v, Exception):
        raise v
    for name, e in s.deaths:
        raise Violation('thread-death', f'{name} ended with {type(e).__name__}: {e}')


def judged(rec, layout, ops):
    def f(s, v, choices):
        rec.case()
        rec.step(s.points)
        rec.count('schedules of racing clean-ups')
        while choices and choices[-1] == 0:
            choices = choices[:-1]

        def check():
            if isinstance(v, sched.Stuck):
                raise Violation(v.kind, v.msg)
            if isinstance(v, Exception):
                raise v
        rec.run(dict(race=list(ops), layout=layout, choices=choices), check)
    return f


def run_job(job, rec):
    if 'race' in job:
        n = sched.explore(lambda: scenario_body(job['layout'], tuple(job['race']), rec, True), judged(rec, job['layout'], job['race']),
                          job['bound'], H.SIM_FILES, job['shard'], job['of'])
        rec.trace(n)
        return
    head = [job['first']] + ([job['second']] if job['second'] else [])
    for n in range(0, job['depth'] - len(head) + 1):
        for tail in itertools.product(OPS, repeat=n):
            ops = tuple(head) + tail
            if n and ops[-1] == 'time':
                continue  # waiting and cleaning follows anyway
            rec.case()
            rec.trace()
            rec.run(dict(layout=job['layout'], ops=ops), run_case, job['layout'], ops, rec)


def replay(case, rec):
    if 'race' in case:
        s, v = sched.run_schedule(lambda: scenario_body(case['layout'], tuple(case['race']), rec, True),
                                  tuple(case['choices']), H.SIM_FILES)
        if isinstance(v, Exception):
            raise v
    else:
        run_case(case['layout'], tuple(case['ops']), rec)
