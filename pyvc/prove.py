"""python3-vt -m pyvc.prove ID : generate and discharge the obligations of one property from /repo's current source.

props/ID.py defines TASKS (list of api.Task), FUNCTIONS, ASSUMPTIONS.  One JSON object on the last line of stdout.
"""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import subprocess
import sys
import tempfile
import time
import traceback


def run_task(arg):
    prop, i = arg
    t0 = time.time()
    from . import api, core, engine
    try:
        mod = importlib.import_module('props.' + prop)
        t = mod.TASKS[i]
        api.fresh()
        if t.kind == 'direct':
            res = t.fn()
            hint = []
            paths = ends = 0
        elif t.kind == 'int':
            from . import ints
            eng = ints.IntEngine(t.maxpaths, t.maxtime, sampler=getattr(mod, 'SAMPLER', None))
            res = eng.run(t.fn)
            paths, ends, hint = eng.paths, eng.ends, eng.hints
        else:
            e3 = []

            def refute(f):
                e = engine.Engine(300, 40, fixed=f)
                e3.append(e)
                r = [('%s [%s]' % (n, ', '.join('%s=%d' % i for i in sorted(f.items()))), s, d) for n, s, d in e.run(t.fn) if s == 'failed']
                return r
            eng = engine.Engine(t.maxpaths, t.maxtime, refute=refute)
            res = eng.run(t.fn)
            paths, ends = eng.paths, eng.ends
            hint = eng.hints + [h for e in e3 for h in e.hints] + eng.late
            if any(x[1] != 'discharged' for x in res) and not any(x[1] == 'failed' for x in res) and t.small is not None:
                # bounded refutation: the same contract with every symbolic size small, loops executed as they are
                e2 = engine.Engine(1500, 150, small=t.small)
                for n, s, d in e2.run(t.fn):
                    if s == 'failed':
                        res.append(('%s [small sizes]' % n, s, d))
                hint = hint + e2.hints
        out = [('%s: %s' % (t.name, n), s, d) for n, s, d in res]
        if not out:
            out = [('%s: obligations' % t.name, 'undecided', 'no obligation generated')]
        for n in t.expect:
            if not any(x[0] == '%s: %s' % (t.name, n) for x in out) and not any(x[1] != 'discharged' for x in out):
                out.append(('%s: %s' % (t.name, n), 'undecided', 'obligation was not generated'))
    except BaseException as e:
        out = [('%s: run' % arg[1], 'undecided', ''.join(traceback.format_exception_only(type(e), e))[-400:] +
                ' ' + '; '.join('%s:%d' % (x.filename.split('/')[-1], x.lineno) for x in traceback.extract_tb(e.__traceback__)[-3:]))]
        paths = ends = 0
        hint = []
    return i, out, time.time() - t0, dict(engine.STATS), paths, ends, hint


class Jobs:
    """tasks on forked processes, started from the main thread only"""

    def __init__(self, prop, idx, width=8):
        self.prop, self.todo, self.width = prop, list(idx), width
        self.run, self.done = {}, {}
        self.ctx = mp.get_context('fork')
        self.fill()

    def fill(self):
        while self.todo and len(self.run) < self.width:
            i = self.todo.pop(0)
            r, w = self.ctx.Pipe(False)
            p = self.ctx.Process(target=child, args=(self.prop, i, w), daemon=True)
            p.start()
            w.close()
            self.run[i] = (p, r)

    def wait(self, t):
        got = mp.connection.wait([r for _, r in self.run.values()], t)
        for i, (p, r) in list(self.run.items()):
            if r in got:
                try:
                    self.done[i] = r.recv()
                except (EOFError, OSError):
                    self.done[i] = (i, [('task %d: run' % i, 'undecided', 'worker ended')], 0, {}, 0, 0, [])
                p.join()
                r.close()
                del self.run[i]
        self.fill()

    def ready(self, i):
        return i in self.done

    def stop(self):
        for p, r in self.run.values():
            p.kill()
            p.join()


def child(prop, i, w):
    if os.environ.get('PYVC_DUMP'):
        import faulthandler
        faulthandler.dump_traceback_later(int(os.environ['PYVC_DUMP']), repeat=True)
    w.send(run_task((prop, i)))
    w.close()
    sys.stdout.flush()
    os._exit(0)


def main():
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    t0 = time.time()
    mod = importlib.import_module('props.' + prop)
    idx = [i for i, t in enumerate(mod.TASKS) if only is None or only in t.name]
    # expensive ones first
    idx.sort(key=lambda i: -mod.TASKS[i].cost)
    tier = os.environ.get('VERIF_TIER', 'quick')
    idx = [i for i in idx if tier == 'thorough' or not mod.TASKS[i].thorough]
    obs, stats, times, hints = [], {}, {}, []
    limit = float(os.environ.get('PYVC_LIMIT', '560' if tier == 'thorough' else '380'))
    hf = tempfile.NamedTemporaryFile('r', suffix='.hints')
    os.environ['PYVC_HINTFILE'] = hf.name
    rs = Jobs(prop, idx)
    paths = ends = 0
    stop = None
    tried, seen, replay, confirmed, queue = 0, set(), None, [], []
    scratch = tempfile.NamedTemporaryFile('w', suffix='.json')
    for i in idx:
        while not rs.ready(i) and time.time() - t0 < min(limit, stop or limit):
            rs.wait(0.3)
            # counterexamples so far are replayed on the real code at once; a confirmed one decides
            for line in hf.readlines():
                if line.endswith('\n') and line not in seen:
                    seen.add(line)
                    queue.append(json.loads(line))
            if replay is None and tried < 30 and stop is None:
                if queue:
                    new, queue = queue[:8], queue[8:]
                    tried += 1
                    scratch.seek(0)
                    scratch.truncate()
                    json.dump(dict(cases=new), scratch)
                    scratch.flush()
                    replay = subprocess.Popen([sys.executable, '-m', 'pyvc.battery', prop, '1', '0', scratch.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            elif replay is not None and replay.poll() is not None:
                try:
                    confirmed += [f['case'] for f in json.loads(replay.stdout.read().decode().strip().splitlines()[-1])['failures']]
                except (ValueError, IndexError):
                    pass
                replay = None
                if confirmed and stop is None:
                    stop = time.time() - t0 + 1
            if stop is None and any(o[1] == 'failed' for x in rs.done.values() for o in x[1]):
                # one refuted obligation decides: the others get a little more time
                stop = time.time() - t0 + 20
        left = min(limit, stop or limit) - (time.time() - t0)
        if rs.ready(i):
            _, out, dt, st, p, e, h = rs.done[i]
        else:
            out, dt, st, p, e = [('%s: run' % mod.TASKS[i].name, 'undecided', 'time limit')], left, {}, 0, 0
            h = []
        obs += out
        hints += [x for x in h if x not in hints]
        times[mod.TASKS[i].name] = round(dt, 2)
        paths += p
        ends += e
        for k, v in st.items():
            stats[k] = stats.get(k, 0) + v
    rs.stop()
    if replay is not None:
        replay.kill()
    hints = confirmed + [h for h in hints if h not in confirmed]
    definite = getattr(mod, 'DEFINITE', True)
    obl = []
    for n, s, d in obs:
        if s == 'failed':
            s = 'refuted' if definite else 'undecided'
        obl.append(dict(name=n, status=s, detail=str(d)[:700]))
    stats['path_ends'] = ends
    z = stats.pop('z3_s', 0)
    back = dict(getattr(mod, 'BACKENDS', {}))
    back['z3'] = int(stats.get('z3', 0))
    print(json.dumps(dict(obligations=obl, functions=mod.FUNCTIONS, assumptions=mod.ASSUMPTIONS,
                          hints=dict(cases=hints[:40]), backends=back, solver_s=round(z, 2),
                          bounded=getattr(mod, 'BOUNDED', []),
                          stats=dict(stats, task_s=times, wall=round(time.time() - t0, 1)),
                          explanation=getattr(mod, 'EXPLANATION', ''))))


if __name__ == '__main__':
    main()
