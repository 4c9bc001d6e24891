"""C16 - what a finished run hands over: result files, callback, return value."""
import functools
import inspect
import os
import subprocess
import threading
import time as _time
from pathlib import Path
import z3
from pyvc.api import *
from pyvc import core
from props.C15 import contain, fake

M, T = 'sim.sim_runner', 'sim.run_task'
ASSUMPTIONS = ["the name of a callback argument is not one of those that a process takes for itself (group, name, daemon)",
               "in the deductive part the file system says for each file once whether it exists"]


class P:
    """a path: a stem and a suffix, and whether there is such a file"""

    def __init__(self, stem, suffix, exists, moved=None):
        self.stem_, self.suffix_, self.ex = stem, suffix, exists
        self.moved = {} if moved is None else moved

    def with_suffix(self, s):
        return P(self.stem_, s, self.ex, self.moved)

    def exists(self):
        return self.ex(self.suffix_)

    def absolute(self):
        return self

    def as_posix(self):
        return self.stem_ + self.suffix_

    def replace(self, other):
        self.moved[self.suffix_] = other.suffix_
        return other

    def __str__(self):
        return self.as_posix()

    def __eq__(self, o):
        return isinstance(o, P) and (self.stem_, self.suffix_) == (o.stem_, o.suffix_)

    __hash__ = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise core.Unsupported(f'{n} of a path')


@prove('C16', 'life of a run', [f'{T}:RunTask.run', f'{T}:RunTask.get_results'], conc=300)
def life(vc):
    RT = vc.mod(T)
    E = vc.E if vc.symbolic else None
    code = vc.int('exit code', -300, 300) if not vc.symbolic else vc.int('exit code')
    files = {s: vc.bool(f'there is a {s}') for s in ('.raw', '.qraw', '.log', '.fail')}
    ext = vc.choice('raw files are named', ['.raw', '.qraw'])
    ends = vc.choice('simulator', ['returns', 'raises', 'times out', 'socket timeout', 'runtime'])
    on_error = vc.bool('callback on error')
    cbk = vc.choice('callback', ['none', 'returns', 'raises', 'object', 'partial', 'process', 'dead process'])
    args = vc.choice('arguments', [None, {}, {'a': 1}, {'a': 1, 'b': (2, 3)}])
    value = vc.int('value of the callback') if vc.choice('a value', [True, False]) else None
    log = []

    class Sim:
        raw_extension = ext
        started = 0

        @staticmethod
        def run(netlist, switches, timeout, cwd=None, exe_log=False):
            log.append(('sim', netlist, switches, timeout, cwd, exe_log))
            if ends == 'raises':
                raise OSError('no such program')
            if ends == 'times out':
                import subprocess
                raise subprocess.TimeoutExpired('x', 5)
            if ends == 'socket timeout':
                raise TimeoutError('too slow')
            if ends == 'runtime':
                raise RuntimeError('no licence')
            return code

    def body(raw, lg, **kw):
        log.append(('callback', raw, lg, kw))
        if cbk == 'raises':
            raise ZeroDivisionError('in the callback')
        return value

    class Obj:
        def __call__(self, raw, lg, **kw):
            return body(raw, lg, **kw)

    class Proc(vc.mod('sim.process_callback').ProcessCallback):
        exitcode = 1

        def __init__(self, raw, lg, **kw):
            body(raw, lg, **kw)
            self.queue = self
            self.k = 0

        def start(self):
            log.append('start')

        def is_alive(self):
            self.k += 1
            return self.k < 3

        def get(self, timeout=None, block=True):
            if timeout is None and self.k < 3 and cbk == 'dead process':
                raise core.Unsupported('waits for ever')
            if cbk == 'dead process' or self.k < 2:
                import queue
                raise queue.Empty()
            return value

        def join(self, *a):
            log.append('join')

        def close(self):
            pass
        terminate = kill = close
    cb = {'none': None, 'returns': body, 'raises': body, 'object': Obj(), 'partial': functools.partial(body), 'process': Proc,
          'dead process': Proc}[cbk]
    net = P('/x/net_7', '.net', lambda s: files[s])
    t = RT.RunTask(Sim, 7, net, callback=cb, callback_args=args, switches=['-s'], timeout=5, cwd='/w', callback_on_error=on_error,
                   exe_log=True)
    vc.check('nothing is handed over before it starts', t.get_results() is None)
    t.run()
    vc.check('the simulator is called once for the netlist of the run', log[0] == ('sim', '/x/net_7.net', ['-s'], 5, '/w', True) and
             sum(1 for x in log if x[0] == 'sim') == 1)
    good = And(ends == 'returns', code == 0)
    vc.check('the code of the simulator is kept', Implies(ends == 'returns', t.retcode == code))
    vc.check('an exception of the simulator is a failure', Implies(ends != 'returns', And(t.retcode != 0, t.exception_text is not None)))
    if bool(good):
        vc.check('the result files are named after the netlist', t.raw_file == net.with_suffix(ext) and t.log_file == net.with_suffix('.log'))
        vc.check('nothing is renamed', not net.moved)
        due = Or(on_error, And(files[ext], files['.log']))
    else:
        vc.check('a failed run has no result file', t.raw_file is None)
        if bool(files['.log']):
            vc.check('the log of a failed run is put aside', t.log_file == net.with_suffix('.fail') and net.moved == {'.log': '.fail'})
        else:
            vc.check('no log, nothing renamed', t.log_file == net.with_suffix('.log') and not net.moved)
        due = on_error
    calls = [x for x in log if x[0] == 'callback']
    due = And(due, cbk != 'none')
    vc.check('the callback is called once if it is due', len(calls) == 1 if bool(due) else not calls)
    if calls:
        vc.check('after the simulation', log.index(calls[0]) > 0)
        vc.check('with the files and the declared arguments', calls[0][1] is t.raw_file and calls[0][2] is t.log_file and calls[0][3] == (args or {}))
    got = t.get_results()
    if cbk == 'none':
        vc.check('the files are handed over', isinstance(got, tuple) and len(got) == 2 and got[0] is t.raw_file and got[1] is t.log_file)
    elif bool(due) and cbk not in ('raises', 'dead process'):
        vc.check('the value of the callback is handed over', value is None and got is None or value is not None and got is not None and got == value)
        vc.check('a process is started and ended', ('start' in log and 'join' in log) == (cbk == 'process'))
    else:
        vc.check('no value', got is None)
    vc.check('the times are known', t.start_time is not None and t.stop_time is not None and t.stop_time >= t.start_time)


SIG = {'f2': lambda raw, log: 0, 'f3': lambda raw, log, a: 0, 'f4': lambda raw, log, a, b: 0, 'f1': lambda raw: 0, 'f0': lambda: 0,
       'other names': lambda x, y, b, a: 0, 'f6': lambda raw, log, a, b, c, d: 0}
ARGS = [(1, 2, 3, 4), {'a': 1, 'b': 2, 'c': 3, 'd': 4}, {'a': 1, 'b': 2, 'c': 3, 'x': 4}, {'a': 1, 'b': 2, 'x': 3, 'd': 4}, {'d': 1, 'c': 2, 'b': 3, 'a': 4}, None, (), (1,), (1, 2), (1, 2, 3), {}, {'a': 1}, {'b': 1}, {'a': 1, 'b': 2}, {'b': 2, 'a': 1, 'c': 3}]


@prove('C16', 'callback arguments match the callback', [f'{M}:SimRunner.validate_callback_args'], conc=60)
def arguments(vc):
    S = vc.mod(M)
    PC = vc.mod('sim.process_callback').ProcessCallback

    class Bound:
        def m(self, raw, log, a, b):
            return 0

    class K(PC):
        @staticmethod
        def callback(raw, log, a):
            return 0
    opts = dict(SIG, none=None, bound=Bound().m, process=K, partial=functools.partial(SIG['f4'], b=5))
    n = vc.choice('callback', sorted(opts))
    cb = opts[n]
    args = vc.choice('arguments', ARGS)
    before = None if args is None else type(args)(args)
    got, exc = vc.raises(lambda: S.SimRunner.validate_callback_args(cb, args), ValueError)
    vc.check('the arguments given are not changed', args == before)
    if cb is None:
        vc.check('no callback, no arguments', exc is None and not got)
        return
    names = {'bound': ['raw', 'log', 'a', 'b'], 'process': ['raw', 'log', 'a']}.get(n) or list(inspect.signature(cb).parameters)
    extra = names[2:]
    if len(names) < 2:
        vc.check('a callback takes the two files', exc is not None)
    elif not extra:
        vc.check('a callback of two files is accepted', exc is None and not got)
    elif args is None or len(args) != len(extra) or isinstance(args, dict) and set(args) != set(extra):
        vc.check('missing, superfluous or unknown arguments are refused', exc is not None)
    else:
        want = dict(zip(extra, args)) if isinstance(args, tuple) else dict(args)
        vc.check('every declared argument gets its value', exc is None and got == want)
        if isinstance(args, dict):
            vc.check('the run has its own copy', got is not args)


@prove('C16', 'the result of a run is waited for until it ended', [f'{T}:RunTask.wait_results', f'{T}:RunTask.get_results'], internal=True, conc=0)
def waited(vc):
    """a run that is started and ends after any number of waits"""
    if not vc.symbolic:
        return vc.assume(False)
    RT = vc.mod(T)
    cb = vc.choice('callback', [None, len])
    begins, ends = vc.int('starts after'), vc.int('ends after')
    vc.assume(ends >= begins)
    st = type('State', (), {'t': 0})()
    value = vc.choice('value of the callback', ['a value', None, 0])
    t = RT.RunTask.__new__(RT.RunTask)

    def alive(self):
        return And(st.t >= begins, st.t < ends)
    vc.stub(RT.RunTask.is_alive, 'is_alive: between its start and its end', alive)

    def nap(s):
        vc.check('only while it is not ended', st.t < ends)
        st.t = st.t + 1
        if bool(st.t >= begins) and t.start_time is None:
            t.start_time = 12.5
    vc.stub(RT.sleep, 'sleep', nap)
    t.__dict__.update(start_time=12.5 if bool(begins <= 0) else None, callback=cb, callback_return=value, raw_file='r', log_file='l')

    def havoc(E, L):
        st.t = vc.int('t', 0)
        t.start_time = 12.5 if bool(st.t >= begins) else None
        return [st, t]
    vc.loop(f'{T}:RunTask.wait_results#0', lambda L, i=None: [Or(st.t <= ends, st.t <= 0), Iff(t.start_time is not None, st.t >= begins)], havoc=havoc)
    got = t.wait_results()
    vc.check('the run has ended', And(st.t >= ends, t.start_time is not None))
    vc.check('its result', got is value if cb else got == ('r', 'l'))


@prove('C16', 'a callback process leaves its result once, or a text instead of nothing', ['sim.process_callback:ProcessCallback.run'], internal=True, conc=0)
def left(vc):
    if not vc.symbolic:
        return vc.assume(False)
    PC = vc.mod('sim.process_callback').ProcessCallback
    value = vc.choice('value', [None, 0, '', [], 'x', False, (1, 2)])
    kw = vc.choice('arguments', [{}, {'a': 1}, {'a': 1, 'b': 2}])
    calls, put = [], []

    class K(PC):
        @staticmethod
        def callback(raw, log, **k):
            calls.append((raw, log, k))
            return value
    p = object.__new__(K)
    p.__dict__.update(raw_file='r', log_file='l', kwargs=dict(kw), queue=type('Q', (), {'put': staticmethod(lambda x, *a, **k: put.append(x))})())
    p.run()
    vc.check('it is called once, with the files and the arguments', calls == [('r', 'l', kw)])
    vc.check('its result is left once', len(put) == 1 and (put[0] is value if value is not None else isinstance(put[0], str) and put[0] != ''))


# --- real threads and processes --------------------------------------------------------------------------------------

def callbacks(PC, kind, n, v, extra, calls, mark):
    """a callback of the kind, and whether it takes an argument more"""
    def body(raw, lg, *a):
        calls.append((n, raw, lg, a))
        if kind == 'raises':
            raise ZeroDivisionError('in the callback')
        if kind == 'exit':
            raise SystemExit(3)
        if kind == 'slow':
            _time.sleep(.15)
        return v

    def more(raw, lg, a):
        return body(raw, lg, a)

    def two(raw, lg):
        return body(raw, lg)

    class O:
        def __call__(self, raw, lg, a):
            return body(raw, lg, a)

        def m(self, raw, lg, a):
            return body(raw, lg, a)

    def child(raw, lg, a):
        with open(mark, 'a') as f:
            f.write(f'{raw} {lg} {a}\n')
        if kind == 'process raises':
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)      # keep the trace of the failing child out of the report
            raise ZeroDivisionError
        if kind == 'process dies':
            os._exit(7)
        return None if kind == 'process nothing' else v
    if kind == 'none':
        return None, False
    if kind.startswith('process'):
        return type('CB', (PC,), {'callback': staticmethod(child)}), True
    if kind == 'object':
        return O(), True
    if kind == 'method':
        return O().m, True
    if kind == 'partial':
        return functools.partial(lambda tag, raw, lg, a: body(raw, lg, a), 'tag'), True
    return (more, True) if extra else (two, False)


def _value(r):
    return r.choice([1, 0, 'text', '', [1, 2], {'a': (1,)}, None, False, 3.5, 'x' * 200000])


@bounded('C16', 'real runs with callbacks', [f'{T}:RunTask.run', f'{T}:RunTask.wait_results', f'{M}:SimRunner.run',
                                            'sim.process_callback:ProcessCallback.run'], scratch=True)
def real(bx):
    S = bx.mod(M)
    PC = bx.mod('sim.process_callback').ProcessCallback
    contain(S)
    for r in bx.each(160, 1500):
        d = bx.dir()
        net = os.path.join(d, 'cir.net')
        Path(net).write_text('* x\nR1 a 0 1k\nV1 a 0 1\n.tran 1\n.end\n')
        ext = r.choice(['.raw', '.raw', '.qraw'])
        plans = {}

        class Board:
            @staticmethod
            def run(netlist, switches=None, timeout=None, *, cwd=None, exe_log=False):
                code, files, delay = plans[Path(netlist).stem]
                _time.sleep(delay)
                for f in files:
                    Path(netlist).with_suffix(f).write_text(Path(netlist).stem)
                if isinstance(code, type):
                    raise code('simulator', 5) if code is subprocess.TimeoutExpired else code('simulator broke')
                return code
        F = fake(bx.mod, Board)
        F.raw_extension = ext
        run = S.SimRunner(simulator=F, parallel_sims=r.choice([1, 3]), output_folder=os.path.join(d, 'out') if r.random() < .5 else None)
        calls, log, jobs, first = [], [], [], []
        shared = {}
        for n in range(1, r.randint(2, 6)):
            code = r.choice([0, 0, 0, 0, 0, 1, -1, -2, 127, OSError, TimeoutError, RuntimeError, ValueError, subprocess.TimeoutExpired])
            files = r.choice([(ext, '.log')] * 4 + [(ext,), ('.log',), ()])
            plans[f'cir_{n}'] = (code, files, r.choice([0, 0, .002, .02]))
            kind = r.choice(['none', 'plain', 'plain', 'slow', 'raises', 'partial', 'object', 'method', 'process', 'process raises', 'process dies',
                             'process nothing', 'exit'])
            v = _value(r)
            extra = r.random() < .6

            mark = Path(d, f'called{n}')
            cb, extra = callbacks(PC, kind, n, v, extra, calls, mark)
            kw = {}
            if extra and cb is not None:
                a = f'arg{n}'
                if r.random() < .5:
                    shared['a'] = a
                    kw['callback_args'] = shared          # the caller goes on using it
                else:
                    kw['callback_args'] = (a,)
            one = r.random() < .3
            if one:
                kw['callback_on_error'] = True
            t = run.run(net, callback=cb, **kw)
            jobs.append((t, n, code, files, kind, v, one, extra, mark))
            log.append((n, code, files, kind, one, extra))
            if r.random() < .3 or kind == 'slow' and r.random() < .7:
                first.append((t, r.random() < .5 and poll(bx, t, log) or wait(bx, t, log)))
        for t, *_ in jobs:
            wait(bx, t, log)
        run.wait_completion()
        base = Path(d, 'out') if run.output_folder else Path(d)
        for t, n, code, files, kind, v, one, extra, mark in jobs:
            raw, lg = base / f'cir_{n}{ext}', base / f'cir_{n}.log'
            if code != 0:
                raw = None
                if '.log' in files:
                    bx.check(not lg.exists(), 'the log of a failed run is put aside', (log, n))
                    lg = lg.with_suffix('.fail')
                    bx.check(lg.read_text() == f'cir_{n}', 'it is the log of this run', (log, n))
            due = kind != 'none' and (one or code == 0 and len(files) == 2)
            mine = [c for c in calls if c[0] == n]
            a = (f'arg{n}',) if extra else ()
            if kind.startswith('process'):
                got = mark.read_text() if mark.exists() else ''
                bx.check(got == (f'{raw} {lg} arg{n}\n' if due else ''), 'a process callback is called once with files and arguments', (log, n, got))
            else:
                bx.check(mine == ([(n, raw, lg, a)] if due else []), 'the callback is called once with the files and its arguments', (log, n, mine))
            want = (raw, lg) if kind == 'none' else None
            if due and kind not in ('raises', 'exit', 'process raises', 'process dies'):
                want = v
                if kind.startswith('process') and (v is None or kind == 'process nothing'):
                    want = "Callback doesn't return anything"
            bx.check(t.get_results() == want and type(t.get_results()) is type(want), 'what the caller receives', (log, n, t.get_results(), want))
            bx.check(t.wait_results() == want, 'what a waiting caller receives', (log, n))
            bx.check(t.retcode == (-2 if isinstance(code, type) else code), 'a failure is reported as such', (log, n, t.retcode))
        bx.check(all(v == t.get_results() for t, (v,) in first), 'whoever waits gets the final result', (log, first))
        bx.check(run.okSim == sum(j[2] == 0 for j in jobs) and run.failSim == sum(j[2] != 0 for j in jobs), 'never as a success of another run', (log, run.okSim, run.failSim))
        bx.done(log, nontrivial=bool(calls))


def wait(bx, t, log):
    box = []
    th = threading.Thread(target=lambda: box.append(t.wait_results()), daemon=True)
    th.start()
    th.join(30)
    bx.check(bool(box), 'a run ends whatever its simulator and callback do', log)
    return box


def poll(bx, t, log):
    """ask again and again; while the run goes on there is no result"""
    for _ in range(15000):
        alive = t.is_alive()
        v = t.get_results()
        if v is not None or not alive:
            return [v]
        _time.sleep(.002)
    bx.fail('a run ends whatever its simulator and callback do', log)
    return [None]
