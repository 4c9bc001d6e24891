"""C15 - the simulation runner: book-keeping of runs, their number, their files and their completion."""
import os
import random
import threading
import time as _time
from pathlib import Path
import z3
from pyvc.api import *
from pyvc import core

M = 'sim.sim_runner'
ASSUMPTIONS = ["in the deductive part a run is alive or not at the moment the runner looks at it, once per look; the bounded part "
               "runs real threads whose ends are released in a random order",
               "the runner is driven from one thread (the class has no locks)"]


def contain(S):
    """the check never ends processes, and runners of earlier paths do nothing when they are collected"""
    S.SimRunner.kill_all_spice = lambda self: None
    S.SimRunner.__del__ = lambda self: None


def runner(vc, parallel=None, **kw):
    S = vc.mod(M)
    contain(S)
    Sim = vc.mod('sim.simulator').Simulator
    F = type('FakeSim', (Sim,), {'run': classmethod(lambda c, *a, **k: 0), 'valid_switch': classmethod(lambda c, *a: [])})
    r = S.SimRunner(simulator=F, **({} if parallel is None else {'parallel_sims': parallel}), **kw)
    return S, r


def task_type():
    T = RecordType('Task', {'alive': BoolK, 'started': BoolK, 'retcode': IntK, 'runno': IntK})
    T.methods['is_alive'] = lambda self: self.alive

    class _Start:
        pass
    return T


class _Started(core.Kind):
    """start_time: None while the thread has not started"""

    def __init__(self):
        super().__init__('start', z3.IntSort())

    def wrap(self, e):
        if bool(wrap(e < 0)):
            return None
        return wrap(e)

    def unwrap(self, v):
        return z3.IntVal(-1) if v is None else to_z3(v)


START = _Started()


@prove('C15', 'finished runs move to the completed ones once', [f'{M}:SimRunner.update_completed'], internal=True, conc=0, timeout=60)
def moved(vc):
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    S, r = runner(vc)
    T = RecordType('Task', {'alive': BoolK, 'start_time': START, 'retcode': IntK}, {'is_alive': lambda self: self.alive})
    active0, done0 = vc.seq('active', T), vc.seq('completed', T)
    active, done = active0.copy(), done0.copy()
    alive, started, ret = E.heap(T, 'alive'), E.heap(T, 'start_time'), E.heap(T, 'retcode')

    def fin(q):
        p = z3.Select(active0.arr, to_z3(q))
        return And(Not(wrap(z3.Select(alive, p))), wrap(z3.Select(started, p) >= 0))

    def good(q):
        return wrap(z3.Select(ret, z3.Select(active0.arr, to_z3(q))) == 0)
    # how many of the first m have finished, and finished well (recursive definitions)
    cnt, ok = (z3.Function(n, z3.IntSort(), z3.IntSort()) for n in ('finished', 'finished_well'))

    def C(m):
        return wrap(cnt(to_z3(m)))

    def K(m):
        return wrap(ok(to_z3(m)))
    E.assume(And(C(0) == 0, K(0) == 0))

    def unfold(m):
        """the definition of the two counts at m >= 0"""
        m = wrap(to_z3(m))
        E.assume(Implies(m >= 0, And(C(m + 1) == C(m) + Ite(fin(m), 1, 0), K(m + 1) == K(m) + Ite(And(fin(m), good(m)), 1, 0))))

    def lemma(a, b):
        return And(C(a) <= C(b), C(b) - C(a) <= b - a, Implies(And(a < b, fin(a)), C(a) + 1 <= C(b)),
                   Implies(And(a < b, Not(fin(a))), C(b) - C(a) <= b - a - 1))
    x, y = E.fresh_int('a'), E.fresh_int('b')
    E.assume(And(0 <= x, x <= y))
    unfold(y)
    vc.check('lemma, base: a count is equal to itself', lemma(x, x))
    n0 = len(E.pc)
    E.pc.append(to_z3(lemma(x, y)))
    vc.check('lemma, step: the counts grow with the runs looked at', lemma(x, y + 1))
    del E.pc[n0:]
    a, b = z3.Ints('a!mono b!mono')
    E.assume_z3(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b), to_z3(lemma(wrap(a), wrap(b)))),
                          patterns=[z3.MultiPattern(cnt(a), cnt(b))]))
    r.active_tasks, r.completed_tasks = active, done

    def state(p, act, don, okn, failn, rest=True):
        """the state after the first p were looked at"""
        out = [don.n == done0.n + C(p), okn == K(p), failn == C(p) - K(p), act.n == active0.n - C(p),
               Forall(0, done0.n, lambda j: at(don, j) == at(done0, j)),
               Forall(0, p, lambda j: Implies(fin(j), at(don, done0.n + C(j)) == at(active0, j))),
               Forall(0, p, lambda j: Implies(Not(fin(j)), at(act, j - C(j)) == at(active0, j)))]
        return out

    def inv(L, i):
        p = L.i + (active0.n - active.n)
        unfold(p)
        return [p >= 0, p <= active0.n, L.i == p - C(p)] + state(p, active, done, r.okSim, r.failSim) + [
            Forall(L.i, active.n, lambda j: at(active, j) == at(active0, j + (active0.n - active.n)))]

    def havoc(E, L):
        for s in (active, done):
            s.n = E.fresh_int('n')
            s.arr = E.fresh('arr', s.arr.sort())
            E.assume(s.n >= 0)
        r._okSim, r._failSim = E.fresh_int('ok'), E.fresh_int('fail')
        return [active, done, r]
    vc.loop(f'{M}:SimRunner.update_completed#0', inv, havoc=havoc, variant=lambda L, i: active.n - L.i)
    r.update_completed()
    for k, c in enumerate(state(active0.n, active, done, r.okSim, r.failSim)):
        vc.check(['the completed list grows by the finished ones', 'as many successful runs as ended with code 0',
                  'all others failed', 'the finished ones are no longer active', 'what was completed stays',
                  'every finished run is completed, in order', 'every other run is still active, in order'][k], c)
    vc.check('counts add up', r.okSim + r.failSim + active.n == active0.n)


@prove('C15', 'never more at the same time than allowed', [f'{M}:SimRunner.run'], internal=True, conc=0, timeout=60)
def limit(vc):
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    par = vc.int('parallel', 1)
    timeout = vc.choice('timeout', [None, 600])
    S, r = runner(vc, par, timeout=timeout)
    wait = vc.choice('wait for resources', [True, False])
    st = {'active': None, 'started': 0, 'task': None, 'kw': None}
    own = vc.choice('switches of the runner', [[], ['-a', 'b c', '-a']])
    given = vc.choice('switches', [None, [], ['-x', '-x']])
    lim = vc.choice('timeout of the run', [None, 7.5])
    flags = vc.choice('callback on error, log', [(False, True), (True, False)])
    r.cmdline_switches, r.cwd = list(own), vc.choice('cwd', [None, Path('/w')])
    act = E.fresh_int('active')
    E.assume(act >= 0)
    st['active'] = act

    def look(*_):
        # any number of runs may have ended since the last look
        n = E.fresh_int('active')
        E.assume(And(n >= 0, n <= st['active']))
        st['active'] = n
        return n

    class Task:
        def __init__(self, **kw):
            st['kw'] = kw
            st['task'] = self

        def start(self):
            st['started'] += 1
            if wait:
                vc.check('fewer than allowed are active when one is started', st['active'] < par)
            vc.check('it is known to the runner', len(r.active_tasks) == 1 and r.active_tasks[0] is self)
    vc.stub(S.SimRunner.active_threads, 'SimRunner.active_threads: how many are active now', look)
    vc.stub(S.SimRunner._prepare_sim, 'SimRunner._prepare_sim', lambda self, n, f: setattr(self, '_runno', self._runno + 1) or Path('/x/n_1.net'))
    vc.stub(S.RunTask, 'RunTask', Task)
    vc.stub(S.sleep, 'sleep', lambda t: None)
    now = [E.fresh_int('now')]

    def clock():
        t = E.fresh_int('now')
        E.assume(t >= now[0])
        now[0] = t
        return t
    vc.stub(S.clock, 'clock', clock)

    def havoc(E, L):
        st['active'] = E.fresh_int('active')
        E.assume(st['active'] >= 0)
        now[0] = E.fresh_int('now')
        return [st, now]
    vc.loop(f'{M}:SimRunner.run#0', lambda L, i: [wrap(z3.BoolVal(st['started'] == 0))], havoc=havoc)
    vc.loop(f'{M}:SimRunner.run#0', lambda L, i: [st['started'] == 0, len(r.active_tasks) == 0], havoc=havoc)
    t = r.run('n.net', wait_resource=wait, switches=given, timeout=lim, callback_on_error=flags[0], exe_log=flags[1])
    vc.check('one run number is used', r.runno == 1)
    vc.check('the switches of the runner stay', r.cmdline_switches == own)
    if t is None:
        vc.check('only a timeout gives none', (timeout is not None or lim is not None) and st['started'] == 0)
        return
    kw = st['kw']
    vc.check('the switches given are those of the run, else those of the runner', kw['switches'] == (given or own))
    vc.check('the run has its own list of them', kw['switches'] is not r.cmdline_switches)
    vc.check('everything asked for is passed on', (kw['timeout'], kw['callback_on_error'], kw['exe_log'], kw['cwd'], kw['callback']) ==
             (timeout if lim is None else lim, flags[0], flags[1], r.cwd, None) and kw['simulator'] is r.simulator
             and kw['netlist_file'] == Path('/x/n_1.net'))
    if t is None:
        pass
    else:
        vc.check('the run is started once', st['started'] == 1 and t is st['task'])
        vc.check('with the run number', st['kw']['runno'] == 1)


@prove('C15', 'an immediate run is waited for', [f'{M}:SimRunner.run_now'], internal=True, conc=0, timeout=60)
def immediate(vc):
    if not vc.symbolic:
        return vc.assume(False)
    timeout = vc.choice('timeout of the runner', [None, 600])
    S, r = runner(vc, 2, timeout=timeout)
    own = vc.choice('switches of the runner', [[], ['-a', 'b c', '-a']])
    given = vc.choice('switches', [None, [], ['-x', '-x']])
    lim = vc.choice('timeout of the run', [None, 7.5])
    log = vc.choice('log', [True, False])
    r.cmdline_switches, r.cwd = list(own), vc.choice('cwd', [None, Path('/w')])
    code = vc.int('exit code')
    ok0, fail0 = vc.int('ok', 0), vc.int('failed', 0)
    r._okSim, r._failSim = ok0, fail0
    st = []

    class Task:
        raw_file, log_file = Path('/x/n_1.raw'), Path('/x/n_1.log')

        def __init__(self, **kw):
            self.kw = kw
            st.append('made')

        def start(self):
            st.append('start')

        def join(self, t):
            st.append(('join', t))
            self.retcode = code
    vc.stub(S.SimRunner._prepare_sim, 'SimRunner._prepare_sim', lambda self, n, f: setattr(self, '_runno', self._runno + 1) or Path('/x/n_1.net'))
    vc.stub(S.RunTask, 'RunTask', Task)
    vc.stub(S.sleep, 'sleep', lambda t: None)
    got = r.run_now('n.net', switches=given, timeout=lim, exe_log=log)
    t = timeout if lim is None else lim
    vc.check('it is started once and waited for, longer than it may take', st[:2] == ['made', 'start'] and len(st) == 3 and
             (st[2][1] is None if t is None else st[2][1] is not None and st[2][1] > t))
    vc.check('its own result files', got == (Task.raw_file, Task.log_file))
    vc.check('it is completed once', len(r.completed_tasks) == 1 and not r.active_tasks)
    kw = r.completed_tasks[0].kw
    vc.check('the switches given are those of the run, else those of the runner', kw['switches'] == (given or own) and
             r.cmdline_switches == own and kw['switches'] is not r.cmdline_switches)
    vc.check('everything asked for is passed on', (kw['timeout'], kw['exe_log'], kw['cwd'], kw['callback'], kw['runno']) ==
             (t, log, r.cwd, None, 1) and kw['simulator'] is r.simulator and kw['netlist_file'] == Path('/x/n_1.net'))
    vc.check('counted', And(r.okSim == ok0 + Ite(code == 0, 1, 0), r.failSim == fail0 + Ite(code == 0, 0, 1)))


class _Maybe(core.Kind):
    """a time, or None"""

    def __init__(self):
        super().__init__('maybe time', z3.IntSort())

    def wrap(self, e):
        if bool(wrap(e < 0)):
            return None
        return wrap(e)

    def unwrap(self, v):
        return z3.IntVal(-1) if v is None else to_z3(v)


@prove('C15', 'the time until which the active runs may take', [f'{M}:SimRunner._maximum_stop_time'], internal=True, conc=0, timeout=60)
def deadline(vc):
    """the largest of start + timeout"""
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    own = vc.choice('the runner has a timeout', [True, False])
    S, r = runner(vc, 2)
    r.timeout = vc.int('timeout of the runner', 0) if own else None
    TIME = _Maybe()
    T = RecordType('Task', {'timeout': TIME, 'start_time': TIME})
    act = vc.seq('active', T)
    r.active_tasks = act
    tm, st = E.heap(T, 'timeout'), E.heap(T, 'start_time')
    g = {'k': None, 'assumed': False}

    def has(j):
        p = z3.Select(act.arr, to_z3(j))
        c = wrap(z3.Select(st, p) >= 0)
        return c if own else And(c, wrap(z3.Select(tm, p) >= 0))

    def stop(j):
        p = z3.Select(act.arr, to_z3(j))
        t = wrap(z3.Select(tm, p))
        return wrap(z3.Select(st, p)) + (Ite(t >= 0, t, r.timeout) if own else t)

    def one(k, i, alarm):
        return And(0 <= k, k < i, has(k), stop(k) == alarm)

    def inv(L, i):
        assumed, g['assumed'] = g['assumed'], False
        if L.alarm is None:
            return [Forall(0, i, lambda j: Not(has(j)))]
        # that there is a run whose limit it is: assumed for one (k), shown for that one or for the last one looked at
        if assumed or g['k'] is None:
            g['k'] = E.fresh_int('whose')
            some = one(g['k'], i, L.alarm) if assumed else one(i - 1, i, L.alarm)
        else:
            some = Or(one(g['k'], i, L.alarm), one(i - 1, i, L.alarm))
        return {'largest': Forall(0, i, lambda j: Implies(has(j), stop(j) <= L.alarm)), 'attained': some}

    def alarm(E, old, L):
        g['assumed'], g['k'] = True, None
        return E.fresh_int('alarm') if bool(E.fresh_bool('known')) else None
    vc.loop(f'{M}:SimRunner._maximum_stop_time#0', inv, havoc_vals={'alarm': alarm})
    got = r._maximum_stop_time()
    if got is None:
        vc.check('no run has a limit', Forall(0, act.n, lambda j: Not(has(j))))
    else:
        vc.check('no run may take longer', Forall(0, act.n, lambda j: Implies(has(j), stop(j) <= got)))
        vc.check('it is the limit of one of them', one(g['k'], act.n, got))


@prove('C15', 'switches of the runner', [f'{M}:SimRunner.add_command_line_switch', f'{M}:SimRunner.clear_command_line_switches'], conc=30)
def switch_list(vc):
    S, r = runner(vc, 2)
    first = vc.choice('before', [[], ['-x'], ['-I', 'a'], ['-I', 'a', '-I', 'b']])
    r.cmdline_switches = list(first)
    sw, path = vc.choice('switch', ['-I', '-x', '-y']), vc.choice('path', ['', 'a', 'b', 'c d'])
    r.add_command_line_switch(sw, path)
    vc.check('the switch and its path are the last ones', r.cmdline_switches == first + [sw] + ([path] if path else []))
    if vc.choice('cleared', [True, False]):
        r.clear_command_line_switches()
        vc.check('none is left', not r.cmdline_switches)


@prove('C15', 'waiting for all of them', [f'{M}:SimRunner.wait_completion'], internal=True, conc=0, timeout=60)
def waiting(vc):
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    S, r = runner(vc, 2)
    lim = vc.choice('timeout', [True, False])
    kill = vc.choice('abort all', [True, False])
    tout = vc.int('timeout', 0) if lim else None
    done, active = vc.seq('completed', IntK), vc.seq('active', IntK)
    r.completed_tasks, r.active_tasks = done, active
    g = {'now': vc.int('now', 0), 'news': None, 'killed': 0}
    g['news'] = g['now']          # when the last completion was seen (or the waiting began)
    g['deadline'] = None

    def clock():
        t = E.fresh_int('now')
        E.assume(t >= g['now'])
        g['now'] = t
        return t

    def look(self):
        """update_completed by its contract: finished runs move to the completed ones"""
        k = E.fresh_int('ended')
        E.assume(And(k >= 0, k <= active.n))
        f = E.fresh_int('failed')
        E.assume(And(f >= 0, f <= k))
        active.n = active.n - k
        done.n = done.n + k
        self._failSim = self._failSim + f
        self._okSim = self._okSim + k - f
        clock()
        g['news'] = Ite(k > 0, g['now'], g['news'])

    def dead(self):
        if bool(E.fresh_bool('has a limit')):
            g['deadline'] = E.fresh_int('deadline')
        else:
            g['deadline'] = None
        return g['deadline']
    vc.stub(S.SimRunner.update_completed, 'SimRunner.update_completed (its own contract)', look)
    vc.stub(S.SimRunner._maximum_stop_time, 'SimRunner._maximum_stop_time (its own contract)', dead)
    vc.stub(S.SimRunner.kill_all_spice, 'SimRunner.kill_all_spice', lambda self: g.__setitem__('killed', g['killed'] + 1))
    vc.stub(S.sleep, 'sleep', lambda t: None)
    vc.stub(S.time.time, 'time.time', clock)
    r._okSim, r._failSim = vc.int('ok', 0), vc.int('failed', 0)
    total = r._okSim + r._failSim + active.n

    def inv(L, i):
        return [active.n >= 0, done.n >= 0, r._failSim >= 0, r._okSim >= 0, r._okSim + r._failSim + active.n == total, g['news'] <= g['now']] + (
            [L.stop_time >= g['news'] + tout] if lim else []) + [g['killed'] == 0]

    def havoc(E, L):
        active.n, done.n = E.fresh_int('n'), E.fresh_int('k')
        r._okSim, r._failSim = E.fresh_int('ok'), E.fresh_int('failed')
        g['now'], g['news'], g['deadline'] = E.fresh_int('now'), E.fresh_int('news'), None
        return [active, done, r, g]
    vc.loop(f'{M}:SimRunner.wait_completion#0', inv, havoc=havoc, havoc_vals={
        'stop_time': lambda E, old, L: E.fresh_int('stop') if lim or bool(E.fresh_bool('stop known')) else None,
        'completed': lambda E, old, L: E.fresh_int('completed')})
    got = r.wait_completion(tout, kill)
    if bool(active.n == 0):
        vc.check('true exactly if all of them went well', got == (r._failSim == 0))
        vc.check('nothing is ended by force', g['killed'] == 0)
    else:
        vc.check('a wait that ends early says no', Not(got) if vc.symbolic and core.is_sym(got) else not got)
        if lim:
            vc.check('only after the timeout without any news', g['now'] > g['news'] + tout)
        else:
            vc.check('only when every run is over its own time', g['deadline'] is not None and g['now'] > g['deadline'])
        vc.check('what runs is ended only when asked for', g['killed'] == (1 if kill else 0))


@prove('C15', 'iterating yields the next successful run', [f'{M}:TaskIterator.__next__', f'{M}:TaskIterator.match_conditions'],
       internal=True, conc=0, timeout=60)
def iterate(vc):
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    S, r = runner(vc)
    T = RecordType('Task', {'retcode': IntK, 'runno': IntK, 'edits': BoolK, 'ok': BoolK})
    done = vc.seq('completed', T)
    r.completed_tasks = done
    active = vc.seq('active', IntK)
    r.active_tasks = active
    filt = vc.choice('filter', ['none', 'function'])
    wait = vc.choice('wait', [True, False])
    it = S.TaskIterator(r, lambda t: t, wait, None if filt == 'none' else (lambda t: t.ok))
    iter(it)
    edits, okf, ret = E.heap(T, 'edits'), E.heap(T, 'ok'), E.heap(T, 'retcode')

    def taken(p):
        """this finished run is one that is handed over"""
        c = wrap(z3.Select(ret, p) == 0)
        if filt != 'none':
            c = And(c, wrap(z3.Select(edits, p)), wrap(z3.Select(okf, p)))
        return c

    def more(self):
        # any runs may have ended since: they are appended to the completed ones
        n, k = E.fresh_int('n'), E.fresh_int('k')
        arr = E.fresh('arr', done.arr.sort())
        E.assume(And(n >= done.n, k >= 0, k + n == active.n + done.n))
        old, oldn = done.arr, done.n
        E.assume(Forall(0, oldn, lambda j: wrap(z3.Select(arr, j.e) == z3.Select(old, j.e))))
        done.arr, done.n = arr, n
        active.n = k
    vc.stub(S.SimRunner.update_completed, 'SimRunner.update_completed (its own contract)', more)
    vc.stub(S.SimRunner._maximum_stop_time, 'SimRunner._maximum_stop_time', lambda self: None)
    vc.stub(S.sleep, 'sleep', lambda t: None)
    c0 = vc.int('already seen', 0)
    E.assume(c0 <= done.n)
    vc.rep(it, _iterator_counter=c0)

    def inv(L, i):
        k = it._iterator_counter
        return [k >= c0, k <= done.n, Forall(c0, k, lambda j: Not(taken(at(done, j)._id))), done.n >= 0, active.n >= 0]

    def havoc(E, L):
        it._iterator_counter = E.fresh_int('counter')
        done.n, done.arr = E.fresh_int('n'), E.fresh('arr', done.arr.sort())
        active.n = E.fresh_int('k')
        return [done, active, it]
    vc.loop(f'{M}:TaskIterator.__next__#0', inv, havoc=havoc)
    got, exc = vc.raises(lambda: next(it), StopIteration)
    k = it._iterator_counter
    if exc is None:
        vc.check('the run is a finished one, and is now behind', And(k >= c0 + 1, k <= done.n, at(done, k - 1) == got))
        vc.check('it ended well and passes the filter', taken(got._id))
        vc.check('no such run was left out', Forall(c0, k - 1, lambda j: Not(taken(at(done, j)._id))))
    else:
        vc.check('the end: every finished run was looked at', k == done.n)
        vc.check('none of them was to be handed over', Forall(c0, k, lambda j: Not(taken(at(done, j)._id))))
        if wait:
            vc.check('and nothing is running', active.n == 0)


@prove('C15', 'run numbers make file names unique', [f'{M}:SimRunner._run_file_name'], conc=60)
def names(vc):
    """the name of a run is <stem>_<number><suffix>; of two names with different numbers the parts after the last _ differ"""
    S, r = runner(vc)
    n1, n2 = vc.int('first', 1, 10 ** 6), vc.int('second', 1, 10 ** 6)
    stems = ['a', 'a_1', 'a_', 'b.c', 'x y', 'My.Filter.v2', 'A']
    s1, s2 = vc.choice('stem 1', stems), vc.choice('stem 2', stems)
    e1 = vc.choice('suffix', ['.net', '.qsch', '.asc', ''])
    if vc.symbolic:
        n1, n2 = vc.choice('n1', [1, 9, 11, 12, 121]), vc.choice('n2', [1, 2, 11, 21, 112])
    if n1 == n2:
        return
    r._runno = n1
    f1 = r._run_file_name(s1 + e1)
    r._runno = n2
    f2 = r._run_file_name(Path(s2 + e1))
    vc.check('the file is named after the netlist and the run', all(
        f == p.stem + f"_{n}" + ('.net' if e1 == '.qsch' else p.suffix) for f, p, n in ((f1, Path(s1 + e1), n1), (f2, Path(s2 + e1), n2))))
    vc.check('different runs have different files', f1 != f2)
    vc.check('also once their suffix is replaced', Path(f1).with_suffix('.log') != Path(f2).with_suffix('.log'))
    vc.check('a QSPICE schematic is run as a netlist', not f1.endswith('.qsch'))


@prove('C15', 'the netlist of a run is a file of its own', [f'{M}:SimRunner._prepare_sim', f'{M}:SimRunner._to_output_folder', f'{M}:SimRunner._on_output_folder',
                                                            f'{M}:SimRunner._run_file_name'], internal=True, conc=0, timeout=60)
def prepared(vc):
    """for every run number: what is given is copied, never moved, to a file that carries the number of the run"""
    if not vc.symbolic:
        return vc.assume(False)
    S, r = runner(vc, 2)
    BE = vc.mod('editor.base_editor').BaseEditor
    n = vc.int('runs so far', 0)
    r._runno = n
    out = vc.choice('output folder', [None, Path('/out/f')])
    r.output_folder = out
    form = vc.choice('given as', ['str', 'path', 'editor', 'qsch', 'number'])
    named = vc.choice('name of the run', [None, 'mine.net'])
    given = Path('/in/my.filter' + ('.qsch' if form == 'qsch' else '.net'))
    copies, saves = [], []

    class Ed(BE):
        circuit_file = given

        def __init__(self):
            pass

        def save_netlist(self, to):
            saves.append(to)
    Ed.__abstractmethods__ = frozenset()
    src = str(given) if form == 'str' else given if form == 'path' else 7 if form == 'number' else Ed()

    def copy(a, b):
        copies.append((a, b))
        return str(b)

    def never(*a):
        vc.check('the file given stays where it is', False)
    vc.stub(S.shutil.copy, 'shutil.copy: its second argument is the name of the copy', copy)
    vc.stub(S.shutil.move, 'shutil.move', never)
    got, exc = vc.raises(lambda: r._prepare_sim(src, named), TypeError)
    if form == 'number':
        vc.check('anything else is refused', exc is not None and not copies and not saves)
        return
    vc.check('it is accepted', exc is None)
    vc.check('one run number more', r.runno == n + 1)
    vc.check('one file is written, and that is the one that is run',
             len(copies) + len(saves) == 1 and isinstance(got, Path) and (saves == [got] if form in ('editor', 'qsch') else copies == [(given, got)]))
    folder = out if out is not None else Path('.') if form in ('editor', 'qsch') else given.parent
    vc.check('in the output folder, if there is one', got.parent == folder)
    if named is not None:
        vc.check('under the name asked for', got.name == named)
    else:
        head, tail = got.name[:len('my.filter_')], got.name[-len('.net'):]
        number = vc.E.untoken(got.name[len(head):-len(tail)])
        if not number:
            raise core.Unsupported('a name made in another way')
        vc.check('named after the netlist and the run', And(head == 'my.filter_', tail == '.net', number[0] == n + 1))
    vc.check('what was given is not written to', got != given)


class _Pick(core.Kind):
    """one of a few values"""

    def __init__(self, name, members):
        super().__init__(name, z3.IntSort())
        self.members = members

    def wrap(self, e):
        for j, m in enumerate(self.members[:-1]):
            if bool(wrap(e == j)):
                return m
        return self.members[-1]

    def unwrap(self, v):
        return z3.IntVal(self.members.index(v))


@prove('C15', 'cleaning up removes the files of the runs and no other', [f'{M}:SimRunner.cleanup_files', f'{M}:SimRunner._del_file_ext_if_exists'],
       internal=True, conc=0, timeout=60)
def cleaned(vc):
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    S, r = runner(vc, 2)
    NET = _Pick('netlist', [Path('/o/a_1.net'), Path('/o/b.c_2.net'), Path('/o/a_3.asc'), Path('/o/a_4.cir')])
    RES = _Pick('result', [None, Path('/o/x_5.raw'), Path('/p/x_6.log'), Path('/o/x.y.fail')])
    T = RecordType('Task', {'netlist_file': NET, 'log_file': RES, 'raw_file': RES})
    done = vc.seq('completed', T)
    r.completed_tasks = done
    g = {'now': [], 'at': None, 'order': []}
    vc.stub(S.SimRunner.update_completed, 'SimRunner.update_completed (its own contract)', lambda self: g['order'].append(1))

    def delete(f):
        if f is not None:
            g['now'].append(f)
    vc.stub(S.SimRunner._del_file_if_exists, 'SimRunner._del_file_if_exists: deletes that file (bounded check)', delete)

    def inv(L, i):
        if g['at'] == 'havoc':          # assumed: nothing is known of the earlier runs
            g['at'] = 'body'
        elif g['at'] == 'body':         # at the end of the body: the files of the run just seen
            t = at(done, i - 1)
            net, own = t.netlist_file, [f for f in (t.log_file, t.raw_file) if f is not None]
            may = {net, *own, *(net.with_suffix(e) for e in ('.exe.log', '.log.raw', '.op.raw', '.db'))} | ({net.with_suffix('.net')} if net.suffix == '.asc' else set())
            must = {net, *own, net.with_suffix('.exe.log')}
            ok = must <= set(g['now']) <= may
            return {'its netlist, its results and what the simulator left, nothing else': wrap(z3.BoolVal(ok))}
        return []

    def havoc(E, L):
        g['now'] = []
        g['at'] = 'havoc'
        return [g]
    vc.loop(f'{M}:SimRunner.cleanup_files#0', inv, havoc=havoc)
    r.cleanup_files()
    vc.check('the runs that have ended meanwhile are among them', len(g['order']) == 1)


# --- real threads -----------------------------------------------------------------------------------------------------

class Board:
    """the simulations in progress, and who may end"""

    def __init__(self, plan):
        self.lock = threading.Lock()
        self.plan = plan                 # file stem -> (code, files)
        self.gates, self.running, self.peak, self.order, self.starts = {}, set(), 0, [], []
        self.given = {}

    def run(self, netlist, switches=None, timeout=None, *, cwd=None, exe_log=False):
        stem = Path(netlist).stem
        g = threading.Event()
        with self.lock:
            self.starts.append(netlist)
            self.given[stem] = (list(switches), timeout, cwd, exe_log)
            self.gates[stem] = g
            self.running.add(stem)
            self.peak = max(self.peak, len(self.running))
        if not g.wait(20):
            raise RuntimeError('the schedule never let this run end')
        code, files = self.plan(stem)
        for f in files:
            Path(netlist).with_suffix(f).write_text(stem)
        with self.lock:
            self.running.discard(stem)
            self.order.append(stem)
        if code == 'raise':
            raise OSError('simulator broke')
        return code

    def release(self, stem):
        self.gates.pop(stem).set()


def fake(bx_mod, board):
    Sim = bx_mod('sim.simulator').Simulator

    class Fake(Sim):
        spice_exe = ['/bin/false']
        process_name = 'no-such-process'
        raw_extension = '.raw'

        @classmethod
        def run(cls, *a, **k):
            return board.run(*a, **k)

        @classmethod
        def valid_switch(cls, *a):
            return []
    return Fake


@bounded('C15', 'schedules of real runs', [f'{M}:SimRunner.run', f'{M}:SimRunner.run_now', f'{M}:SimRunner.wait_completion',
                                           f'{M}:TaskIterator.__next__', 'sim.run_task:RunTask.run'], scratch=True)
def schedules(bx):
    S = bx.mod(M)
    RT = bx.mod('sim.run_task')
    SE = bx.mod('editor.spice_editor')
    real_sleep = _time.sleep
    contain(S)
    for r in bx.each(250, 3000):
        d = bx.dir()
        os.chdir(d)       # without output folder an edited netlist is run in the current folder
        outf = r.choice([None, 'out', 'out'])
        base = r.choice(['cir', 'cir', 'cir', 'Cir', 'cir.v1', 'My_cir.rev.2'])
        other = r.choice(['cir2', base + '.x', 'cir'])
        net = os.path.join(d, base + '.net')
        with open(net, 'w') as f:
            f.write('* x\nR1 a 0 1k\nV1 a 0 1\n.tran 1\n.end\n')
        codes = {}
        raw_ext = r.choice(['.raw', '.raw', '.qraw'])

        def plan(stem):
            return codes.setdefault(stem, (r.choice([0, 0, 0, 1, -1, -2, 255, 'raise']), (raw_ext, '.log')))
        for k in range(1, 30):      # decided beforehand, the threads only look it up
            plan(f'{base}_{k}'), plan(f'named{k}'), plan(f'{other}_{k}')
        board = Board(plan)
        par = r.choice([1, 1, 2, 3, 4])
        limit, wd = r.choice([None, 600]), r.choice([None, None, 'wd'])
        Fake = fake(bx.mod, board)
        Fake.raw_extension = raw_ext
        Fake.valid_switch = classmethod(lambda c, s, p='': [s, p] if p else [s])
        run = S.SimRunner(simulator=Fake, parallel_sims=par, timeout=limit,
                          output_folder=None if outf is None else os.path.join(d, outf), cwd=None if wd is None else os.path.join(d, wd))
        log, tasks, calls = [], {}, []
        switches = []                    # of the runner
        shared = [None, {}]              # an editor that is used for several runs, and its edits so far
        forms = {}                       # what the simulator is to get for a run
        os.makedirs(os.path.join(d, 'more'), exist_ok=True)
        over = [0]                       # runs started without waiting for resources

        def end_some(n=1):
            """let n of the running simulations end, and wait until their threads are through"""
            for _ in range(n):
                with board.lock:
                    stems = sorted(board.gates)
                if not stems:
                    return False
                s = r.choice(stems)
                log.append(('ends', s))
                board.release(s)
                t = next((t for t in tasks.values() if t.netlist_file.stem == s), None)
                if t is not None:
                    t.join(20)
            return True

        def nap(x=0):
            # the program waits: meanwhile a simulation ends (or nothing happens)
            if x > 0.05 and not hold and r.random() < .8:
                end_some(r.choice([1, 1, 2]))
            real_sleep(0)
        hold = []
        S.sleep = nap
        RT.sleep = nap
        try:
            its, seen, edits = [], {}, {}
            expected = 0
            for _ in range(r.randint(2, 9)):
                k = r.choice(['run', 'run', 'run', 'run', 'now', 'end', 'wait', 'iter', 'iterpart', 'force', 'count', 'tasks', 'brief', 'switch'])
                if k in ('run', 'force'):
                    expected += 1
                    n = expected
                    what = r.choice(['path', 'editor', 'str', 'other', 'shared', 'shared'])
                    if what == 'other':
                        net2 = os.path.join(d, 'more', other + '.net')
                        open(net2, 'w').write(open(net).read())
                        src, stem = net2, f'{other}_{n}'
                    elif what == 'shared':
                        if shared[0] is None:
                            shared[0] = SE.SpiceEditor(net)
                        src, stem = shared[0], f'{base}_{n}'
                        for c in r.sample(['R1', 'V1'], r.randint(0, 2)):
                            shared[1][c] = r.choice(['1k', '2k', '5'])
                            src[c].value = shared[1][c]
                        if shared[1]:
                            edits[n] = dict(shared[1])
                    else:
                        src = {'path': Path(net), 'str': net, 'editor': None}[what] or SE.SpiceEditor(net)
                        if what == 'editor':
                            for c in r.sample(['R1', 'V1'], r.randint(0, 2)):
                                edits.setdefault(n, {})[c] = r.choice(['1k', '2k', '5'])
                                src[c].value = edits[n][c]
                        stem = f'{base}_{n}'
                    kw = {}
                    if r.random() < .3:
                        kw['switches'] = r.choice([['-x'], ['-q', '1', '-q', '2'], []])
                    if r.random() < .3:
                        kw['timeout'] = r.choice([500, 700])
                    if r.random() < .2:
                        kw['exe_log'] = True
                    if r.random() < .15:
                        stem = f'named{n}'
                        kw['run_filename'] = stem + '.net'
                    forms[stem] = (list(kw.get('switches') or switches), kw.get('timeout', limit), run.cwd, kw.get('exe_log', False))
                    if r.random() < .4:
                        kw['callback'] = lambda raw, log, n: calls.append(n) or ('cb', n)
                        kw['callback_args'] = r.choice([(n,), {'n': n}])
                        if r.random() < .5:
                            kw['callback_on_error'] = True
                    t = run.run(src, wait_resource=k == 'run', **kw)
                    log.append((k, n, stem, kw))
                    bx.check(t is not None and t.runno == n == run.runno, 'every run has its own number', log)
                    want = Path(d if outf is None else os.path.join(d, outf)) / (stem + '.net')
                    if what == 'other' and outf is None:
                        want = Path(d, 'more', stem + '.net')
                    bx.check(t.netlist_file.absolute() == want and want.exists(), 'and its own netlist', (log, t.netlist_file))
                    if what in ('editor', 'shared'):
                        bx.check(edits.get(n, {}).items() <= {(x.split()[0], x.split()[3]) for x in want.read_text().splitlines() if x[:2] in ('R1', 'V1')},
                                 'with the edits made so far', (log, want.read_text()))
                    if r.random() < .3:            # the editor goes on being edited while the simulation is running
                        if what == 'shared':
                            c = r.choice(['R1', 'V1'])
                            shared[1][c] = r.choice(['1k', '2k', '5'])
                            src[c].value = shared[1][c]
                        elif what == 'editor':
                            src[r.choice(['R1', 'V1'])].value = r.choice(['1k', '2k', '5'])
                    for _ in range(2000):
                        if stem in board.gates or not t.is_alive():
                            break
                        real_sleep(.001)
                    t.want = (stem, kw)
                    tasks[n] = t
                    if k == 'force':
                        over[0] += 1
                    bx.check(len(board.running) <= par + over[0], 'never more than allowed run at the same time', (log, board.running))
                elif k == 'now':
                    expected += 1
                    n = expected
                    stem = f'{base}_{n}'
                    stop = threading.Event()
                    forms[stem] = (list(switches), limit, run.cwd, False)

                    def freer():
                        while not stop.is_set():
                            with board.lock:
                                g = board.gates.pop(stem, None)
                            if g:
                                g.set()
                                return
                            real_sleep(.001)
                    th = threading.Thread(target=freer)
                    th.start()
                    src = net if r.random() < .5 else SE.SpiceEditor(net)
                    if src is not net and r.random() < .5:
                        edits[n] = {'R1': r.choice(['1k', '2k', '5'])}
                        src['R1'].value = edits[n]['R1']
                    raw, lg = run.run_now(src)
                    if src is not net:
                        src['V1'].value = '2k'       # not an edit of that run
                    stop.set()
                    th.join()
                    log.append(('now', n))
                    here = Path(d if outf is None else os.path.join(d, outf)) / (stem + '.net')
                    code = codes[stem][0]
                    bx.check((raw and raw.absolute(), lg and lg.absolute()) == (here.with_suffix(raw_ext) if code == 0 else None, here.with_suffix('.log' if code == 0 else '.fail')),
                             'an immediate run gives its own files', (log, raw, lg, code))
                    mine = [t for t in run.completed_tasks if t.runno == n]
                    bx.check(len(mine) == 1, 'an immediate run is completed once', log)
                    mine[0].want = (stem, {})
                    tasks[n] = mine[0]
                elif k == 'end':
                    end_some()
                elif k == 'switch':
                    if r.random() < .25:
                        run.clear_command_line_switches()
                        switches.clear()
                    for _ in range(r.randint(1, 3)):
                        sw = r.choice(['-I', '-I', '-x']), r.choice(['a b', 'c', ''])
                        run.add_command_line_switch(*sw)
                        switches.extend(x for x in sw if x)
                    log.append(('switches', list(switches)))
                elif k == 'wait':
                    ok = run.wait_completion()
                    log.append(('wait', ok))
                    bx.check(not board.running and not any(t.is_alive() for t in tasks.values()), 'waiting returns when all are done', log)
                    bx.check(ok == all(codes[t.want[0]][0] == 0 for t in tasks.values()), 'and tells whether all went well', log)
                elif k == 'iter':
                    got = list(run)
                    log.append(('iter', len(got)))
                    bx.check(not board.running, 'iterating to the end waits for all', log)
                    check_results(bx, got, run, tasks, codes, log)
                elif k == 'iterpart':
                    if not its or r.random() < .5:
                        its.append(iter(run))
                        seen[len(its) - 1] = []
                    j = r.randrange(len(its))
                    for _ in range(r.randint(1, 3)):
                        v = next(its[j], None)
                        if v is None:
                            break
                        seen[j].append(v)
                    log.append(('iterpart', j, len(seen[j])))
                elif k == 'brief':
                    hold.append(1)
                    ok = run.wait_completion(timeout=0.001)
                    hold.pop()
                    log.append(('brief wait', ok))
                    bx.check(ok == (not board.running and all(codes[t.want[0]][0] == 0 for t in tasks.values())),
                             'a wait that is too short says no', (log, board.running))
                elif k == 'tasks':
                    got = list(run.tasks())
                    good = [n for n, t in tasks.items() if codes[t.want[0]][0] == 0]
                    bx.check(sorted(t.runno for t in got) == good, 'the tasks that went well, each once', (log, [t.runno for t in got]))
                else:
                    a = run.active_threads()
                    log.append(('count', a))
                    fin = [t for t in tasks.values() if not t.is_alive()]
                    bx.check(a == len(tasks) - len(fin), 'the number of active runs', (log, a))
                    bx.check(run.okSim == sum(codes[t.want[0]][0] == 0 for t in fin) and run.okSim + run.failSim == len(fin),
                             'the counts so far', (log, run.okSim, run.failSim, len(fin)))
            ok = run.wait_completion()
            bx.check(not board.running, 'waiting returns when all are done', log)
            bx.check(board.given == forms, 'each is given its switches, its timeout, its folder', (log, board.given, forms))
            bx.check(sorted(board.starts) == sorted(str(t.netlist_file.absolute()) for t in tasks.values()), 'every run is started once', (log, board.starts))
            good = [n for n, t in tasks.items() if codes[t.want[0]][0] == 0]
            bx.check(run.runno == expected == len(tasks) and run.okSim == len(good) and run.failSim == expected - len(good), 'the counts add up',
                     (log, run.runno, run.okSim, run.failSim))
            bx.check(ok == (len(good) == expected), 'waiting tells whether all went well', log)
            bx.check(sorted(t.runno for t in run.completed_tasks) == sorted(tasks) and not run.active_tasks, 'each is completed once',
                     (log, [t.runno for t in run.completed_tasks]))
            check_results(bx, list(run), run, tasks, codes, log)
            for j, it in enumerate(its):
                check_results(bx, seen[j] + rest(it), run, tasks, codes, log)
            for _ in range(4):
                cond = {c: r.choice(['1k', '2k', '5', ['1k', '2k'], ('5',), {'1k', '5'}, '1k 5 2k', '15']) for c in r.sample(['R1', 'V1'], r.randint(1, 2))}
                want = [n for n in good if all(n in edits and c in edits[n] and
                                               (edits[n][c] in v if not isinstance(v, str) else edits[n][c] == v) for c, v in cond.items())]
                got = sorted(t.runno for t in run.tasks(cond))
                bx.check(got == want, 'the tasks that satisfy the conditions', (log, edits, cond, got))
                v = r.choice(['1k', '2k'])
                got = sorted(t.runno for t in run.tasks(lambda t: t.value('R1') == v))
                bx.check(got == [n for n in good if edits.get(n, {}).get('R1') == v], 'the tasks that satisfy the function', (log, edits, v, got))
            info = run.sim_info()
            bx.check(sorted(info) == sorted(tasks), 'every run is in the summary', (log, info))
            for n, v in info.items():
                code = codes[tasks[n].want[0]][0]
                bx.check(v['retcode'] == (-2 if code == 'raise' else code) and v['netlist_file'] == tasks[n].netlist_file
                         and (v['raw_file'] is not None) == (code == 0) and ('edits' in v) == (n in edits), 'the summary of a run is its own', (log, n, v))
            cb = [n for n, t in tasks.items() if 'callback' in t.want[1] and (n in good or t.want[1].get('callback_on_error'))]
            bx.check(sorted(calls) == cb, 'every callback that is due is called once', (log, calls, cb))
            if r.random() < .3:
                others = {p for p in Path(d).rglob('*') if p.name.startswith('other')}
                keep = ['cir_x.raw']
                for t in r.sample(sorted(tasks.values(), key=lambda t: t.runno), min(2, len(tasks))):
                    keep.append(t.netlist_file.stem + r.choice(['.asc', '.txt', '.plt', '.qsch', '.net.bak']))
                for k in keep:
                    Path(d, k).write_text('keep')
                    if outf:
                        Path(d, outf, k).write_text('keep')
                run.cleanup_files()
                left = {p.name for p in Path(d).rglob('*') if p.is_file()}
                bx.check(base + '.net' in left and set(keep) <= left and all(Path(d, k).exists() and (not outf or Path(d, outf, k).exists()) for k in keep), 'cleaning up keeps files that are not of the runs', (log, left))
                mine = [p for t in tasks.values() for p in (t.netlist_file, t.log_file, t.raw_file) if p is not None and p.exists()]
                bx.check(not mine, 'cleaning up removes the files of the runs', (log, mine))
        finally:
            S.sleep = real_sleep
            RT.sleep = real_sleep
            with board.lock:
                for g in board.gates.values():
                    g.set()
        bx.done(log, nontrivial=len(board.order) > 1)


def check_results(bx, got, run, tasks, codes, log):
    want = []
    for n, t in tasks.items():
        stem, kw = t.want
        if codes[stem][0] == 0:
            want.append(('cb', n) if 'callback' in kw else (t.netlist_file.with_suffix(run.simulator.raw_extension), t.netlist_file.with_suffix('.log')))
    bx.check(sorted(map(str, got)) == sorted(map(str, want)), 'iterating yields the result of each successful run once', (log, got, want))


def rest(it):
    """what is left of an iteration (asking an iteration for an iterator starts it again)"""
    out = []
    while True:
        try:
            out.append(next(it))
        except StopIteration:
            return out
