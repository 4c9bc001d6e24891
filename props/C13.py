"""C13 - stepped simulations cover the Cartesian product exactly once."""
import csv
import io
import itertools
import os
import z3
from pyvc import core
from pyvc.core import RecordType, IntK, StrK, SRef, to_z3
from pyvc.api import *

M = 'sim.sim_stepping'
ASSUMPTIONS = ["the values of a sweep are the ones the iterable gives, the same each time it is iterated",
               "the runner given to the stepper starts one simulation per call of run() (C15)"]

NET = '''* a circuit
V1 in 0 5
R1 in out 1k
R2 out 0 2k
C1 out 0 1n
D1 out 0 1N4148
X1 in out amp
.param res=1 gain=2
+ off=3
.subckt amp a b
R1 a b 5
C7 b 0 1p
.ends
.tran 1m
.end
'''


class Task:
    def __init__(self, runno, name):
        from pathlib import Path
        self.runno, self.netlist_file = runno, Path(name)


class Runner:
    """takes the circuit as it is when it is launched"""

    def __init__(self, skip=()):
        self.runs, self.waits, self.skip, self.n = [], 0, skip, 0
        self.okSim = self.failSim = self.runno = 0

    def run(self, netlist, **kw):
        s = io.StringIO()
        netlist.save_netlist(s)
        self.n += 1
        self.runno = self.n
        self.runs.append((s.getvalue(), kw))
        if self.n in self.skip:
            return None
        return Task(self.n, kw.get('run_filename') or f'a_{self.n}.net')

    def wait_completion(self, timeout=None, abort_all_on_timeout=False):
        self.waits += 1
        return True


def dims(bx, r, sweeps):
    """dimensions: (what, name, iterable, values)"""
    out = []
    free = [('param', 'res'), ('param', 'gain'), ('param', 'off'), ('param', 'fresh'), ('component', 'R1'), ('component', 'R2'), ('component', 'C1'),
            ('component', 'V1'), ('model', 'D1'), ('component', 'X1:R1'), ('component', 'X1:C7')]
    r.shuffle(free)
    shared = None
    for what, name in free[:r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4])]:
        n = r.choice([1, 1, 2, 2, 3, 3, 4, 5]) if len(out) < 2 else r.randint(1, 3)
        if r.random() < .04:
            n = 0
        if what == 'model':
            vals = r.sample(['BAT54', 'BAT46WJ', '1N4148', 'DX', 'D_2'], n)
        elif name == 'V1':
            vals = r.sample([3, 3.3, 'SINE(0 1 1k)', '5', 12, 'PWL(0,1,1m,2)'], n)
        else:
            vals = r.sample(['10', '4.7u', 100, 2200.0, 1e-9, '{res*2}', '33k', 0, 1, '1meg', 7], n)
        how = r.choice(['list', 'tuple', 'gen', 'iter', 'sweep', 'range', 'shared', 'dict', 'map', 'sweepn', 'log'])
        if how in ('sweep', 'shared', 'sweepn', 'log', 'range') and (what == 'model' or n == 0):
            how = 'list'
        if how == 'list':
            it = list(vals)
        elif how == 'tuple':
            it = tuple(vals)
        elif how == 'gen':
            it = (v for v in list(vals))
        elif how == 'iter':
            it = iter(list(vals))
        elif how == 'map':
            it = map(lambda v: v, list(vals))
        elif how == 'dict':
            it = {v: 0 for v in vals}.keys()
        elif how == 'range':
            it = range(1, 1 + n)
            vals = list(it)
        elif how == 'sweep':
            it = sweeps.sweep(1, n, 1)
            vals = [1 + i for i in range(n)]
        elif how == 'sweepn':
            n = max(n, 2)
            it = sweeps.sweep_n(1, n, n)
            vals = [1 + i for i in range(n)]
        elif how == 'log':
            it = sweeps.sweep_log(1, 2 ** (n - 1), 2)
            vals = [2 ** i for i in range(n)]
        else:
            if shared is None:
                shared = (sweeps.sweep(1, n, 1), [1 + i for i in range(n)])
            it, vals = shared
        out.append((what, name, it, list(vals), how))
    return out


U = []


def same(text, v):
    if str(text).replace(' ', '') == str(v).replace(' ', ''):
        return True
    try:
        x, y = U[0].to_float(str(text), accept_invalid=False), U[0].to_float(str(v), accept_invalid=False)
        return abs(x - y) <= 1e-5 * max(abs(x), abs(y))
    except Exception:
        return False


def add(st, what, name, it):
    {'param': st.add_param_sweep, 'component': st.add_value_sweep, 'model': st.add_model_sweep}[what](name, it)


@bounded('C13', 'sweeps of any kind over a circuit', [f'{M}:SimStepper.run_all', f'{M}:SimStepper.total_number_of_simulations',
         f'{M}:SimStepper.export_step_info', f'{M}:StepInfo', f'{M}:SimStepper.add_param_sweep', f'{M}:SimStepper.add_value_sweep',
         f'{M}:SimStepper.add_model_sweep'])
def stepping(bx):
    m, E = bx.mod(M), bx.mod('editor.spice_editor')
    sweeps = bx.mod('utils.sweep_iterators')
    U[:] = [bx.mod('utils.float_unit')]
    d = bx.dir()
    f, g, o = os.path.join(d, 'a.net'), os.path.join(d, 'b.net'), os.path.join(d, 'o.csv')
    for r in bx.each(250, 4000):
        with open(f, 'w') as h:
            h.write(NET)
        ed = E.SpiceEditor(f)
        run = Runner(skip=set(r.sample(range(1, 20), r.choice([0, 0, 0, 1, 3]))))
        st = m.SimStepper(ed, run)
        log = []
        table = {}
        fixed = {}
        done = 0
        for turn in range(r.choice([1, 1, 1, 2])):
            ds = dims(bx, r, sweeps)
            if turn:
                old = [x[1] for x in kept]
                ds = kept + [x for x in ds if x[1] not in old][:1]
                new = ds[len(kept):]
            else:
                new = ds
            kept = ds
            asked = []
            log.append(asked)
            log.append([(a, b, vals, how) for a, b, _, vals, how in new])
            for a, b, it, _, _ in new:
                add(st, a, b, it)
            if r.random() < .4:
                for k, v in r.sample([('off', 77), ('R2', '8k'), ('extra', 5), ('X1:R1', 3), ('C1', '3p'), ('D1', 'DY'), ('gain', '{res+1}'), ('more', 1e-3)],
                                     r.choice([1, 1, 2, 3])):
                    if k not in [x[1] for x in ds]:
                        fixed[k] = v
                        asked.append((k, v))
                        if k == 'D1':
                            st.set_element_model(k, v)
                        else:
                            (st.set_component_value if k[0] in 'RCX' else st.set_parameter)(k, v)
            if r.random() < .3:
                some = {k: v for k, v in r.sample([('C1', '4p'), ('R2', 3300), ('R1', '9'), ('V1', 2)], r.choice([1, 2, 3, 4])) if k not in [x[1] for x in ds]}
                fixed.update(some)
                asked.append(some)
                st.set_component_values(**some)
            if r.random() < .3:
                some = {k: v for k, v in r.sample([('off', 1), ('gain', 'res*3'), ('wide', 9), ('res', 4)], r.choice([1, 2, 3, 4])) if k not in [x[1] for x in ds]}
                fixed.update(some)
                asked.append(some)
                st.set_parameters(**some)
            want = list(itertools.product(*[x[3] for x in ds]))
            if r.random() < .8:
                bx.check(st.total_number_of_simulations() == len(want), 'the number announced is the number of combinations',
                         (log, st.total_number_of_simulations(), len(want)))
            names = r.random() < .3
            calls = []

            def namer(**kw):
                calls.append(kw)
                return f'run_{len(calls)}.net'
            cb = r.choice([None, print])
            opts = {k: v for k, v in [('callback', cb), ('callback_args', r.choice([None, (1, 2), {'a': 3}])), ('switches', r.choice([None, ['-a', '-b']])),
                                      ('timeout', r.choice([None, 5, 0.5])), ('exe_log', r.choice([True, False]))] if r.random() < .8}
            wait, waits = r.random() < .7, run.waits
            st.run_all(filenamer=namer if names else None, wait_completion=wait, **opts)
            bx.check(run.waits - waits == wait, 'the runs are waited for when asked', log)
            got = run.runs[done:]
            bx.check(len(got) == len(want), 'one simulation per combination', (log, len(got), len(want)))
            bx.check(not names or len(calls) == len(want), 'each run gets its name', log)
            for i, (combo, (text, kw)) in enumerate(zip(want, got)):
                with open(g, 'w') as h:
                    h.write(text)
                rd = E.SpiceEditor(g)
                now = {b: v for (_, b, *_), v in zip(ds, combo)}
                for what, b, *_ in ds:
                    v = rd.get_parameter(b) if what == 'param' else rd.get_component_value(b)
                    bx.check(same(v, now[b]), 'the circuit carries the values of the combination when it is launched', (log, i, b, v, now[b]))
                for b in ('R1', 'R2', 'C1', 'V1', 'D1', 'X1:R1', 'X1:C7'):
                    if b not in now:
                        v0 = fixed.get(b, {'R1': '1k', 'R2': '2k', 'C1': '1n', 'V1': '5', 'D1': '1N4148', 'X1:R1': '5', 'X1:C7': '1p'}[b])
                        bx.check(same(rd.get_component_value(b), v0), 'what is not swept stays', (log, i, b))
                bx.check(all((kw.get(k) or None) == (opts.get(k) or None) for k in ('callback', 'callback_args', 'switches', 'timeout', 'exe_log')),
                         'what is asked for is passed on', (log, kw, opts))
                for b in fixed:
                    if b not in now and b[0].islower():
                        bx.check(same(rd.get_parameter(b), fixed[b]), 'a parameter set stays', (log, i, b, rd.get_parameter(b)))
                if names:
                    bx.check(kw['run_filename'] == f'run_{i + 1}.net' and all(calls[i][b] == v for b, v in now.items()), 'the name is for that combination', log)
                if done + i + 1 not in run.skip:
                    table[done + i + 1] = dict(fixed, **now)
            done = len(run.runs)
        bx.check(sorted(st.sim_info) == sorted(table), 'the table has one row per simulation launched', (log, sorted(st.sim_info), sorted(table)))
        for k, row in table.items():
            for b, v in row.items():
                bx.check(st.sim_info[k].get(b) == v, 'a row of the table has the values of its simulation', (log, k, b, st.sim_info[k], v))
        sep = r.choice([None, None, ',', '\t', ' '])
        st.export_step_info(o, *([sep] if sep else []))
        with open(o, newline='') as h:
            rows = list(csv.DictReader(h, delimiter=sep or ';'))
        bx.check([int(float(x['runno'])) for x in rows] == sorted(table), 'the table is exported, a row per simulation', (log, rows))
        for x in rows:
            for b, v in table[int(float(x['runno']))].items():
                bx.check(b in x and same(x[b], v), 'an exported row has the values of its simulation', (log, x, b, v))
        bx.done(str(log))


# --- proof: any number of dimensions, of any length --------------------------------------------------------------------

@prove('C13', 'the first launch is the first combination, each launch is the one after the previous one in the order of the dimensions, the last is the last',
       [f'{M}:SimStepper.run_all'], internal=True, conc=0, budget=200)
def odometer(vc):
    """val(d, k) is the k-th value of dimension d; pos counts the values of a dimension used since it was (re)started"""
    if not vc.symbolic:
        return vc.assume(False)
    m = vc.mod(M)
    E = core.eng()
    val_ = z3.Function('val', z3.IntSort(), z3.IntSort(), z3.IntSort())
    raw = lambda d: d if z3.is_expr(d) else to_z3(d)
    val = lambda d, k: core.wrap(val_(raw(d), raw(k)))
    sweep = RecordType('Sweep', {'pos': IntK, 'n': IntK})
    cell = RecordType('Cell', {'ed': IntK, 'cur': IntK, 'prev': IntK})
    step = RecordType('Step', {'what': StrK, 'elem': IntK, 'iter': sweep})
    S = lambda d: SRef(sweep, raw(d))
    C = lambda d: SRef(cell, raw(d))

    class Ghost:
        first, desc, piv, waits = True, False, 0, 0
    G = Ghost()

    def start(s):
        s.pos = 0
        return s

    def nxt(s):
        if bool(s.pos < s.n):
            if bool(G.desc):
                G.piv, G.desc = core.wrap(s._id), False
            s.pos = s.pos + 1
            return val(s._id, s.pos - 1)
        G.desc = True
        raise StopIteration
    sweep.methods = {'__iter__': start, '__next__': nxt}

    dims = vc.seq('dims', step)
    D = vc.len(dims)
    vc.assume(Forall(0, D, lambda d: And(at(dims, d).iter == S(d), at(dims, d).elem == d, S(d).n >= 1, S(d).pos == 0,
                                         Or([at(dims, d).what == w for w in ('param', 'component', 'model')]))))

    class Editor:
        def put(self, what, d, v):
            vc.check('a dimension is set as what it is', at(dims, d).what == what)
            C(d).ed = v

        def set_parameter(self, d, v):
            self.put('param', d, v)

        def set_component_value(self, d, v):
            self.put('component', d, v)

        def set_element_model(self, d, v):
            self.put('model', d, v)

    class Values:
        def __setitem__(self, d, v):
            C(d).cur = v

        def copy(self):
            return {}

    class Launched:
        netlist_file = __import__('pathlib').Path('a_1.net')
        runno = 1

    class Infos:
        def __setitem__(self, k, v):
            vc.check('the table has the values of the launch', Forall(0, D, lambda d: C(d).cur == val(d, S(d).pos - 1)))

    class Run:
        def run(self, ed, **kw):
            vc.check('the circuit carries the values of the combination', Forall(0, D, lambda d: C(d).ed == val(d, S(d).pos - 1)))
            vc.check('a combination: one value of each dimension', Forall(0, D, lambda d: And(S(d).pos >= 1, S(d).pos <= S(d).n)))
            if bool(G.first):
                vc.check('the first launch is the first combination', Forall(0, D, lambda d: S(d).pos == 1))
            else:
                t = G.piv
                vc.check('a dimension moves on', And(t >= 0, t < D, S(t).pos == C(t).prev + 1))
                vc.check('the slower dimensions stay', Forall(0, t, lambda d: S(d).pos == C(d).prev))
                vc.check('the faster ones were at their end and start over', Forall(t + 1, D, lambda d: And(C(d).prev == S(d).n, S(d).pos == 1)))
            # ghost: this is now the previous launch
            E.set_heap(cell, 'prev', E.heap(sweep, 'pos'))
            G.first, G.desc = False, True
            return Launched()

        def wait_completion(self):
            G.waits += 1
    st = m.SimStepper.__new__(m.SimStepper)
    st.runner, st.editor, st.iter_list, st.current_values, st.sim_info = Run(), Editor(), [], {}, {}
    vc.rep(st, iter_list=dims, current_values=Values(), sim_info=Infos())

    def inv(L, i=None):
        k = L.iter_no
        asc = And(Not(G.first), Not(G.desc))
        dsc = And(Not(G.first), G.desc)
        return [Forall(0, D, lambda d: And(at(L.iterators, d) == S(d), at(dims, d).iter == S(d), S(d).n >= 1)),
                Implies(G.first, And(Not(G.desc), k >= 0, k <= D)),
                Forall(0, D, lambda d: Implies(G.first, S(d).pos == core.wrap(z3.If(to_z3(d < k), z3.IntVal(1), z3.IntVal(0))))),
                Forall(0, D, lambda d: Implies(Not(G.first), And(C(d).prev >= 1, C(d).prev <= S(d).n))),
                Implies(dsc, And(k >= -1, k < D)),
                Forall(0, k + 1, lambda d: Implies(dsc, S(d).pos == C(d).prev)),
                Forall(k + 1, D, lambda d: Implies(dsc, And(S(d).pos == 0, C(d).prev == S(d).n))),
                Implies(asc, And(G.piv >= 0, G.piv < k, k <= D, S(G.piv).pos == C(G.piv).prev + 1, S(G.piv).pos <= S(G.piv).n)),
                Forall(0, G.piv, lambda d: Implies(asc, S(d).pos == C(d).prev)),
                Forall(G.piv + 1, D, lambda d: Implies(asc, And(C(d).prev == S(d).n, S(d).pos == core.wrap(z3.If(to_z3(d < k), z3.IntVal(1), z3.IntVal(0)))))),
                Forall(0, D, lambda d: Implies(Or(d < k, And(dsc, d <= k)), And(C(d).ed == val(d, S(d).pos - 1), C(d).cur == val(d, S(d).pos - 1))))]

    def havoc(E, L):
        G.first, G.desc, G.piv = E.fresh_bool('first'), E.fresh_bool('desc'), E.fresh_int('piv')
        L.iterators.arr = E.fresh_seq(sweep, 'iterators').arr
        return [G, L.iterators]
    heaps = [(sweep, 'pos'), (cell, 'ed'), (cell, 'cur'), (cell, 'prev')]
    vc.loop(f'{M}:SimStepper.run_all#0', lambda L, i=None: inv(L) + [Implies(G.first, L.iter_no == 0), Implies(Not(G.first), And(G.desc, L.iter_no == D - 1))],
            havoc=havoc, heaps=heaps)
    vc.loop(f'{M}:SimStepper.run_all#1', inv, havoc=havoc, heaps=heaps)
    st.run_all()
    vc.check('something is launched', Not(G.first))
    vc.check('the last launch is the last combination', Forall(0, D, lambda d: C(d).prev == S(d).n))
    vc.check('the runs are waited for', G.waits == 1)


@prove('C13', 'the number announced is the product of the lengths of the dimensions', [f'{M}:SimStepper.total_number_of_simulations'],
       internal=True, conc=0)
def total(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m = vc.mod(M)
    step = RecordType('StepN', {'n': IntK}, methods={'len_': lambda s: s.n})
    dims = vc.seq('dims', step)
    D = vc.len(dims)
    vc.assume(Forall(0, D, lambda d: at(dims, d).n >= 0))
    P = z3.Function('combinations', z3.IntSort(), z3.IntSort())
    prod = lambda d: core.wrap(P(to_z3(d) if not z3.is_expr(d) else d))
    # ghost: combinations(0) = 1, combinations(d + 1) = combinations(d) * n(d)
    vc.assume(prod(0) == 1)
    vc.assume(Forall(0, D, lambda d: prod(d + 1) == prod(d) * at(dims, d).n))
    st = m.SimStepper.__new__(m.SimStepper)
    st.runner, st.editor, st.iter_list, st.current_values, st.sim_info = None, None, [], {}, {}
    vc.rep(st, iter_list=dims)
    vc.loop(f'{M}:SimStepper.total_number_of_simulations#0', lambda L, i: [L.total == prod(i)])
    vc.check('the product', st.total_number_of_simulations() == prod(D))


@prove('C13', 'what is set besides the sweeps is applied to the circuit, and is part of every row of the table',
       [f'{M}:SimStepper.{n}' for n in ('set_parameter', 'set_parameters', 'set_component_value', 'set_component_values', 'set_element_model',
                                       'add_instruction', 'add_instructions', 'remove_instruction', 'remove_Xinstruction')], conc=30)
def passed(vc):
    m = vc.mod(M)
    log = []

    class Ed:
        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)

            def call(*a, **k):
                log.append((n, a, k))
                return ('answer of', n)
            return call
    x = vc.int('value', -5, 5)
    st = m.SimStepper(Ed(), None)
    st.current_values['old'] = 1
    calls = [('set_parameter', ('res', x), {}), ('set_component_value', ('R1', x), {}), ('set_element_model', ('D1', 'BAT54'), {}),
             ('set_parameters', (), {'res': x, 'b': 2}), ('set_component_values', (), {'R1': x, 'C1': '1n'}), ('add_instruction', ('.op',), {}),
             ('add_instructions', ('.op', '.opt a'), {}), ('remove_instruction', ('.op',), {}), ('remove_Xinstruction', ('.op.*',), {})]
    n, a, k = vc.choice('call', calls)
    r = getattr(st, n)(*a, **k)
    vc.check('applied once', len(log) == 1 and log[0][0] == n and len(log[0][1]) == len(a) and And(True, *[p == q for p, q in zip(log[0][1], a)]) and log[0][2].keys() == k.keys())
    vc.check('all the values', And(True, *[log[0][2][p] == k[p] for p in k]))
    if n.startswith('remove'):
        vc.check('whether it was there is told', r == ('answer of', n))
    want = {'old': 1}
    if n.startswith('set'):
        want.update(k if k else {a[0]: a[1]})
    vc.check('recorded', st.current_values.keys() == want.keys() and And(True, *[st.current_values[p] == want[p] for p in want]))


@prove('C13', 'a sweep is a dimension more, with the values of what it is given, used once or many times',
       [f'{M}:SimStepper.add_param_sweep', f'{M}:SimStepper.add_value_sweep', f'{M}:SimStepper.add_model_sweep', f'{M}:StepInfo.__init__', f'{M}:StepInfo.__len__'], conc=60)
def dimension(vc):
    m = vc.mod(M)
    known = vc.choice('component', ['R1', 'missing'])

    class Ed:
        def get_component_value(self, c):
            if c == 'missing':
                raise KeyError(c)
            return '1k'
    n = vc.choice('how many', [0, 1, 2, 3])
    vals = [vc.int(f'value {i}', -9, 9) for i in range(n)]

    class Own:
        def __iter__(self):
            return iter(list(vals))
    given = {'list': lambda: list(vals), 'tuple': lambda: tuple(vals), 'iterator': lambda: iter(list(vals)), 'generator': lambda: (v for v in list(vals)),
             'own': Own}[vc.choice('given as', ['list', 'tuple', 'iterator', 'generator', 'own'])]()
    what = vc.choice('what', ['param', 'component', 'model'])
    st = m.SimStepper(Ed(), None)
    st.iter_list.append('a first one')
    f = {'param': st.add_param_sweep, 'component': st.add_value_sweep, 'model': st.add_model_sweep}[what]
    _, e = vc.raises(lambda: f(known, given), KeyError)
    bad = known == 'missing' and what != 'param'
    vc.check('a component that does not exist is refused', (e is not None) == bad)
    if bad:
        vc.check('and is no dimension', st.iter_list == ['a first one'])
        return
    vc.check('one dimension more, after the others', len(st.iter_list) == 2 and st.iter_list[0] == 'a first one')
    s = st.iter_list[1]
    vc.check('what is swept', s.what == what and s.elem == known)
    for _ in range(2):
        vc.check('as many values', vc.len(s) == n)
        got = [v for v in s.iter]
        vc.check('the same values each time', len(got) == n and And(True, *[p == q for p, q in zip(got, vals)]))


@prove('C13', 'the table that is exported has a row for each simulation, in the order of their numbers (up to 3)', [f'{M}:SimStepper.export_step_info'], internal=True, conc=0)
def exported(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m = vc.mod(M)
    E = vc.E
    order = vc.choice('numbers', [(), (1,), (1, 2), (2, 1), (3, 1, 2), (10, 9, 1)])
    cols = vc.choice('columns', [('R1',), ('R1', 'temp'), 'vary'])
    sep = vc.choice('delimiter', [None, ';', ',', '\t'])
    info = {}
    for i, k in enumerate(order):
        c = cols if cols != 'vary' else [('R1',), ('temp', 'R1'), ('C1',)][i]
        info[k] = {**{n: E.fresh_real(n) for n in c}, 'netlist': f'a_{k}.net'}
    files = []

    class F:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

    def opens(n, mode='r', *a, **k):
        files.append((n, mode))
        return F()
    vc.stub(open, 'open', opens)
    out = []

    class Writer:
        def __init__(self, f, fieldnames=(), delimiter=',', **k):
            vc.check('the delimiter', delimiter == (sep or ';'))
            self.names = list(fieldnames)

        def writeheader(self):
            out.append(self.names)

        def writerow(self, row):
            vc.check('every value has a column', set(row) <= set(self.names))
            out.append(dict(row))

        def writerows(self, rows):
            for r in rows:
                self.writerow(r)
    vc.stub(csv.DictWriter, 'csv.DictWriter: a line with the names, and the values of a row in the columns of their names', Writer)
    st = m.SimStepper.__new__(m.SimStepper)
    st.runner, st.editor, st.iter_list, st.current_values, st.sim_info = None, None, [], {}, info
    before = {k: dict(v) for k, v in info.items()}

    class Name:
        def __fspath__(self):
            raise core.Unsupported('the file is opened in another way')
    name = Name()
    st.export_step_info(name, *([sep] if sep else []))
    vc.check('the file is written', len(files) == 1 and files[0][0] is name and files[0][1].startswith('w'))
    vc.check('the names come first, once', len(out) == 1 + len(order) and isinstance(out[0], list) and len(set(out[0])) == len(out[0]))
    vc.check('one row for each simulation, in the order of their numbers', [r['runno'] for r in out[1:]] == sorted(order))
    for r in out[1:]:
        w = before[r['runno']]
        vc.check('the values of the simulation', set(r) - {'runno'} == set(w) and And(True, *[r[k] == w[k] for k in w]))
    vc.check('the table stays', list(info) == list(before) and all(info[k].keys() == before[k].keys() for k in info))
