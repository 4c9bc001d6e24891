"""C14 - tolerance analyses: which circuits are simulated, with which values, and what is reported."""
import math
import os
import random
import re
from pathlib import Path
import z3
from pyvc.api import *
from pyvc import core
from props.spicexpr import Scope, Wrong, number

TK = 'sim.tookit.'
ASSUMPTIONS = ["mc(nom,tol) is uniform over nom*(1-tol)..nom*(1+tol), flat(x) over -x..x, random() over 0..1 and gauss(s) normal with deviation s, "
               "as the simulators document",
               "numbers are written with six significant digits (%g); the deductive part takes them as exact, and floating point as real numbers",
               "in the deductive part the editor is a table of component values and parameters (its own properties are C07 to C12) and the runner "
               "runs what it is given (C15)"]
MODS = {'worst': ('worst_case', 'WorstCaseAnalysis'), 'quick': ('quick_sensitivity_analysis', 'QuickSensitivityAnalysis'),
        'fast': ('fast_worst_case', 'FastWorstCaseAnalysis'), 'mc': ('montecarlo', 'Montecarlo')}


# ---------------------------------------------------------------------------------------------------------------
# a simulator that evaluates the netlist it is given
# ---------------------------------------------------------------------------------------------------------------

class Board:
    """what was simulated: list of (run, {ref: value}, {param: value}, {measure: value})"""

    def __init__(self, refs, params, meas, rng):
        self.refs, self.params, self.meas, self.rng = refs, params, meas, rng
        self.sims = []          # one list per simulation
        self.files = []
        self.draws = {}
        self.asked = []         # instructions asked for, that every netlist has

    def simulate(self, netlist):
        text = open(netlist, encoding='utf-8', errors='replace').read()
        assert str(netlist) not in self.files, f'{netlist} simulated twice'
        self.files.append(str(netlist))
        for t in self.asked:
            if text.splitlines().count(t) != 1:
                raise Wrong(f'the instruction {t} is not in the netlist, once')
        funcs, values, comps, meas, step = Scope(), {}, {}, [], None
        for ln in re.sub(r'(?ims)^\.subckt.*?^\.ends.*?$', '', text).splitlines()[1:]:
            low = ln.strip().lower()
            w = ln.split()
            if not w or w[0][0] in '*;':
                continue
            if low.startswith('.func'):
                funcs.define(ln.strip())
            elif low.startswith('.param'):
                for m in re.finditer(r'(\w+)\s*=\s*(\{[^}]*\}|\S+)', ln.strip()[6:]):
                    values[m[1].lower()] = m[2]
            elif low.startswith('.step'):
                if step is not None:
                    raise Wrong('two .step')
                m = re.fullmatch(r'\.step param (\w+) (-?\d+) (-?\d+) (\d+)', low)
                if not m or int(m[3]) < int(m[2]):
                    raise Wrong(f'step {ln}')
                step = m[1], range(int(m[2]), int(m[3]) + 1, int(m[4]))
            elif low.startswith('.meas'):
                m = re.fullmatch(r'\.meas\s+(?:tran\s+)?(\w+)\s+PARAM\s+\{?(.*?)\}?\s*', ln.strip(), re.I)
                meas.append((m[1], m[2]))
            elif w[0][0] in 'RCLVI':
                comps[w[0].upper()] = ' '.join(w[3:])
        rows = []
        rng = self.rng

        def u():
            return rng.choice([-1.0, 1.0, rng.uniform(-1, 1), rng.uniform(-1, 1)])

        def g():
            return rng.uniform(-3, 3)
        funcs.builtins = {'mc': lambda n, t: n * (1 + t * u()), 'flat': lambda x: x * u(), 'gauss': lambda s: s * g(),
                          'random': lambda: (u() + 1) / 2, 'abs': abs, 'max': max, 'min': min}
        for run in (step[1] if step else [None]):
            vals = dict(values)
            if run is not None:
                vals[step[0]] = run
            sc = Scope(funcs.funcs, vals, funcs.builtins)
            par = {p: sc.name(p) for p in self.params if p in vals}
            cv = {}
            for ref in self.refs:
                t = comps.get(ref.upper())
                if t is None:
                    raise Wrong(f'{ref} is missing')
                cv[ref] = sc.value(t) if t.startswith('{') else (number(t) if re.match(r'[+-]?[\d.]', t) else t)
            mv = {}
            for name, ex in meas:
                mv[name] = self.meas[name](cv, par) if name in self.meas else sc.value(ex)
            r = sc.name('run') if 'run' in vals and 'run' not in self.params else None
            rows.append((r, cv, par, {k: float('%.9g' % v) for k, v in mv.items()}))
        self.sims.append(rows)
        lines = ['LTspice 24.1.1 for Windows', f'Circuit: {netlist}', '']
        if step:
            lines += [f'.step run={r[0]}' for r in rows]
            for name, _ in meas:
                lines += ['', f'Measurement: {name}', '  step\tx'] + [f'{k + 1:6d}\t{r[3][name]!r}' for k, r in enumerate(rows)]
        else:
            lines += [f'{name}: x={rows[0][3][name]!r}' for name, _ in meas]
        lines += ['', 'Total elapsed time: 0.1 seconds.', '']
        Path(netlist).with_suffix('.log').write_text('\n'.join(lines))
        Path(netlist).with_suffix('.raw').write_text('raw')
        return 0


class Now:
    """a runner that simulates at once"""

    def __init__(self, bx, board, folder, name='LTspice'):
        S = bx.mod('sim.simulator')

        class Sim(S.Simulator):
            @classmethod
            def run(cls, netlist_file, cmd_line_switches=None, timeout=None, **k):
                return board.simulate(netlist_file)

            @classmethod
            def valid_switch(cls, *a):
                return []
        Sim.__name__ = name
        self.simulator, self.folder, self.k, self.bx, self.files = Sim, folder, 0, bx, []

    def run(self, netlist, *, wait_resource=True, callback=None, callback_args=None, switches=None, timeout=None, run_filename=None,
            exe_log=False, **kw):
        self.k += 1
        f = Path(self.folder) / (run_filename or f'net_{self.k}.net')
        netlist.save_netlist(f)
        t = self.bx.mod('sim.run_task').RunTask(self.simulator, self.k, f, callback=callback, callback_args=callback_args, switches=switches,
                                               timeout=timeout, exe_log=exe_log)
        t.run()
        if t.exception_text:
            raise Wrong(t.exception_text)
        self.files += [f, f.with_suffix('.log'), f.with_suffix('.raw')]
        return t

    def wait_completion(self, *a, **k):
        return True

    def cleanup_files(self):
        for f in self.files:
            f.unlink(missing_ok=True)
        self.files.clear()


def named(c, refs):
    """references as the circuit has them"""
    m = {r.upper(): r for r in c.comps}
    return {m.get(r, r): v for r, v in refs.items()} if isinstance(refs, dict) else [m.get(r, r) for r in refs]


def near(a, b, rel=4e-6):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-30


class Circuit:
    """a circuit, tolerances, and what they denote"""

    def __init__(self, rng):
        self.rng = rng
        self.comps, self.text = {}, {}
        for i in range(rng.randint(1, 7)):
            ref = rng.choice('RRRCCLVI') + rng.choice(['', '', 'x', 'lim']) + str(i)
            t, v = rng.choice([('10k', 1e4), ('1Meg', 1e6), ('4.7n', 4.7e-9), ('100', 100), ('1e-6', 1e-6), ('2u2', 2.2e-6), ('5', 5), ('1.5k', 1500),
                               ('33p', 33e-12), ('-12', -12), ('{cval}', None), ('{2*cval}', None), ('1m', 1e-3), ('0.5', .5), ('10R', 10)]
                              if ref[0] not in 'VI' else [('5', 5), ('-12', -12), ('1m', 1e-3), ('{cval}', None), ('3.3', 3.3), ('SIN(0 1 1k)', 'SIN(0 1 1k)')])
            if t in ('10R', '2u2') and ref[0] in 'VI':
                t, v = '5', 5
            self.text[ref], self.comps[ref] = t, v
        self.params = {'cval': 3.0, 'off': 0.25}
        self.meas = {}
        dep = {r: rng.choice([1, -1, 2.5, 0, -.3]) for r in list(self.comps) + ['off']}

        def m1(cv, par):
            return sum(k * (0 if isinstance(x, str) else x / (abs(self.base(r)) or 1)) for r, k in dep.items() for x in [par[r] if r == 'off' else cv[r]])

        def m2(cv, par):
            return math.prod(2 + math.tanh(.3 * x / (abs(self.base(r)) or 1)) for r in list(cv) + ['off'] for x in [par[r] if r == 'off' else cv[r]]
                             if not isinstance(x, str))
        self.meas = {'m1': m1, 'm2': m2}
        self.user = {}
        self.tol = {}
        self.default = {}

    def base(self, r):
        if r == 'off':
            return self.params['off']
        v = self.user.get(r, (None, self.comps[r]))[1]
        return 3.0 if v is None else (1 if isinstance(v, str) else v)

    def netlist(self):
        lines = ['* title'] + [f'{r} n{i} 0 {t}' for i, (r, t) in enumerate(self.text.items())]
        lines += ['X1 n0 0 sub', '.subckt sub a b', 'R1 a b 7', '.ends', '.param cval=3 off=0.25', '.meas tran m1 PARAM x', '.meas tran m2 PARAM y', '.end', '']
        return '\n'.join(lines)

    def element(self, ref):
        """(nominal, low, high, deviation) or None; the specific tolerance first"""
        d = self.tol.get(ref) or (self.default.get(ref[0]) if ref in self.comps else None)
        if d is None:
            return None
        nom = self.user.get(ref, (None, self.comps[ref]))[1] if ref in self.comps else self.params[ref]
        if nom is None or isinstance(nom, str):
            return None
        if d[0] == 'tol':
            a, b = nom * (1 - d[1]), nom * (1 + d[1])
            return None if d[1] == 0 else (nom, a, b, d)
        return None if d[1] == d[2] else (nom, d[1], d[2], d)

    def nominal(self):
        out = {r: self.base(r) if not isinstance(self.comps[r], str) or r in self.user else self.comps[r] for r in self.comps}
        for r in out:
            if r not in self.user and self.text[r].startswith('{'):
                out[r] = 6.0 if '2*' in self.text[r] else 3.0
        return out, {'off': self.params['off'], 'cval': 3.0}

    def configure(self, an, rng, dists=('uniform',), params=True, elements=None):
        for p in rng.sample('RCLVI', rng.randint(0, 3)):
            t, dist = rng.choice([0.01, 0.05, 0.2, 0.1, 0]), rng.choice(dists)
            an.set_tolerance(p, t, dist)
            self.default[p] = ('tol', t, None, dist)
        for r in list(self.comps):
            k, dist = rng.random(), rng.choice(dists)
            if k < .25:
                t = rng.choice([0.01, 0.03, 0.1, 0.5, 0, 1e-10, 10, 0.125])
                an.set_tolerance(r, t, dist)
                self.tol[r] = ('tol', t, None, dist)
            elif k < .45:
                b = abs(self.comps[r]) if isinstance(self.comps[r], (int, float)) else 1
                lo, hi = b * rng.choice([.5, .9, .99]), b * rng.choice([1.01, 1.5, 2])
                an.set_deviation(r, lo, hi, dist)
                self.tol[r] = ('range', lo, hi, dist)
        if params and rng.random() < .4:
            dist = rng.choice(dists)
            an.set_parameter_deviation('off', 0.1, 0.4, dist)
            self.tol['off'] = ('range', .1, .4, dist)

    def elements(self):
        return {r: e for r in list(self.comps) + ['off'] for e in [self.element(r)] if e}

    def instruct(self, an, rng):
        """values the user asks for; true when one has no tolerance analysis any more"""
        for r in rng.sample(list(self.comps), min(len(self.comps), rng.choice([0, 0, 1, 2]))):
            if isinstance(self.comps[r], str):
                continue
            t, v = rng.choice([('47k', 47e3), ('8', 8), ('2.2u', 2.2e-6)])
            an.set_component_value(r, t)
            self.user[r] = (t, v)


def same(got, want):
    return got.keys() == want.keys() and all(near(got[k], want[k]) for k in want)


def point(c, moved):
    cv, par = c.nominal()
    for r, v in moved.items():
        (cv if r in cv else par)[r] = v
    return cv, par


def check_points(bx, rows, expected, what, tol=None):
    """rows [(cv, par)] are the expected ones, each once"""
    left = list(expected)
    for cv, par in rows:
        for k, (a, b) in enumerate(left):
            if same(cv, a) and same(par, b):
                del left[k]
                break
        else:
            return bx.fail(f'{what}: simulated but not asked for', f'{cv} {par}; expected one of {left[:4]}')
    bx.check(not left, f'{what}: every combination is simulated', f'missing {left[:3]}')


def corners(c, els):
    out = [point(c, {})]
    refs = list(els)
    for m in range(2 ** len(refs)):
        out.append(point(c, {r: els[r][2] if m >> i & 1 else els[r][1] for i, r in enumerate(refs)}))
    return out


def setup(bx, rng, kind, qspice=False):
    c = Circuit(rng)
    d = bx.dir()
    f = os.path.join(d, 'top.net')
    open(f, 'w').write(c.netlist())
    board = Board(list(c.comps), ['off', 'cval'], c.meas, random.Random(rng.random()))
    m, cls = MODS[kind]
    name = 'Qspice' if qspice else 'LTspice'
    an = getattr(bx.mod(TK + m), cls)(bx.mod('editor.spice_editor').SpiceEditor(f), Now(bx, board, d, name))
    return c, board, an


def report(bx, board, c, an, rows, meas=('m1', 'm2')):
    logs = an.read_logfiles()
    for m in meas:
        vals = [r[3][m] for r in rows]
        bx.check(logs[m] is not None and sorted(logs[m]) == sorted(vals), f'measured values', f'{m}: {logs[m]} {vals}')
        bx.check(logs.min_measure_value(m) == min(vals) and logs.max_measure_value(m) == max(vals), 'extremes of a measurement',
                 f'{m}: {logs.min_measure_value(m)} {logs.max_measure_value(m)} of {vals}')
        if an.analysis_executed and hasattr(an, 'get_min_max_measure_value'):
            bx.check(an.get_min_max_measure_value(m) == (min(vals), max(vals)), 'reported minimum and maximum',
                     f'{m}: {an.get_min_max_measure_value(m)} of {vals}')


@bounded('C14', 'worst case: every corner once', [TK + 'worst_case:WorstCaseAnalysis.run_analysis', TK + 'worst_case:WorstCaseAnalysis.prepare_testbench',
                                                  TK + 'tolerance_deviations:ToleranceDeviations.run_testbench'])
def worst(bx):
    for rng in bx.each(60, 500):
        c, board, an = setup(bx, rng, 'worst')
        c.configure(an, rng)
        saved = rng.random() < .3
        if not saved:
            c.instruct(an, rng)
        for rnd in range(rng.choice([1, 1, 2])):
            way = rng.choice(['analysis', 'testbench', 'testbench'])
            els = c.elements()
            board.sims.clear()
            if way == 'analysis':
                an.run_analysis(callback=(lambda raw, log: str(log)) if rng.random() < .3 else None)
                bx.check(all(len(s) == 1 for s in board.sims), 'one run per simulation', '')
            else:
                if rng.random() < .4:
                    if rng.random() < .5:
                        an.prepare_testbench()
                    else:
                        an.save_netlist(os.path.join(an.runner.folder, f'saved{rnd}.net'))
                    board.files.clear()
                if rng.random() < .4:
                    board.asked.append(f'.options asked{len(board.asked)}=1')
                    an.add_instruction(board.asked[-1])
                name = rng.choice([None, None, f'part{rnd}.net', os.path.join(an.runner.folder, f'sub{rnd}', 'my.part.net')])
                if name and os.path.isabs(name):
                    os.mkdir(os.path.dirname(name))
                r = an.run_testbench(runs_per_sim=rng.choice([512, 512, 2, 3, 4, 7, 16]), run_filename=name,
                                     callback=(lambda raw, log: str(log)) if rng.random() < .3 else None)
                bx.check(r is None or sum(1 for _ in r) == len(board.sims), 'callback results of a testbench', '')
                runs = [x[0] for s in board.sims for x in s]
                bx.check(runs == list(range(-1, 2 ** len(els))), 'the steps of a testbench', f'{runs}')
                if name:
                    where = Path(an.runner.folder, name)
                    bx.check(all(Path(f).parent == where.parent and Path(f).name.startswith(where.stem) for f in board.files),
                             'the netlists of a testbench are named as asked for', f'{name} {board.files}')
            rows = [x for s in board.sims for x in s]
            check_points(bx, [(x[1], x[2]) for x in rows], corners(c, els), f'worst case by {way}')
            bx.check(same(rows[0][1], c.nominal()[0]), 'the nominal circuit comes first', f'{rows[0]}')
            report(bx, board, c, an, rows)
            shares(bx, c, an, rows)
            board.files.clear()
            if not saved or rnd:
                c.instruct(an, rng) if way == 'analysis' else None
            if rng.random() < .3:
                an.reset_tolerances()
                c.tol.clear()
                c.default.clear()
                c.configure(an, rng)
                if rng.random() < .5:
                    an.prepare_testbench()
        bx.done(f'{len(els)} elements')


def shares(bx, c, an, rows):
    """the share of each element in the error, as the average over all corners"""
    at_ = {r[0]: r for r in rows}
    n = len(an.elements_analysed)
    mean, dev = {}, {}
    for i, el in enumerate(an.elements_analysed):
        d = [abs(at_[k][3]['m1'] - at_[k | 1 << i][3]['m1']) for k in range(2 ** n) if not k & 1 << i]
        mean[el] = sum(d) / len(d)
        dev[el] = (sum((x - mean[el]) ** 2 for x in d) / len(d)) ** .5
        for k in range(2 ** n):
            a, b = at_[k], at_[k ^ 1 << i]
            moved = [x for x in a[1] if a[1][x] != b[1][x]] + [x for x in a[2] if a[2][x] != b[2][x]]
            bx.check(set(moved) <= set(named(c, [el])), 'two runs that differ by one bit differ by that element', (el, k, moved))
    tot = sum(mean.values())
    got = an.make_sensitivity_analysis('m1')
    bx.check(set(got) == set(mean), 'the share of every element', (got, mean))
    if tot > 1e-6:
        for el, (a, b) in got.items():
            bx.check(near(a, mean[el] / tot * 100, 1e-3) or abs(a - mean[el] / tot * 100) < 1e-4, 'the average share of an element', (el, a, mean, tot))
            bx.check(abs(b - dev[el] / tot * 100) < 1e-3, 'the deviation of the share of an element', (el, b, dev, tot))
            bx.check(an.make_sensitivity_analysis('m1', el) == (a, b), 'the share of one element', el)


@bounded('C14', 'sensitivity: one component at a time', [TK + 'quick_sensitivity_analysis:QuickSensitivityAnalysis.run_analysis',
                                                         TK + 'quick_sensitivity_analysis:QuickSensitivityAnalysis.prepare_testbench',
                                                         TK + 'quick_sensitivity_analysis:QuickSensitivityAnalysis.get_sensitivity_data'])
def quick(bx):
    import contextlib
    import io
    for rng in bx.each(60, 500):
        c, board, an = setup(bx, rng, 'quick')
        way = rng.choice(['analysis', 'testbench'])
        c.configure(an, rng, params=way == 'analysis')
        c.instruct(an, rng)
        els = c.elements()
        use_min = rng.random() < .5
        if way == 'analysis':
            with contextlib.redirect_stdout(io.StringIO()):
                an.run_analysis()
        else:
            if rng.random() < .6:
                an.prepare_testbench(use_min=use_min)
            an.run_testbench(runs_per_sim=rng.choice([512, 2, 3]))
        rows = [x for s in board.sims for x in s]
        want = [point(c, {})]
        bx.check(same(rows[0][1], want[0][0]) and same(rows[0][2], want[0][1]), 'the nominal circuit comes first', f'{rows[0]} {want[0]}')
        seen = {}
        for r, cv, par, mv in rows[1:]:
            nomc, nomp = point(c, {})
            moved = [k for k in cv if not near(cv[k], nomc[k], 1e-12 if k in els and els[k][3][1] < 1e-6 else 4e-6)] + \
                    [k for k in par if not near(par[k], nomp[k])]
            bx.check(len(moved) <= 1, 'one component at a time', f'{moved} in {cv} {par} of {nomc} {nomp}')
            for k in moved:
                v = cv[k] if k in cv else par[k]
                bx.check(k in els and (near(v, els[k][1]) or near(v, els[k][2])), 'moved to its limit', f'{k}: {v} of {els.get(k)}')
                bx.check(k not in seen, 'each component once', k)
                seen[k] = mv
        still = {k for k, e in els.items() if all(near(e[0], x, 1e-6) for x in e[1:3])}    # moved by less than the digits written
        bx.check(set(els) - still <= set(seen) and set(named(c, an.elements_analysed)) >= set(els), 'every component with a tolerance is moved',
                 f'{set(els)} {set(seen)} {an.elements_analysed}')
        if an.elements_analysed:
            data = named(c, an.get_sensitivity_data('*', 'm1'))
            err = {k: abs(seen[k]['m1'] - rows[0][3]['m1']) if k in seen else 0 for k in named(c, an.elements_analysed)}
            tot = sum(err.values())
            bx.check(data.keys() == err.keys() and all(abs(data[k] - (err[k] / tot * 100 if tot else 0)) < 1e-3 for k in err) or tot < 1e-6,
                     'share of each component in the error', f'{data} {err}')
            for k in an.elements_analysed[:2]:
                bx.check(an.get_sensitivity_data(k, 'm1') == data[named(c, [k])[0]], 'share of one component', k)
        bx.done(f'{len(els)} elements')


@bounded('C14', 'fast worst case: extremes of a monotonic circuit', [TK + 'fast_worst_case:FastWorstCaseAnalysis.run_analysis'])
def fast(bx):
    for rng in bx.each(60, 400):
        c, board, an = setup(bx, rng, 'fast')
        c.configure(an, rng)
        c.instruct(an, rng)
        els = c.elements()
        if len(els) > 5:
            continue
        m = rng.choice(['m1', 'm2'])
        for rnd in range(rng.choice([1, 2])):
            board.sims.clear()
            board.files.clear()
            nominal, lo, hi_comps, hi, lo_comps = an.run_analysis(measure=m)
            rows = [x for s in board.sims for x in s]
            allowed = corners(c, els)
            nomc, nomp = point(c, {})
            for r, cv, par, mv in rows:
                for k, v in list(cv.items()) + list(par.items()):
                    n = nomc[k] if k in nomc else nomp[k]
                    bx.check(near(v, n) or k in els and (near(v, els[k][1]) or near(v, els[k][2])), 'a component is nominal or at a limit', f'{k}={v}')
            bx.check(same(rows[0][1], nomc) and near(nominal, rows[0][3][m]), 'nominal value', f'{nominal}')
            vals = [c.meas[m](*p) for p in corners(c, els)[1:]]
            bx.check(near(lo, min(vals), 1e-4) or abs(lo - min(vals)) < 1e-4, 'minimum over all corners', f'{lo} {min(vals)}')
            bx.check(near(hi, max(vals), 1e-4) or abs(hi - max(vals)) < 1e-4, 'maximum over all corners', f'{hi} {max(vals)}')
            for v, comps in ((lo, lo_comps), (hi, hi_comps)):
                comps = named(c, comps)
                p = point(c, comps)
                bx.check(abs(c.meas[m](*p) - v) < 1e-4 * max(1, abs(v)) and set(comps) == set(els), 'the circuit of an extreme', f'{v} {comps}')
        bx.done(f'{len(els)} elements')


@bounded('C14', 'Monte Carlo: within the limits', [TK + 'montecarlo:Montecarlo.run_analysis', TK + 'montecarlo:Montecarlo.prepare_testbench'])
def monte(bx):
    for rng in bx.each(60, 500):
        q = rng.random() < .3
        c, board, an = setup(bx, rng, 'mc', qspice=q)
        c.configure(an, rng, dists=('uniform', 'normal'))
        c.instruct(an, rng)
        els = c.elements()
        n = rng.choice([1, 3, 8])
        way = 'testbench' if q else rng.choice(['analysis', 'testbench'])
        if way == 'analysis':
            an.run_analysis(num_runs=n)
        else:
            an.prepare_testbench(num_runs=n)
            an.run_testbench(runs_per_sim=rng.choice([512, 2, 3, 5]))
        rows = [x for s in board.sims for x in s]
        bx.check(len(rows) == (n if way == 'analysis' else n + 2), 'as many runs as asked for', f'{len(rows)} {n}')
        nomc, nomp = point(c, {})
        if way == 'testbench':
            bx.check([r[0] for r in rows] == list(range(-1, n + 1)), 'the steps of a testbench', '')
            bx.check(same(rows[0][1], nomc) and same(rows[0][2], nomp), 'run -1 is nominal', f'{rows[0]}')
        for r, cv, par, mv in rows:
            for k, v in list(cv.items()) + list(par.items()):
                nom = nomc[k] if k in nomc else nomp[k]
                if k not in els:
                    bx.check(near(v, nom), 'components without tolerance are nominal', f'{k}={v} {nom}')
                elif els[k][3][3] == 'uniform' or way == 'testbench':      # the simulator draws gauss() within three deviations
                    a, b = sorted(els[k][1:3])
                    e = 4e-6 * max(abs(a), abs(b))
                    bx.check(a - e <= v <= b + e or r == -1 and near(v, nom), 'within its interval', f'{k}={v} of {els[k]}')
                else:
                    a, b = sorted(els[k][1:3])
                    bx.check(abs(v - (a + b) / 2) <= 7 * (b - a) / 6, 'spread of a normal value', f'{k}={v} of {els[k]}')
        if way == 'analysis' or not q:
            report(bx, board, c, an, rows)
        bx.done(f'{way} {len(els)}')


# ---------------------------------------------------------------------------------------------------------------
# deductive part
# ---------------------------------------------------------------------------------------------------------------

class Text:
    """the text of a component value; number: what it denotes, None when it cannot be computed"""

    def __init__(self, number=None, n=1):
        self.number, self.n = number, n

    def __len__(self):
        return self.n

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise core.Unsupported(f'{n} of a component value')


class Table:
    """the editor: a table of values and parameters, and instructions"""

    def __init__(self, values, params):
        self.values0, self.params0 = dict(values), dict(params)
        self.instructions0 = []
        self.reset_netlist()

    def reset_netlist(self):
        self.values, self.params, self.instructions = dict(self.values0), dict(self.params0), list(self.instructions0)

    def get_components(self, prefixes='*'):
        return [r for r in self.values if prefixes == '*' or r[0] in prefixes]

    def get_component_value(self, ref):
        return self.values[ref]

    def set_component_value(self, ref, v):
        if ref not in self.values:
            raise core.Unsupported(f'{ref} is not a component')
        self.values[ref] = v

    def get_parameter(self, p):
        return self.params[p]

    def set_parameter(self, p, v):
        self.params[p] = v

    def add_instruction(self, t):
        self.instructions.append(t)

    def remove_instruction(self, t):
        if t in self.instructions:
            self.instructions.remove(t)
            return True
        return False

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise core.Unsupported(f'{n} of an editor')


class Tasks:
    """the runner: keeps what it is given"""

    def __init__(self, log, name='LTspice'):
        self.log, self.simulator = log, type(name, (), {})

    def run(self, editor, **kw):
        self.log.append((dict(editor.values), dict(editor.params), list(editor.instructions)))
        return len(self.log)

    def wait_completion(self, *a, **k):
        return True

    def cleanup_files(self):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise core.Unsupported(f'{n} of a runner')


def plain(v):
    """the number a value denotes"""
    return v.number if isinstance(v, Text) else v


class Case:
    """n components or parameters under tolerance, with arbitrary nominal values and limits, and others without"""

    def __init__(self, vc, kind, pattern, dist='uniform', name='LTspice', cls=None):
        self.vc = vc
        m, c = MODS[kind]
        self.TD = vc.mod(TK + 'tolerance_deviations')
        log = self.log = []
        vals, params, self.el, plan = {}, {'other': Text(3)}, {}, []

        def parse(v, accept_invalid=True):
            if isinstance(v, Text):
                if v.number is None:
                    if accept_invalid:
                        return v
                    raise ValueError('not a number')
                return v.number
            return v
        vc.stub(vc.mod('editor.primitives').to_float, 'to_float: the number that a text denotes (C05)', parse)
        tol = {}
        for i, p in enumerate(pattern):
            v = vc.real(f'v{i}')
            if p == 'P':
                lo, hi = vc.real(f'lo{i}'), vc.real(f'hi{i}')
                params[f'p{i}'] = v
                plan.append(('set_parameter_deviation', f'p{i}', lo, hi))
                self.el[f'p{i}'] = (v, lo, hi)
            elif p == 'R':      # limits
                lo, hi = vc.real(f'lo{i}'), vc.real(f'hi{i}')
                vals[f'C{i}'] = Text(v)
                plan.append(('set_deviation', f'C{i}', lo, hi))
                self.el[f'C{i}'] = (v, lo, hi)
            elif p in 'TD':     # a tolerance of its own, or the one of its prefix
                k = 'tL' if p == 'D' else f't{i}'
                if k not in tol:
                    tol[k] = vc.real(k)
                t = tol[k]
                r = f'L{i}' if p == 'D' else f'C{i}'
                vals[r] = Text(v)
                vc.assume(t > 0, v != 0)
                plan.append(('set_tolerance', 'L' if p == 'D' else r, t))
                lo, hi = v * (1 - t), v * (1 + t)
                self.el[r] = (v, lo, hi)
            vc.assume(lo != hi)
            if p in 'RP':
                vc.assume(lo < hi)
        self.others = {'R1': Text(vc.real('w1')), 'X1': Text(None), 'C99': Text(None), 'L98': Text(vc.real('w2')), 'V1': Text(None, 0)}
        if 'D' in pattern:
            plan.append(('set_tolerance', 'L98', 0))     # the specific one takes precedence
        vals = {'R1': self.others['R1'], **vals, **{k: v for k, v in self.others.items() if k != 'R1'}}
        self.ed = Table(vals, params)
        self.ed.instructions0 = ['.tran 1m']
        self.ed.reset_netlist()
        self.runner = Tasks(log, name)
        self.an = getattr(vc.mod(TK + m), c)(self.ed, self.runner)
        for k, *a in plan:
            if k == 'set_tolerance' and a[0] in ('L',) or k != 'set_tolerance':
                getattr(self.an, k)(*a, **({'distribution': dist} if dist != 'uniform' else {}))
            else:
                getattr(self.an, k)(*a, **({'distribution': dist} if dist != 'uniform' else {}))
        if any(p in 'TR' for p in pattern) or True:
            self.an.set_deviation('C99', 1, 2)       # no number: cannot be analysed
        if vc.choice('a value asked for by the user', [False, True]) and self.el:
            r = next((r for r in self.el if r[0] in 'CL'), None)
            v = vc.real('asked for')
            vc.assume(v != 0)
            if r is None:
                self.an.set_component_value('R1', Text(v))
                self.others['R1'] = Text(v)
            else:
                self.an.set_component_value(r, Text(v))
                i = int(r[1:])
                lo, hi = self.el[r][1:]
                if pattern[i] in 'TD':
                    t = tol['tL' if pattern[i] == 'D' else f't{i}']
                    lo, hi = v * (1 - t), v * (1 + t)
                    vc.assume(lo != hi)
                self.el[r] = (v, lo, hi)
        self.an.add_instruction('.opt x')

    def value(self, sim, r):
        """the value of an element in a simulation"""
        return plain((sim[0] if r in sim[0] else sim[1])[r])

    def nominal(self, sim):
        return And(*[self.value(sim, r) == e[0] for r, e in self.el.items()])

    def rest(self, sim):
        """what has no tolerance is as in the netlist, with the instructions of the user"""
        return And(And(*[sim[0][r] is w or (w.number is not None and plain(sim[0][r]) == w.number) for r, w in self.others.items()]),
                   plain(sim[1]['other']) == 3, '.tran 1m' in sim[2], '.opt x' in sim[2])


def which(E, cases):
    """of each list of conditions, the one that holds (in one model of the path; to be proved afterwards)"""
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(*E.pc)
    if s.check() != z3.sat:
        raise core.Unsupported('no model of the path')
    m = s.model()
    return [next((k for k, c in enumerate(cs) if c is True or c is not False and z3.is_true(m.eval(to_z3(c), model_completion=True))), None)
            for cs in cases]


PATTERNS = ['', 'T', 'R', 'P', 'D', 'TT', 'TR', 'RP', 'DT', 'PD', 'DD', 'TRP', 'DRT', 'DPD', 'TRPD', 'DDPRT']


def corner_obligations(vc, c, sims, what):
    """the simulations are the corners, each once"""
    refs = list(c.el)
    n = len(refs)
    vc.check(f'{what}: as many simulations as corners', len(sims) == 2 ** n)
    k = which(vc.E, [[c.value(s, r) == c.el[r][j] for j in (1, 2)] for s in sims for r in refs])
    vc.check(f'{what}: every component at a limit', None not in k)
    seen = set()
    for i, s in enumerate(sims):
        bits = k[i * n:(i + 1) * n]
        seen.add(tuple(bits))
        vc.check(f'{what}: corner', And(True, *[c.value(s, r) == c.el[r][1 + b] for r, b in zip(refs, bits)]))
        vc.check(f'{what}: nothing else changes', c.rest(s))
    vc.check(f'{what}: every corner once', len(seen) == 2 ** n)


@prove('C14', 'worst case analysis visits every corner once', [TK + 'worst_case:WorstCaseAnalysis.run_analysis',
                                                               TK + 'tolerance_deviations:ToleranceDeviations.get_component_value_deviation_type',
                                                               TK + 'sim_analysis:SimAnalysis.play_instructions'],
       internal=True, conc=0, timeout=120)
def p_worst(vc):
    if not vc.symbolic:
        return vc.assume(False)
    c = Case(vc, 'worst', vc.choice('elements', PATTERNS + ['TRPDTR', 'TRPDTRDTRP', 'TRPDTRDTRPT']))
    again = vc.choice('analysed before', [False, True])
    if again:
        c.an.run_analysis()
        del c.log[:]
    c.an.run_analysis()
    vc.check('the elements are those with a tolerance', And(len(c.an.elements_analysed) == len(c.el), set(c.an.elements_analysed) == set(c.el)))
    vc.check('the nominal circuit comes first', And(c.nominal(c.log[0]), c.rest(c.log[0])))
    corner_obligations(vc, c, c.log[1:], 'worst case')
    vc.check('the runs are numbered', And(*[s[1]['run'] == i - 1 for i, s in enumerate(c.log)]))
    vc.check('every simulation is kept', And(len(c.an.simulations) == len(c.log), c.an.analysis_executed is True))


def stepped(vc, c, builtins=None):
    """what a simulator makes of the prepared testbench: for each step the values it computes"""
    E = vc.E
    sc = Scope({}, {}, builtins or {}, tok=lambda t: E.tokens[t][0])
    step = None
    for t in c.ed.instructions:
        if t.startswith('.func'):
            sc.define(t)
        elif t.startswith('.step'):
            m = re.fullmatch(r'\.step param run (-?\d+) (-?\d+) 1', t)
            if not m or step:
                raise Violation('one .step instruction')
            step = range(int(m[1]), int(m[2]) + 1)
    sims = []
    for run in step:
        sc.values = {'run': run}

        def ev(x):
            x = plain(x)
            try:
                return sc.value(x) if isinstance(x, str) else x
            except Wrong as e:
                vc.check('every function that is used is defined', not str(e).startswith('undefined'))
                raise
        sims.append(({r: ev(v) if v is not c.others.get(r) else v for r, v in c.ed.values.items()},
                     {p: ev(v) for p, v in c.ed.params.items()}, c.ed.instructions))
    return step, sims


@prove('C14', 'worst case testbench steps through every corner once', [TK + 'worst_case:WorstCaseAnalysis.prepare_testbench',
                                                                       TK + 'worst_case:WorstCaseAnalysis._set_component_deviation'],
       internal=True, conc=0, timeout=120)
def p_worst_tb(vc):
    if not vc.symbolic:
        return vc.assume(False)
    c = Case(vc, 'worst', vc.choice('elements', PATTERNS))
    if vc.choice('prepared before', [False, True]):
        c.an.prepare_testbench()
    c.an.prepare_testbench()
    step, sims = stepped(vc, c)
    vc.check('the steps', list(step) == list(range(-1, 2 ** len(c.el))))
    vc.check('step -1 is the nominal circuit', And(c.nominal(sims[0]), c.rest(sims[0])))
    corner_obligations(vc, c, sims[1:], 'worst case testbench')
    vc.check('without the step the circuit is nominal', c.ed.params['run'] == -1)
    vc.check('the last run is known', c.an.last_run_number == 2 ** len(c.el) - 1)


def one_at_a_time(vc, c, sims, refs, what):
    """each simulation moves one element to a limit, each element once"""
    k = which(vc.E, [[And(*[c.value(s, q) == c.el[q][0 if q != r else j] for q in refs]) for r in refs for j in (1, 2)] for s in sims])
    vc.check(f'{what}: exactly one element at a limit', And(None not in k, len(sims) == len(refs)))
    for s, j in zip(sims, k):
        vc.check(f'{what}: one at a time', And(*[c.value(s, q) == c.el[q][0 if i != j // 2 else 1 + j % 2] for i, q in enumerate(refs)]))
        vc.check(f'{what}: nothing else changes', c.rest(s))
    vc.check(f'{what}: each element once', sorted(j // 2 for j in k) == list(range(len(refs))))
    return [refs[j // 2] for j in k]


@prove('C14', 'sensitivity analysis moves one component at a time', [TK + 'quick_sensitivity_analysis:QuickSensitivityAnalysis.run_analysis'],
       internal=True, conc=0, timeout=120)
def p_quick(vc):
    import contextlib
    import io
    if not vc.symbolic:
        return vc.assume(False)
    c = Case(vc, 'quick', vc.choice('elements', PATTERNS + ['TRPDTRDTPR']))
    for r, e in c.el.items():
        vc.assume(And(e[0] != e[1], e[0] != e[2]))
    vc.stub(c.TD.ToleranceDeviations.read_logfiles, 'read_logfiles', lambda self: type('L', (), {'dataset': {'runm': []}})())
    vc.stub(print, 'print', lambda *a, **k: None)
    c.an.run_analysis()
    vc.check('the elements are those with a tolerance', And(len(c.an.elements_analysed) == len(c.el), set(c.an.elements_analysed) == set(c.el)))
    vc.check('the nominal circuit comes first', And(c.nominal(c.log[0]), c.rest(c.log[0])))
    order = one_at_a_time(vc, c, c.log[1:], list(c.el), 'sensitivity')
    vc.check('run k moves element k', order == list(c.an.elements_analysed))
    vc.check('the runs are numbered', And(*[s[1]['run'] == i - 1 for i, s in enumerate(c.log)]))


@prove('C14', 'sensitivity testbench moves one component at a time', [TK + 'quick_sensitivity_analysis:QuickSensitivityAnalysis.prepare_testbench'],
       internal=True, conc=0, timeout=120)
def p_quick_tb(vc):
    if not vc.symbolic:
        return vc.assume(False)
    c = Case(vc, 'quick', vc.choice('elements', [p for p in PATTERNS if 'P' not in p]))
    for r, e in c.el.items():
        vc.assume(And(e[0] != e[1], e[0] != e[2]))
    use_min = vc.choice('use_min', [False, True])
    c.an.prepare_testbench(use_min=use_min)
    step, sims = stepped(vc, c)
    vc.check('the steps', list(step) == list(range(-1, len(c.an.elements_analysed))))
    vc.check('the last run is known', c.an.last_run_number == len(c.an.elements_analysed) - 1)
    vc.check('step -1 is the nominal circuit', And(c.nominal(sims[0]), c.rest(sims[0])))
    live = [(s, r) for s, r in zip(sims[1:], c.an.elements_analysed) if r in c.el]
    idle = [s for s, r in zip(sims[1:], c.an.elements_analysed) if r not in c.el]
    vc.check('an element with tolerance 0 does not move', And(*[And(c.nominal(s), c.rest(s)) for s in idle]))
    order = one_at_a_time(vc, c, [s for s, r in live], list(c.el), 'sensitivity testbench')
    vc.check('step k moves element k', order == [r for s, r in live])
    for s, r in live:
        vc.check('the limit asked for', c.value(s, r) == c.el[r][1 if use_min else 2])


@prove('C14', 'Monte Carlo testbench stays within the limits', [TK + 'montecarlo:Montecarlo.prepare_testbench'], internal=True, conc=0, timeout=120)
def p_mc_tb(vc):
    if not vc.symbolic:
        return vc.assume(False)
    name = vc.choice('simulator', ['LTspice', 'Qspice'])
    dist = vc.choice('distribution', ['uniform', 'normal'])
    c = Case(vc, 'mc', vc.choice('elements', ['', 'T', 'R', 'P', 'D', 'TRPD']), dist=dist, name=name)
    c.an.set_deviation('C99', 1, 2, dist)
    n = vc.choice('runs', [1, 3])
    c.an.prepare_testbench(num_runs=n)
    if vc.choice('prepared again', [False, True]):
        c.an.prepare_testbench()        # as many runs as before
    E = vc.E

    drawn, flat = [], []

    def u():
        x = E.fresh_real('u')
        E.assume(And(x >= -1, x <= 1))
        flat.append(x)
        return x

    def g():
        x = E.fresh_real('g')
        drawn.append(x)
        E.assume(And(x >= -3, x <= 3))
        return x
    step, sims = stepped(vc, c, {'mc': lambda a, t: a * (1 + t * u()), 'flat': lambda x: x * u(), 'gauss': lambda s: s * g(),
                                 'random': lambda: (u() + 1) / 2})
    vc.check('the steps', list(step) == list(range(-1, n + 1)))
    vc.check('step -1 is the nominal circuit', And(c.nominal(sims[0]), c.rest(sims[0])))
    for s in sims[1:]:
        for r, (nom, lo, hi) in c.el.items():
            v = c.value(s, r)
            vc.check('within the limits (three deviations of a normal distribution)',
                     And(v >= Ite(lo < hi, lo, hi), v <= Ite(lo < hi, hi, lo)))
            if dist == 'normal':
                vc.check('the interval is six deviations wide', Or(False, *[six(v, lo, hi, z) for z in drawn]))
            else:
                vc.check('every value of the interval can be drawn', Or(False, *[spread(v, lo, hi, z) for z in flat]))
        vc.check('nothing else changes', c.rest(s))


def six(v, lo, hi, z):
    """v is z deviations away from the middle of the interval"""
    return Or((v - (lo + hi) / 2) * 6 == (hi - lo) * z, (v - (lo + hi) / 2) * 6 == (lo - hi) * z)


def spread(v, lo, hi, x):
    """v is in the interval where x is in that from -1 to 1"""
    return Or((v - (lo + hi) / 2) * 2 == (hi - lo) * x, (v - (lo + hi) / 2) * 2 == (lo - hi) * x)


@prove('C14', 'Monte Carlo analysis stays within the limits', [TK + 'montecarlo:Montecarlo.run_analysis', TK + 'montecarlo:Montecarlo._get_sim_value'],
       internal=True, conc=0, timeout=120)
def p_mc(vc):
    if not vc.symbolic:
        return vc.assume(False)
    dist = vc.choice('distribution', ['uniform', 'normal'])
    c = Case(vc, 'mc', vc.choice('elements', ['', 'T', 'R', 'P', 'D', 'TRPD']), dist=dist)
    E = vc.E
    drawn, flat = [], []

    class Rng:
        def uniform(self, a, b):
            x = E.fresh_real('u')
            E.assume(And(x >= -1, x <= 1))
            flat.append(x)
            # lemma: it is between the two (products of unknowns are left aside)
            v = E.fresh_real('uniform')
            E.assume(And(v >= Ite(a < b, a, b), v <= Ite(a < b, b, a), 2 * v - (a + b) == (b - a) * x))
            return v

        def random(self):
            x = E.fresh_real('u')
            E.assume(And(x >= -1, x <= 1))
            flat.append(x)
            return (x + 1) / 2

        def gauss(self, mu, sigma):
            z = E.fresh_real('g')
            drawn.append(z)
            E.assume(And(z >= -3, z <= 3))
            return mu + sigma * z

        def __getattr__(self, n):
            raise core.Unsupported(f'{n} of a random generator')
    vc.stub(random.Random, 'random.Random: uniform within its limits, gauss within three deviations', lambda *a: Rng())
    for f in ('uniform', 'gauss'):
        vc.stub(getattr(random, f), f'random.{f}', getattr(Rng(), f))
    n = vc.choice('runs', [1, 2]) if len(c.el) <= 1 else 1
    c.an.run_analysis(num_runs=n)
    vc.check('as many runs as asked for', And(len(c.log) == n, len(c.an.simulations) == n))
    for s in c.log:
        for r, (nom, lo, hi) in c.el.items():
            v = c.value(s, r)
            if isinstance(v, str):
                v = E.untoken(v)[0]
            vc.check('within the limits (three deviations of a normal distribution)',
                     And(v >= Ite(lo < hi, lo, hi), v <= Ite(lo < hi, hi, lo)))
            if dist == 'normal':
                vc.check('the interval is six deviations wide', Or(False, *[six(v, lo, hi, z) for z in drawn]))
            else:
                vc.check('every value of the interval can be drawn', Or(False, *[spread(v, lo, hi, z) for z in flat]))
        s[0].update({r: E.untoken(v)[0] for r, v in s[0].items() if isinstance(v, str)})
        vc.check('nothing else changes', c.rest(s))


@prove('C14', 'a tolerance of its own comes before that of the prefix',
       [TK + 'tolerance_deviations:ToleranceDeviations.get_component_value_deviation_type', TK + 'tolerance_deviations:ToleranceDeviations.set_tolerance'],
       internal=True, conc=0)
def p_precedence(vc):
    if not vc.symbolic:
        return vc.assume(False)
    c = Case(vc, 'worst', '')
    TD, an = c.TD, c.an
    ref = vc.choice('component', ['R7', 'Rload', 'C3', 'L98', 'V1', 'C99', 'X1', 'R1'])
    for r in ('R7', 'Rload', 'C3'):
        c.ed.values0[r] = Text(vc.real('value of ' + r))
    c.ed.reset_netlist()
    t, d, lo, hi = vc.real('t'), vc.real('d'), vc.real('lo'), vc.real('hi')
    order = vc.choice('order', ['prefix first', 'prefix last', 'none', 'own only'])
    kind = vc.choice('own', ['none', 'tolerance', 'limits'])
    letter = vc.choice('letters', [False, True])
    own = ref.lower() if letter else ref

    def mine():
        if kind == 'tolerance':
            an.set_tolerance(own, t, 'normal')
        elif kind == 'limits':
            an.set_deviation(own, lo, hi)
    if ref == 'C99':
        an.device_deviations.clear()
    if order == 'prefix last':
        mine()
    if order.startswith('prefix'):
        an.set_tolerance(ref[0], d)
        an.set_tolerances({p: 1 for p in 'RCLVI' if p != ref[0]})
    if order in ('prefix first', 'own only'):
        mine()
    if ref == 'X1':
        r, e = vc.raises(lambda: an.get_component_value_deviation_type(ref))
        vc.check('other devices have no tolerance', isinstance(e, ValueError))
        return
    val, dev = an.get_component_value_deviation_type(ref)
    text = c.ed.values[ref]
    if text.number is None:
        return vc.check('a value that cannot be computed has no tolerance', And(val is text, dev.is_not_valid()))
    vc.check('the nominal value', val == text.number)
    own_set = kind != 'none' and order != 'none'
    if own_set and kind == 'tolerance':
        vc.check('its own tolerance', And(dev.typ is TD.DeviationType.tolerance, dev.tolerance == t, dev.distribution == 'normal'))
    elif own_set:
        vc.check('its own limits', And(dev.typ is TD.DeviationType.minmax, dev.min_val == lo, dev.max_val == hi, dev.distribution == 'uniform'))
    elif order.startswith('prefix'):
        vc.check('the tolerance of the prefix', And(dev.typ is TD.DeviationType.tolerance, dev.tolerance == d))
    else:
        vc.check('no tolerance', dev.is_not_valid())


@prove('C14', 'the parts of a testbench cover every step once', [TK + 'tolerance_deviations:ToleranceDeviations.run_testbench'],
       internal=True, conc=0, timeout=60)
def p_parts(vc):
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    c = Case(vc, 'worst', '')
    an = c.an
    last, rps = vc.int('last run', -1), vc.int('runs per simulation', 1)
    an.last_run_number, an.testbench_prepared = last, True
    an.instructions_played = len(an.received_instructions)
    ghost = type('Ghost', (), {})()
    ghost.covered = -2          # the last step that was simulated
    ghost.step = None

    def parse(t):
        m = re.fullmatch('\\.step param run (-1|\ue000\\d+\ue001) (-1|\ue000\\d+\ue001) 1', t)
        return tuple(int(x) if x == '-1' else E.tokens[x][0] for x in m.groups()) if m else None

    class Ed:
        def add_instruction(self, t):
            vc.check('one .step instruction at a time', ghost.step is None)
            ghost.step = parse(t)
            vc.check('a .step instruction', ghost.step is not None)

        def remove_instruction(self, t):
            s = parse(t)
            if ghost.step is not None:
                vc.check('the .step instruction is removed', And(s[0] == ghost.step[0], s[1] == ghost.step[1]))
            ghost.step = None

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            raise core.Unsupported(f'{n} of an editor')

    class Run:
        def run(self, editor, **kw):
            lo, hi = ghost.step
            vc.check('the steps continue where the former ones ended', lo == ghost.covered + 1)
            vc.check('a part has steps, up to the last one', And(lo <= hi, hi <= last))
            ghost.covered = hi
            return object()

        def wait_completion(self, *a):
            vc.check('every step was simulated', ghost.covered == last)
            return True
    an.editor, an._runner = Ed(), Run()
    total = last + 2

    def grown(L, i):
        return {'at least one step in each part': L.runs_per_sim >= 1, 'no more than there are': Or(L.runs_per_sim <= total, L.runs_per_sim <= 1)}
    f = TK + 'tolerance_deviations:ToleranceDeviations.run_testbench'
    vc.loop(f + '#0', grown, variant=lambda L, i: total - L.runs_per_sim)

    def inv(L, i):
        r = L.runs_per_sim
        return {'covered': ghost.covered == Ite(i * r - 2 < last, i * r - 2, last), 'no instruction left': ghost.step is None}

    def havoc(E, L):
        ghost.covered = E.fresh_int('covered')
        an.simulations = []
        return [ghost, an.simulations]
    vc.loop(f + '#1', inv, havoc=havoc)
    an.run_testbench(runs_per_sim=rps)
    vc.check('the testbench was executed', an.testbench_executed is True)


@prove('C14', 'the extremes reported are those of the measured values', [TK + 'worst_case:WorstCaseAnalysis.get_min_max_measure_value'],
       internal=True, conc=0)
def p_extremes(vc):
    if not vc.symbolic:
        return vc.assume(False)
    c = Case(vc, 'worst', '')
    data = vc.seq('measured', RealK, minlen=1)
    nsim = vc.int('simulations', 0)
    done = vc.bool('analysis executed')

    class Log:
        def __getitem__(self, k):
            return data if k == 'm' else None

    class Sims:
        def vc_len(self):
            return nsim
    vc.stub(c.TD.ToleranceDeviations.read_logfiles, 'read_logfiles (C18)', lambda self: Log())
    c.an.simulations = vc.seq('sims', IntK, n=nsim)
    c.an.analysis_executed = done
    r = c.an.get_min_max_measure_value('m')
    if r is None:
        vc.check('nothing is reported only without all the results', Or(Not(done), data.n != nsim))
    else:
        lo, hi = r
        vc.check('reported only with all the results', And(done, data.n == nsim))
        vc.check('no value is below the minimum', Forall(0, data.n, lambda i: at(data, i) >= lo))
        vc.check('no value is above the maximum', Forall(0, data.n, lambda i: at(data, i) <= hi))
        vc.check('both are measured values', And(lo in data, hi in data))
    vc.check('an unknown measurement gives nothing', c.an.get_min_max_measure_value('other') is None)


@prove('C14', 'a sensitivity is the share of an element in the change of a measurement (up to 3 elements)',
       [TK + 'quick_sensitivity_analysis:QuickSensitivityAnalysis.get_sensitivity_data', TK + 'worst_case:WorstCaseAnalysis.make_sensitivity_analysis'],
       internal=True, conc=0, timeout=60)
def p_share(vc):
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    kind = vc.choice('analysis', ['quick', 'worst'])
    c = Case(vc, kind, '')
    an = c.an
    n = vc.choice('elements', [0, 1, 2, 3])
    names = ['R1', 'C7', 'gain'][:n]
    runs = range(-1, n if kind == 'quick' else 2 ** n)
    apart = {}

    def dist(a, b):
        a, b = min(a, b), max(a, b)
        if (a, b) not in apart:
            apart[a, b] = E.fresh_real(f'|{a}-{b}|')
            E.assume(apart[a, b] >= 0)
        return apart[a, b] if a != b else 0

    class Diff:
        def __init__(self, a, b):
            self.a, self.b = a, b

        def __abs__(self):
            return dist(self.a, self.b)

    class Measured:
        """the value of a run, of which only the distances to the others are looked at"""

        def __init__(self, k):
            self.k = k

        def __sub__(self, o):
            return Diff(self.k, o.k)

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            raise core.Unsupported(f'{n} of a measured value')
    value = {k: Measured(k) for k in runs}
    done = vc.choice('executed', ['testbench', 'analysis', 'prepared only', ''])

    class Log:
        def get_measure_value(self, name, *a, **k):
            if name != 'm' or a or set(k) != {'run'} or k['run'] not in value:
                raise core.Unsupported('another way to ask for a measurement')
            return value[k['run']]
    vc.stub(c.TD.ToleranceDeviations.read_logfiles, 'read_logfiles (C18)', lambda self: Log())
    an.testbench_prepared, an.testbench_executed = done in ('testbench', 'prepared only'), done == 'testbench'
    an.analysis_executed = done == 'analysis'
    an.elements_analysed = list(names)
    an.last_run_number = max(runs)
    get = an.get_sensitivity_data if kind == 'quick' else lambda ref, m: an.make_sensitivity_analysis(m, ref)
    every = get('*', 'm')
    if done in ('', 'prepared only'):
        vc.check('nothing before the simulations', every is None)
        return

    change = []
    for i in range(n):
        if kind == 'quick':
            change.append([dist(i, -1)])
        else:
            change.append([dist(r, r | 1 << i) for r in range(2 ** n) if not r & 1 << i])
    means = [sum(x) / len(x) for x in change]
    total = sum(means)
    vc.check('one for each element', set(every) == set(names))
    for i, e in enumerate(names):
        one = get(e, 'm') if n > 1 else every[e]
        share, sigma = (every[e], None) if kind == 'quick' else every[e]
        vc.check('its share, in percent', Ite(total == 0, share == 0, share * total == 100 * means[i]))
        if kind == 'quick':
            vc.check('the same when asked for alone', one == share)
        else:
            var = sum([(x - means[i]) * (x - means[i]) for x in change[i]]) / len(change[i])
            vc.check('its spread, in percent', And(sigma >= 0, Ite(total == 0, sigma == 0, (sigma * total) * (sigma * total) == 10000 * var)))
            vc.check('the same when asked for alone', And(one[0] == share, one[1] == sigma))


@prove('C14', 'fast worst case: extremes of a monotonic circuit (up to 3 elements)', [TK + 'fast_worst_case:FastWorstCaseAnalysis.run_analysis'],
       internal=True, conc=0, timeout=120)
def p_fast(vc):
    if not vc.symbolic:
        return vc.assume(False)
    pattern = vc.choice('elements', ['', 'R', 'P', 'T', 'RR', 'RP', 'PRR'])
    c = Case(vc, 'fast', pattern)
    E = vc.E
    refs = list(c.el)
    F = z3.Function('measure', *[z3.RealSort()] * len(refs), z3.RealSort()) if refs else None

    def meas(vals):
        return wrap(F(*[z3.ToReal(to_z3(v)) if to_z3(v).sort() == z3.IntSort() else to_z3(v) for v in vals])) if refs else wrap(z3.Real('measure'))
    import itertools
    up = [vc.choice(f'rises with {r}', [True, False]) for r in refs]
    grid = list(itertools.product(*[[e[1], e[0], e[2]] for e in c.el.values()]))

    def key(p):
        return meas(p)
    for r, e in c.el.items():     # nominal within the limits, or a limit beyond it
        vc.assume(And(e[1] <= e[0], e[0] <= e[2], e[1] < e[2]))
    for i, r in enumerate(refs):
        for p in grid:
            q = list(p)
            if p[i] is c.el[r][1]:
                q[i] = c.el[r][0]
            elif p[i] is c.el[r][0]:
                q[i] = c.el[r][2]
            else:
                continue
            vc.assume(meas(q) > meas(p) if up[i] else meas(q) < meas(p))
    LD = vc.mod('log.logfile_data').LogfileData

    def read(task):
        d = LD()
        sim = c.log[task - 1]
        d.dataset = {'m': [meas([c.value(sim, r) for r in refs])]}
        return d
    vc.stub(c.TD.ToleranceDeviations.read_logfile, 'read_logfile (C18)', read)
    vc.stub(c.TD.ToleranceDeviations.add_log, 'add_log: the log of a run', lambda self, task: read(task))
    nominal, lo, hi_comps, hi, lo_comps = c.an.run_analysis(measure='m')
    corners_ = [p for p in grid if all(v is e[1] or v is e[2] for v, e in zip(p, c.el.values()))]
    vc.check('nominal value', nominal == meas([e[0] for e in c.el.values()]))
    for p in corners_:
        vc.check('no corner is above the maximum', meas(p) <= hi)
        vc.check('no corner is below the minimum', meas(p) >= lo)
    vc.check('the circuit of the maximum', And(set(hi_comps) == set(refs), hi == meas([hi_comps[r] for r in refs])))
    vc.check('the circuit of the minimum', And(set(lo_comps) == set(refs), lo == meas([lo_comps[r] for r in refs])))
    for s in c.log:
        vc.check('every value is nominal or a limit', And(c.rest(s), *[Or(*[c.value(s, r) == x for x in e]) for r, e in c.el.items()]))
    vc.check('the instructions of the user are kept', len(c.an.received_instructions) >= 1)


# --- what the user asks for

class Kept(core.Kind):
    """an instruction of the user as the analysis keeps it: a tuple of a name and its arguments"""
    NAMES = ['set_component_value', 'set_element_model', 'set_parameter', 'add_instruction', 'remove_instruction', 'remove_Xinstruction']

    def __init__(self):
        super().__init__('instruction', z3.IntSort())
        self.name, self.a, self.b = (z3.Function(f'instruction_{n}', z3.IntSort(), z3.IntSort()) for n in 'nab')

    def wrap(self, e):
        k = self.name(e)
        for i, n in enumerate(self.NAMES[:-1]):
            if bool(wrap(k == i)):
                break
        else:
            i, n = 5, self.NAMES[-1]
        return (n, wrap(self.a(e)), wrap(self.b(e))) if i < 3 else (n, wrap(self.a(e)))


@prove('C14', 'the instructions of the user are applied once, in order', [TK + 'sim_analysis:SimAnalysis.play_instructions'],
       internal=True, conc=0, timeout=60)
def p_play(vc):
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    c = Case(vc, 'worst', '')
    K = Kept()
    ins = vc.seq('instructions', K)
    start = vc.int('applied before', 0)
    vc.assume(start <= ins.n)
    j = z3.Int('j!kind')
    E.assume_z3(z3.ForAll([j], z3.And(K.name(j) >= 0, K.name(j) <= 5), patterns=[K.name(j)]))
    an = c.an
    an.received_instructions, an.instructions_played = ins, start
    ghost = type('Ghost', (), {'k': start})()

    class Ed:
        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            if n not in K.NAMES:
                raise core.Unsupported(f'{n} of an editor')

            def call(*a):
                e = z3.Select(ins.arr, to_z3(ghost.k))
                vc.check('an instruction that was asked for', And(ghost.k < ins.n, wrap(K.name(e) == K.NAMES.index(n))))
                vc.check('with its arguments', And(len(a) == (2 if K.NAMES.index(n) < 3 else 1), *[wrap(f(e)) == x for f, x in zip((K.a, K.b), a)]))
                ghost.k = ghost.k + 1
            return call
    an.editor = Ed()

    def havoc(E, L):
        ghost.k, an.instructions_played = E.fresh_int('k'), E.fresh_int('played')
        return [ghost, an]
    vc.loop(TK + 'sim_analysis:SimAnalysis.play_instructions#0', lambda L, i: [ghost.k == start + i, an.instructions_played == start + i], havoc=havoc)
    an.play_instructions()
    vc.check('all of them were applied', ghost.k == ins.n)
    vc.check('none of them will be applied again', an.instructions_played == ins.n)


CALLS = [('set_component_value', 'R1', '1k'), ('set_component_value', 'R1', '2k'), ('set_element_model', 'R1', '1k'), ('set_parameter', 'R1', '1k'),
         ('set_parameter', 'R1', '2k'), ('add_instruction', '.opt a'), ('remove_instruction', '.opt a'), ('remove_Xinstruction', '.opt a')]


@prove('C14', 'the instructions of the user are kept as given', [TK + f'sim_analysis:SimAnalysis.{n[0]}' for n in CALLS] +
       [TK + 'sim_analysis:SimAnalysis.reset_netlist', TK + 'sim_analysis:SimAnalysis._reset_netlist', TK + 'sim_analysis:SimAnalysis.save_netlist'], conc=150)
def p_kept(vc):
    log = []

    class Ed:
        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return lambda *a: log.append((n,) + a)
    an = getattr(vc.mod(TK + MODS['worst'][0]), MODS['worst'][1])(Ed(), None)
    want, played = [], 0

    def prepared(*a, **k):
        an.testbench_prepared = True
    an.prepare_testbench = prepared
    for k in range(vc.choice('how many', [1, 2, 3])):
        call = CALLS[vc.choice(f'instruction {k}', list(range(len(CALLS))) if k < 2 else [0, 3, 5])]
        getattr(an, call[0])(*call[1:])
        want.append(call)
        then = vc.choice(f'then {k}', ['', 'save' if k else 'play', 'again', 'reset']) if k < 2 else ''
        if then == 'play':
            an.play_instructions()
            vc.check('applied so far', log == want)
        elif then == 'save':
            an.save_netlist('x.net')
            vc.check('applied so far, and saved', log == want + [('save_netlist', 'x.net')])
            log.pop()
        elif then == 'again':
            an._reset_netlist()
            vc.check('the netlist is reset', log[-1] == ('reset_netlist',))
            log.clear()
        elif then == 'reset':
            an.reset_netlist()
            vc.check('the netlist is reset', log[-1] == ('reset_netlist',))
            log.clear()
            want.clear()
    an.play_instructions()
    vc.check('all of them, in order', log == want)


@prove('C14', 'the results of all runs are put together', [TK + 'sim_analysis:SimAnalysis.add_log_data', TK + 'tolerance_deviations:ToleranceDeviations.add_log',
                                                          TK + 'sim_analysis:SimAnalysis.read_logfiles'], internal=True, conc=0)
def p_logs(vc):
    if not vc.symbolic:
        return vc.assume(False)
    E = vc.E
    LD = vc.mod('log.logfile_data').LogfileData
    an = getattr(vc.mod(TK + MODS['worst'][0]), MODS['worst'][1])(Table({}, {}), None)
    way = vc.choice('way', ['read_logfiles', 'add_log'])
    runs = vc.choice('run numbers', ['steps', 'measured', 'none']) if way == 'add_log' else 'steps'
    logs = []
    for k, n in enumerate(vc.choice('steps of each log', [(1,), (2,), (1, 1), (2, 1), (1, 2), (2, 2, 1), (2, 3, 2)])):
        d = LD()
        d.dataset = {'m': [E.fresh_real('m') for _ in range(n)], 'n': [E.fresh_real('n') for _ in range(n)]}
        num = [E.fresh_int('run') for _ in range(n)]
        if runs == 'steps':
            d.stepset = {'run': num, 'other': [E.fresh_int('x') for _ in range(n)]}
            d.step_count = n
        elif runs == 'measured':
            d.dataset['run'] = num
        logs.append((d, n, num, {p: list(v) for p, v in d.dataset.items()}))
    tasks = [type('Task', (), {'retcode': 0, 'log': d[0]})() for d in logs]
    vc.stub(an.read_logfile, 'read_logfile (C18)', lambda task: task.log)
    an.log_data = LD()
    if way == 'add_log':
        bad = type('Task', (), {'retcode': 1, 'log': logs[0][0]})()
        vc.check('a failed run gives nothing', an.add_log(bad) is None and not an.log_data.dataset)
        for t in tasks:
            vc.check('its own results are given', an.add_log(t) is t.log)
        out = an.log_data
    else:
        an.simulations = [None] + tasks
        an.analysis_executed = True
        out = an.read_logfiles()
        vc.check('they are kept', an.read_logfiles() is out)
    total = sum(n for _, n, _, _ in logs)
    for p in ('m', 'n'):
        want = [x for _, _, _, d in logs for x in d[p]]
        vc.check('every value of a measurement, in order', And(len(out.dataset[p]) == total, *[a == b for a, b in zip(out.dataset[p], want)]))
    vc.check('as many steps', And(out.step_count == total, len(out.stepset['run']) == total))
    num = [x for _, _, k, _ in logs for x in k] if runs != 'none' else range(total)
    vc.check('the number of the run of each', And(True, *[a == b for a, b in zip(out.stepset['run'], num)]))
    for d, n, _, before in logs:
        vc.check('the log of a run stays as it was read', And(*[And(len(d.dataset[p]) == n, *[x is y for x, y in zip(d.dataset[p], before[p])]) for p in before]))
