"""C18: selecting log data by step conditions returns exactly the matching rows."""
import os
import re
import types

from pyvc.api import *
from .C10 import Rows

M = 'log.logfile_data'
L_ = M + ':LogfileData'
ASSUMPTIONS = ["values compared in the proofs are numbers (texts and complex values are covered by the bounded harnesses)",
               "a log has one value per step of every step variable and of every measurement that is selected",
               "open() of the export file is replaced by a recorder in the proof of export_data"]


def member(s, x):
    return s.member(x) if isinstance(s, core.SSeq) else x in list(s)


def table(vc, nvars=2, nmeas=1, kinds=(RealK, RealK)):
    n = vc.int('n', 0, None if vc.symbolic else 7)
    pool = None if vc.symbolic else [vc.real(f'v{i}') for i in range(2)]

    def col(name, k):
        s = vc.seq(name, k, n=n)
        if not vc.symbolic:
            s = [pool[int(abs(x)) % 2] for x in s]
        return s
    steps = {f'p{i}': col(f'p{i}', kinds[i]) for i in range(nvars)}
    meas = {f'm{i}': vc.seq(f'm{i}', RealK, n=n) for i in range(nmeas)}
    return n, steps, meas


def value(vc, name):
    return vc.real(name) if vc.symbolic else vc.choice(name, [vc.real('v0'), vc.real('v1')])


def log_of(vc, steps, meas):
    return vc.mod(M).LogfileData({k: v for k, v in steps.items()}, {k: v for k, v in meas.items()})


@prove('C18', 'the steps selected by conditions are exactly the steps that satisfy all of them, in order',
       [f'{L_}.__init__', f'{L_}.steps_with_parameter_equal_to', f'{L_}.steps_with_conditions', f'{L_}.__getitem__'])
def selection(vc):
    k = vc.choice('conditions', [0, 1, 2, 3])
    n, steps, meas = table(vc)
    log = log_of(vc, steps, meas)
    names = ['p0', 'P1', 'm0'][:k] if vc.choice('order', [True, False]) else ['M0', 'p1', 'p0'][:k]
    cols = {**steps, **meas}
    want = {c: value(vc, 'want_' + c.lower()) for c in names}
    got = log.steps_with_conditions(**want) if k != 1 else log.steps_with_parameter_equal_to(names[0], want[names[0]])
    K, p, q = vc.int('K', 0), vc.int('p', 0), vc.int('q', 0)
    vc.check('step count', log.step_count == n)
    if vc.symbolic:
        vc.assume(K < n)
        match = And(True, *[at(cols[c.lower()], K) == v for c, v in want.items()])
        vc.check('a matching step is returned', Implies(match, member(got, K)))
        vc.check('only matching steps are returned', Implies(member(got, K), match))
        vc.assume(p < q, q < length(got))
        vc.check('in step order', at(got, p) < at(got, q))
        vc.check('only steps of the log are returned', And(0 <= at(got, p), at(got, q) < n))
    else:
        vc.check('exactly the matching steps, in order',
                 list(got) == [i for i in range(n) if all(cols[c.lower()][i] == v for c, v in want.items())])


@prove('C18', 'the values at steps are the values of those steps',
       [f'{L_}.get_measure_values_at_steps', f'{L_}.get_measure_value', f'{L_}.get_step_vars', f'{L_}.get_measure_names'])
def at_steps(vc):
    n, steps, meas = table(vc, nvars=1, nmeas=2)
    log = log_of(vc, steps, meas)
    name = vc.choice('measure', ['m1', 'M0'])
    col = meas[name.lower()]
    K = vc.int('K', 0)
    vc.assume(n > 0)
    vc.assume(K < n) if vc.symbolic else None
    K = K if vc.symbolic else K % n
    vc.check('names', And(log.get_step_vars() == ['p0'], log.get_measure_names() == ['m0', 'm1']))
    vc.check('value of one step', log.get_measure_value(name, K) == at(col, K))
    vc.check('value of one step number', log.get_measure_values_at_steps(name, K) == at(col, K))
    everything = log.get_measure_values_at_steps(name, None)
    vc.check('all values', And(length(everything) == n, at(everything, K) == at(col, K)))
    m = vc.int('m', 0, None if vc.symbolic else 5)
    sel = vc.seq('sel', IntK, n=m)
    if vc.symbolic:
        vc.assume(Forall(0, m, lambda i: And(0 <= at(sel, i), at(sel, i) < n)))
    else:
        sel = [abs(x) % n for x in sel]
    got = log.get_measure_values_at_steps(name, sel)
    vc.check('one value per selected step', length(got) == m)
    vc.check('each is the value of its step', Forall(0, m, lambda i: at(got, i) == at(col, at(sel, i))))
    if vc.symbolic or n > 1:
        vc.assume(n != 1)
        res, exc = vc.raises(lambda: log.get_measure_value(name), IndexError)
        vc.check('a stepped measurement without a step is rejected', exc is not None)
    else:
        vc.check('a single value needs no step', log.get_measure_value(name) == at(col, 0))


@prove('C18', 'a value selected by conditions is the value of the single step that satisfies them', [f'{L_}.get_measure_value'])
def single(vc):
    n, steps, meas = table(vc, nvars=2)
    log = log_of(vc, steps, meas)
    a, b = value(vc, 'a'), value(vc, 'b')
    K, J = vc.int('K', 0), vc.int('J', 0)
    got, exc = vc.raises(lambda: log.get_measure_value('m0', p0=a, p1=b), IndexError)
    match = [i for i in range(n) if steps['p0'][i] == a and steps['p1'][i] == b] if not vc.symbolic else None
    if not vc.symbolic:
        return vc.check('value or error', (exc is not None) if len(match) != 1 else (exc is None and got == meas['m0'][match[0]]))
    vc.assume(K < n, J < n)
    ok = lambda i: And(at(steps['p0'], i) == a, at(steps['p1'], i) == b)
    if exc is None:
        vc.check('the value is the one of the matching step', Implies(ok(K), got == at(meas['m0'], K)))
        vc.check('there is only one such step', Implies(And(ok(K), ok(J)), K == J))
    else:
        c = vc.int('c', 0)
        vc.assume(c < n, ok(c), Forall(0, n, lambda i: Implies(ok(i), i == c)))
        vc.check('rejected only when not exactly one step matches', False)


@prove('C18', 'minimum, maximum and average are those of the selected values',
       [f'{L_}.max_measure_value', f'{L_}.min_measure_value', f'{L_}.avg_measure_value'])
def aggregates(vc):
    n, steps, meas = table(vc, nvars=1)
    log = log_of(vc, steps, meas)
    vc.assume(n > 0)
    how = vc.choice('selection', ['all', 'steps', 'step'])
    m = vc.int('m', 1, None if vc.symbolic else 5)
    if how == 'all':
        sel = None
    elif how == 'step':
        sel = vc.int('step', 0)
        sel = sel if vc.symbolic else sel % n
        vc.assume(sel < n)
    else:
        sel = vc.seq('sel', IntK, n=m)
        if vc.symbolic:
            vc.assume(Forall(0, m, lambda i: And(0 <= at(sel, i), at(sel, i) < n)))
        else:
            sel = [abs(x) % n for x in sel]
    vals = log.get_measure_values_at_steps('m0', [sel] if how == 'step' else sel)
    hi, lo, avg = log.max_measure_value('M0', sel), log.min_measure_value('m0', sel), log.avg_measure_value('m0', sel)
    cnt = length(vals)
    p = vc.int('p', 0)
    if vc.symbolic:
        vc.assume(p < cnt)
        vc.check('no selected value is larger than the maximum', at(vals, p) <= hi)
        vc.check('no selected value is smaller than the minimum', at(vals, p) >= lo)
        if isinstance(vals, core.SSeq):
            vc.check('the maximum is a selected value', member(vals, hi))
            vc.check('the minimum is a selected value', member(vals, lo))
            vc.check('the average is the sum over the count', avg * cnt == core.seq_sum(vals))
        else:
            vc.check('one value', And(hi == at(vals, 0), lo == at(vals, 0), avg == at(vals, 0)))
    else:
        vc.check('of the selected values', max(vals) == hi and min(vals) == lo and close(avg, sum(vals) / len(vals)))


@prove('C18', 'a column of complex values gets a column of magnitudes and one of phases, each value beside its own; the other columns stay',
       [f'{L_}.obtain_amplitude_and_phase_from_complex_values', f'{L_}.split_complex_values_on_datasets'], internal=True, conc=0)
def amplitudes(vc):
    """any number of steps; a column of complex values, one of numbers and one without values, in each order"""
    if not vc.symbolic:
        return vc.assume(False)
    P = vc.mod(M)
    cx = core.RecordType('Complex', {'_cls': IntK, 'mag': RealK, 'ph': RealK})
    cx.classes = (P.LTComplex,)
    n = vc.int('n', 1)
    c, r, e = vc.seq('c', cx, n=n), vc.seq('r', RealK, n=n), vc.seq('e', RealK, n=0)
    vc.assume(Forall(0, n, lambda i: at(c, i)._cls == 0))
    cols = {'c': c, 'r': r, 'e': e}
    order = vc.choice('order', ['cre', 'erc', 'rce'])
    log = log_of(vc, {}, {k: cols[k] for k in order})
    before = {k: log.dataset[k].copy() for k in order}
    getattr(log, vc.choice('function', ['obtain_amplitude_and_phase_from_complex_values', 'split_complex_values_on_datasets']))()
    got = log.dataset
    vc.check('two columns are added', sorted(got) == ['c', 'c_mag', 'c_ph', 'e', 'r'])
    vc.check('one value for each value', And(vc.len(got['c_mag']) == n, vc.len(got['c_ph']) == n))
    vc.check('the magnitude of each value', Forall(0, n, lambda i: at(got['c_mag'], i) == at(c, i).mag))
    vc.check('the phase of each value', Forall(0, n, lambda i: at(got['c_ph'], i) == at(c, i).ph))
    vc.check('the columns stay', And(*[And(vc.len(got[k]) == vc.len(before[k]), Forall(0, vc.len(before[k]), lambda i, k=k: at(got[k], i) == at(before[k], i)))
                                       for k in order]))


@prove('C18', 'adding a log appends its steps and measurements and changes nothing else',
       ['sim.tookit.sim_analysis:SimAnalysis.add_log_data', f'{L_}.has_steps'])
def merging(vc):
    A = vc.mod('sim.tookit.sim_analysis').SimAnalysis
    ana = A(types.SimpleNamespace(), types.SimpleNamespace())
    LD = vc.mod(M).LogfileData
    logs, sizes, orig = [], [], []
    for t in range(3):
        n = vc.int(f'n{t}', 0, None if vc.symbolic else 4)
        cols = {c: vc.seq(f'{c}{t}', RealK, n=n) for c in ('r', 'c', 'v', 'w')}
        logs.append(LD({'r': cols['r'], 'c': cols['c']}, {'v': cols['v'], 'w': cols['w']}))
        sizes.append(n)
        orig.append(cols)
    vc.assume(sizes[0] > 0)
    for x in logs:
        ana.add_log_data(x)
    total = sizes[0] + sizes[1] + sizes[2]
    r = ana.log_data
    vc.check('step count', r.step_count == total)
    vc.check('names', And(list(r.stepset) == ['r', 'c'], list(r.dataset) == ['v', 'w']))
    K = vc.int('K', 0)
    for c in ('r', 'c', 'v', 'w'):
        got = r[c]
        vc.check('one value per step: ' + c, length(got) == total)
        if not vc.symbolic:
            vc.check('values in order: ' + c, list(got) == [x for o in orig for x in o[c]])
            continue
        off = 0
        for t in range(3):
            vc.check('values in order: ' + c, Implies(K < sizes[t], at(got, off + K) == at(orig[t][c], K)))
            off = off + sizes[t]
    for t in range(3):
        for c in ('r', 'c', 'v', 'w'):
            vc.check('the added logs are not changed', And(length(logs[t][c]) == sizes[t],
                                                           Implies(K < sizes[t], at(logs[t][c], K) == at(orig[t][c], K)) if vc.symbolic else
                                                           list(logs[t][c]) == list(orig[t][c])))


class Recorder:
    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@prove('C18', 'an export writes one row per step with the values of that step', [f'{L_}.export_data'], internal=True, conc=0)
def export(vc):
    if not vc.symbolic:
        return vc.assume(False)
    P = vc.mod(M)
    stepped = vc.choice('stepped', [True, False])
    prefix = vc.choice('prefix', [None, 'run 7'])
    sep = vc.choice('separator', ['\t', ';'])
    n, steps, meas = table(vc, nvars=2 if stepped else 0, nmeas=2)
    vc.assume(n > 0)
    log = log_of(vc, steps, meas)
    if not stepped:
        vc.check('no steps', log.step_count == 0)
    out = Recorder()
    E = core.eng()
    import builtins
    vc.stub(builtins.open, 'open', lambda *a, **k: out)
    cols = list(steps.values()) + list(meas.values())

    def rows(L, i):
        if not out.text:
            return {}
        text = ''.join(out.text)
        r = {'a line ends with the terminator': text.endswith('\n')}
        lines = text.split('\n')[:-1]
        if 'step' in lines[0].split(sep):
            r['header'] = lines[0].split(sep) == ([] if prefix is None else ['user info']) + ['step'] + list(steps) + list(meas)
            lines = lines[1:]
        for ln in lines:
            cells = ln.split(sep)
            if prefix is not None:
                r['user info'] = cells[0] == prefix
                cells = cells[1:]
            r['one cell per column'] = len(cells) == 1 + len(cols)
            for c, col in zip(cells[1:], cols):
                t = E.untoken(c)
                r['a cell holds the value of its step'] = And(r.get('a cell holds the value of its step', True),
                                                              t is not None and t[1] in ('', None, 's') and t[0] == at(col, i - 1))
            t = E.untoken(cells[0])
            r['step number'] = t is not None and t[0] == i
        return r

    def havoc(E, L):
        out.text.clear()
        return [out]
    vc.loop(L_ + '.export_data#4', rows, havoc=havoc, havoc_vals={k: (lambda E, old, L: None) for k in
                                                                   ('step_data', 'meas_data', 'columns_writen', 's', 'x', 'tok')})
    log.export_data('x.tsv', append_with_line_prefix=prefix, value_separator=sep)


# ------------------------------------------------------------------------------------------------------------------
# bounded: the readers and the public API on generated logs
# ------------------------------------------------------------------------------------------------------------------

from props import loggen   # noqa: E402
from props.loggen import same   # noqa: E402


def matches(log, conds):
    """the steps of the model that satisfy the conditions"""
    cols = {**log.steps, **log.data}
    n = log.n or 1
    return [i for i in range(n) if all(same(cols[k][i], v) or (not isinstance(v, str) and cols[k][i] == v) for k, v in conds.items())]


def mixcase(rng, s):
    return rng.choice([s, s.upper(), s.capitalize(), s.swapcase()])


def selection_queries(bx, rng, got, log, case):
    n = log.n or 1
    bx.check(got.get_step_vars() == list(log.steps), 'the step variables', (case, got.get_step_vars(), list(log.steps)))
    bx.check(got.step_count == log.n and got.has_steps() == (log.n > 0), 'the number of steps', (case, got.step_count, log.n))
    bx.check(sorted(got.get_measure_names()) == sorted(log.data), 'the measurement names', (case, got.get_measure_names(), list(log.data)))
    for name, vals in list(log.steps.items()) + list(log.data.items()):
        bx.check(same(list(got[mixcase(rng, name)]), vals), 'the values of a name', (case, name, got[name], vals))
    for name, vals in log.data.items():
        for i in range(len(vals)):
            bx.check(same(got.get_measure_value(mixcase(rng, name), i), vals[i]), 'value of a measurement at a step', (case, name, i))
        if n == 1:
            bx.check(same(got.get_measure_value(mixcase(rng, name)), vals[0]), 'the only value of a measurement', (case, name))
        lo, hi = sorted((rng.randint(0, n), rng.randint(0, n)))
        bx.check(same(got.get_measure_value(name, slice(lo, hi)), vals[lo:hi]), 'values of a slice of the steps', (case, name, lo, hi))
        nums = [v for v in vals if isinstance(v, (int, float))]
        if len(nums) == len(vals):
            for sel in (None, [rng.randrange(n) for _ in range(rng.randint(1, 4))], rng.randrange(n), range(n)):
                x = vals if sel is None else [vals[sel]] if isinstance(sel, int) else [vals[i] for i in sel]
                bx.check(got.max_measure_value(name, sel) == max(x), 'the maximum', (case, name, sel))
                bx.check(got.min_measure_value(name, sel) == min(x), 'the minimum', (case, name, sel))
                bx.check(close(got.avg_measure_value(name, sel), sum(x) / len(x)), 'the average', (case, name, sel))
        elif all(isinstance(v, complex) for v in vals):
            bx.check(abs(got.avg_measure_value(name) - sum(vals) / len(vals)) <= 1e-9 * (1 + abs(sum(vals))), 'the average of complex values', (case, name))
    keys = [k for k in list(log.steps) + list(log.data) if k.isidentifier() and k not in ('step', 'measure') and not any(isinstance(v, (complex, list)) for v in {**log.steps, **log.data}[k])]
    for _ in range(6 if keys and log.n else 0):
        ks = rng.sample(keys, min(len(keys), rng.choice([1, 1, 2, 3])))
        row = rng.randrange(n)
        cols = {**log.steps, **log.data}
        conds = {k: rng.choice([cols[k][row], cols[k][row], rng.choice(cols[k]), 12345]) for k in ks}
        want = matches(log, conds)
        asked = {mixcase(rng, k): (float(v) if type(v) is int and rng.random() < .3 else str(v) if rng.random() < 0.3 and str(v).strip() == str(v) else v) for k, v in conds.items()}
        sel = got.steps_with_conditions(**asked)
        bx.check(sel == want, 'the steps that satisfy all conditions, in order', (case, asked, sel, want))
        if len(ks) == 1:
            (k, v), = asked.items()
            bx.check(got.steps_with_parameter_equal_to(k, v) == want, 'the steps with a parameter', (case, asked))
        for name, vals in log.data.items():
            bx.check(same(got.get_measure_values_at_steps(mixcase(rng, name), sel), [vals[i] for i in want]), 'the values at the selected steps', (case, name, asked))
            try:
                one = got.get_measure_value(name, **asked)
                bx.check(len(want) == 1 and same(one, vals[want[0]]), 'the value of the single matching step', (case, name, asked, one))
            except IndexError:
                bx.check(len(want) != 1, 'a single matching step gives its value', (case, name, asked))
    for name in log.data:
        for agg in (got.max_measure_value, got.min_measure_value, got.avg_measure_value):
            try:
                bx.fail('no steps have no minimum, maximum or average', (case, name, agg(name, [])))
            except (ValueError, ZeroDivisionError):
                pass
    names = [*log.steps, *log.data]
    for bad in ('nosuch', 'zz9', *[x for k in names[:3] for x in (k[:-1], k[1:], k + 'x') if x not in names]):
        try:
            got.steps_with_parameter_equal_to(bad, 1)
            bx.fail('an unknown name is rejected', (case, bad))
        except IndexError:
            pass


def parsed(text, sep, eol='\n'):
    return [ln.split(sep) for ln in text.split(eol)[:-1]]


def cells(v):
    return [str(x) for x in v] if isinstance(v, list) else [str(v)]


def export_checks(bx, rng, got, path, case):
    before = ({k: list(v) for k, v in got.stepset.items()}, {k: list(v) for k, v in got.dataset.items()})
    sep, eol, prefix = rng.choice(['\t', ';', '|']), rng.choice(['\n', '\n', '#\n']), rng.choice([None, 'run 3'])
    if prefix is not None:
        with open(path, 'w', encoding='utf-8') as f:
            f.write('old' + eol)
    elif os.path.exists(path):
        os.remove(path)
    got.export_data(path, encoding='utf-8', append_with_line_prefix=prefix, value_separator=sep, line_terminator=eol)
    if not got.dataset:
        return
    with open(path, encoding='utf-8', newline='') as f:
        rows = parsed(f.read(), sep, eol)
    if prefix is not None:
        bx.check(rows[0] == ['old'], 'appending keeps the text that was there', (case, rows[0]))
        rows = rows[1:]
    cols = list(got.stepset.items()) + list(got.dataset.items())
    head = (['user info'] if prefix is not None else []) + ['step']
    for k, v in cols:
        head += [f'{k}_{i}' for i in range(len(v[0]))] if isinstance(v[0], list) and len(v[0]) > 1 else [k]
    bx.check(rows[0] == head, 'the header of an export', (case, rows[0], head))
    n = len(cols[0][1])
    bx.check(len(rows) == n + 1, 'one row per step', (case, len(rows), n))
    for i, r in enumerate(rows[1:]):
        want = ([prefix] if prefix is not None else []) + [str(i + 1)] + [c for _, v in cols for c in cells(v[i])]
        bx.check(r == want, 'a row holds the values of its step', (case, r, want))
    bx.check(before == ({k: list(v) for k, v in got.stepset.items()}, {k: list(v) for k, v in got.dataset.items()}), 'an export changes nothing', case)


def complex_columns(bx, rng, got, log, case):
    import cmath
    import math
    rng.choice([got.obtain_amplitude_and_phase_from_complex_values, got.split_complex_values_on_datasets])()
    want = {}
    for k, v in log.data.items():
        want[k] = v
    for k, v in log.data.items():
        if v and isinstance(v[0], complex):
            want[k + '_mag'] = [abs(x) for x in v]
            want[k + '_ph'] = [math.degrees(cmath.phase(x)) for x in v]
    bx.check(sorted(got.dataset) == sorted(want), 'magnitude and phase columns', (case, list(got.dataset), list(want)))
    for k, v in want.items():
        if k.endswith(('_mag', '_ph')) and k not in log.data:
            bx.check(len(got.dataset[k]) == len(v) and all(close(a, b, 1e-7, 1e-7) or abs(abs(a - b) - 360) < 1e-5 and abs(a) < 180.1 for a, b in zip(got.dataset[k], v)),
                     'magnitude and phase of complex values', (case, k, got.dataset[k], v))
        else:
            bx.check(same(list(got.dataset[k]), v), 'the complex values stay', (case, k))


@bounded('C18', 'LTspice logs are read and queried by step',
         ['log.ltsteps:LTSpiceLogReader.__init__', f'{L_}.get_measure_value', f'{L_}.steps_with_conditions', f'{L_}.export_data',
          'log.ltsteps:LTSpiceLogReader.export_data', f'{L_}.obtain_amplitude_and_phase_from_complex_values'])
def ltspice_logs(bx):
    R = bx.mod('log.ltsteps').LTSpiceLogReader
    d = bx.dir()
    for rng in bx.each(160, 6000):
        log = loggen.Log(rng)
        path = os.path.join(d, 'a.log')
        enc = loggen.write(path, log.text, rng)
        case = (enc, log.text)
        got = R(path)
        selection_queries(bx, rng, got, log, case)
        four = {s: [(f.step, (f.n_periods, f.dc_component, f.thd, f.phd,
                              [[h.harmonic_number, h.frequency, h.fourier_component, h.normalized_component, h.phase, h.normalized_phase] for h in f]))
                    for f in fs] for s, fs in got.fourier.items()}
        bx.check(four == log.fourier, 'the Fourier data of each step', (case, four, log.fourier))
        if rng.random() < 0.5:
            complex_columns(bx, rng, got, log, case)
        export_checks(bx, rng, got, os.path.join(d, 'out.tsv'), case)
        if log.fourier and got.dataset:
            fourier_file(bx, rng, got, log, os.path.join(d, 'out_fourier.txt'), case)
        # the steps of the log given to the reader of a measurement file
        if log.n:
            k = next((i for i, ln in enumerate(log.lines) if ln.startswith('Measurement:')), None)
            if k is not None:
                mpath = os.path.join(d, 'a.mout')
                loggen.write(mpath, rng.choice(['', 'Circuit: * top.net\n\n']) + '\n'.join(log.lines[k:]) + '\n', rng)
                steps = R(path, read_measures=False)
                bx.check(steps.step_count == log.n and not steps.dataset, 'only the steps are read when asked', case)
                given = {k: list(v) for k, v in steps.stepset.items()}
                m = R(mpath, step_set=steps.stepset)
                again = R(path, read_measures=False, step_set=steps.stepset)
                bx.check(steps.stepset == given, 'reading another file leaves the steps that were given alone', (case, given, steps.stepset))
                bx.check(again.step_count == 2 * log.n and all(again.stepset[k] == 2 * v for k, v in given.items()), 'steps that are read follow those that were given', case)
                selection_queries(bx, rng, m, log, case)
                export_checks(bx, rng, m, os.path.join(d, 'out.tsv'), case)
        bx.done(log.text)


def fourier_file(bx, rng, got, log, path, case):
    with open(path, encoding='utf-8') as f:
        a, b = f.read().split('\n\nHarmonic Analysis\n')
    first, second = parsed(a.rstrip('\n') + '\n', '\t'), parsed(b.rstrip('\n') + '\n', '\t')
    vs = list(log.steps)
    bx.check(first[0] == vs + ['Signal', 'N-Periods', 'DC Component', 'Fundamental', 'N-Harmonics', 'PHD', 'THD'], 'header of the Fourier table', (case, first[0]))
    bx.check(second[0] == vs + ['Signal', 'N-Periods', 'Harmonic', 'Frequency', 'Fourier', 'Normalized', 'Phase', 'Normalized'], 'header of the harmonics table', (case, second[0]))
    w1, w2 = [], []
    for sig, fs in log.fourier.items():
        for step, (per, dc, thd, phd, harm) in fs:
            sv = [str(log.steps[v][step]) for v in vs]
            w1.append(sv + [sig, 'all' if per < 1 else str(per), str(dc), str(harm[0][1]), str(len(harm)), str(phd), str(thd)])
            for h in harm:
                w2.append(sv + [sig, str(per), str(int(h[0])), *[str(x) for x in h[1:]]])
    bx.check(sorted(first[1:]) == sorted(w1), 'the Fourier table has the analyses of each step', (first[1:], w1, case))
    bx.check(sorted(second[1:]) == sorted(w2), 'the harmonics table has the harmonics of each step', (case, second[1:], w2))


@bounded('C18', 'tables of a log are its own', [f'{L_}.__init__', f'{L_}.__getitem__', f'{L_}.steps_with_parameter_equal_to'])
def tables(bx):
    D = bx.mod(M).LogfileData
    for rng in bx.each(60, 2000):
        n = rng.randint(1, 5)
        col = lambda: [rng.choice([1, 2, 2.0, 'x', 'low', -1.5, 1e-9]) for _ in range(n)]
        steps = {k: col() for k in rng.sample(['r', 'r1', 'freq', 'v'], rng.randint(1, 3))}
        data = {k: col() for k in rng.sample(['r', 'r2', 'vout', 'v', 'vo'], rng.randint(1, 4))}
        s0, d0 = {k: list(v) for k, v in steps.items()}, {k: list(v) for k, v in data.items()}
        a, b = D(steps, data), D(steps, data)
        case = (s0, d0)
        for k in [*steps, *data]:
            want = s0.get(k, d0.get(k))
            bx.check(list(a[mixcase(rng, k)]) == want, 'the values of a name, of the step variable when there are two', (case, k, a[k]))
            for v in {1, 2, 'x', 1.0, '2', '-1.5', 7}:
                w = {'2': 2, '-1.5': -1.5}.get(v, v)
                bx.check(a.steps_with_parameter_equal_to(k, v) == [i for i, x in enumerate(want) if x == w], 'the steps with a value', (case, k, v))
        a.stepset['r'] = [0]
        a.dataset['new'] = [1] * n
        for k in s0:
            a.stepset[k].append(9)
        a.dataset.pop(next(iter(d0)))
        bx.check(steps == s0 and data == d0, 'the tables that were given stay as they are', (case, steps, data))
        bx.check(b.stepset == s0 and dict(b.dataset) == d0, 'the tables of another log stay as they are', case)
        bx.done(case)


@bounded('C18', 'QSPICE logs and measurement files are read and queried by step',
         ['log.qspice_log_reader:QspiceLogReader.__init__', 'log.qspice_log_reader:QspiceLogReader.parse_meas_file'])
def qspice_logs(bx):
    R = bx.mod('log.qspice_log_reader').QspiceLogReader
    d = bx.dir()
    for rng in bx.each(120, 4000):
        log = loggen.QLog(rng)
        path, mpath = os.path.join(d, 'a.log'), os.path.join(d, 'a.meas')
        loggen.write(path, log.text, rng, ('utf-8',))
        loggen.write(mpath, log.meas, rng, ('utf-8',))
        got = R(path, read_measures=False)
        got.parse_meas_file(mpath)
        case = (log.text, log.meas)
        selection_queries(bx, rng, got, log, case)
        export_checks(bx, rng, got, os.path.join(d, 'out.tsv'), case)
        bx.done(case)


@bounded('C18', 'operating points are those of their device',
         ['log.semi_dev_op_reader:opLogReader'])
def op_logs(bx):
    read = bx.mod('log.semi_dev_op_reader').opLogReader
    d = bx.dir()
    for rng in bx.each(80, 3000):
        log = loggen.OpLog(rng)
        path = os.path.join(d, 'a.log')
        loggen.write(path, log.text, rng)
        got = read(path)
        bx.check(got == log.want, 'the operating points of every device', (log.text, got, log.want))
        bx.done(log.text)


@bounded('C18', 'exported data keeps each row with its step',
         ['log.ltsteps:LTSpiceExport.__init__', 'log.ltsteps:reformat_LTSpice_export'])
def exports(bx):
    X = bx.mod('log.ltsteps')
    d = bx.dir()
    for rng in bx.each(100, 4000):
        ex = loggen.Export(rng)
        path, out = os.path.join(d, 'a.txt'), os.path.join(d, 'a.tsv')
        enc = loggen.write(path, ex.text, rng)
        case = (enc, ex.text)
        got = X.LTSpiceExport(path)
        want = {h.lower(): [r[i] for _, rows, _ in ex.runs for r in rows] for i, h in enumerate(ex.headers)}
        if ex.n:
            want['runno'] = [k + 1 for k, (_, rows, _) in enumerate(ex.runs) for _ in rows]
            for v in ex.runs[0][0]:
                want[v.lower()] = [pv[v] for pv, rows, _ in ex.runs for _ in rows]
        bx.check(got.headers == ex.headers, 'the headers', (case, got.headers))
        bx.check(sorted(got.dataset) == sorted(want) and all(same(got.dataset[k], want[k]) for k in want), 'the rows with their step', (case, got.dataset, want))
        X.reformat_LTSpice_export(path, out)
        with open(out, encoding=enc if enc != 'cp1252' else None or enc) as f:
            rows = parsed(f.read(), '\t')
        body = [ln.split('\t') for ln in ex.lines[1:] if not ln.startswith('Step Information')]
        if ex.n:
            pre = [[str(k + 1)] + list(pt.values()) for k, (_, rr, pt) in enumerate(ex.runs) for _ in rr]
            head = ['Run'] + list(ex.runs[0][2]) + ex.headers
        else:
            pre, head = None, ex.headers
        k = len(rows[0]) - len(ex.headers)
        bx.check(rows[0][k:] == ex.headers and (not ex.n or rows[0] == head), 'the header of the reformatted table', (case, rows[0]))
        bx.check([r[len(r) - len(ex.headers):] for r in rows[1:]] == body and all(len(r) == len(rows[0]) for r in rows), 'the rows of the reformatted table', (case, rows))
        if pre:
            bx.check([r[:len(r) - len(ex.headers)] for r in rows[1:]] == pre, 'the step of each row of the reformatted table', (case, rows))
        bx.done(ex.text)


@bounded('C18', 'the logs of several simulations are put together', ['sim.tookit.sim_analysis:SimAnalysis.read_logfiles',
                                                                    'sim.tookit.sim_analysis:SimAnalysis.read_logfile'])
def several(bx):
    S = bx.mod('sim.tookit.sim_analysis').SimAnalysis
    d = bx.dir()
    LT = type('LTspice', (), {})
    for rng in bx.each(80, 2500):
        names, vs = rng.sample(loggen.NAMES, rng.randint(1, 3)), rng.sample(loggen.VARS, rng.choice([1, 2]))
        stepped = rng.random() < 0.7
        logs, tasks = [], []
        first = None
        for k in range(rng.randint(1, 4)):
            log = loggen.Log(rng, nsteps=rng.randint(1, 3) if stepped else 0, names=names, variables=vs, fourier=False)
            if first is None:
                first = log
            if list(log.data) != list(first.data):
                continue
            p = os.path.join(d, f'{k}.log')
            loggen.write(p, log.text, rng)
            logs.append(log)
            tasks.append(types.SimpleNamespace(simulator=LT, log_file=p, retcode=0))
            if rng.random() < 0.2:
                tasks.append(types.SimpleNamespace(simulator=LT, log_file=os.path.join(d, 'missing.log'), retcode=0))
            if rng.random() < 0.2:
                tasks.append(None)
        ana = S(types.SimpleNamespace(), types.SimpleNamespace())
        ana.simulations.extend(tasks)
        for _ in range(rng.choice([1, 2])):
            got = ana.read_logfiles()
        case = [x.text for x in logs]
        bx.check(got.step_count == sum(x.n for x in logs), 'the steps of all logs', (case, got.step_count))
        for k in first.data:
            bx.check(same(list(got[k]), [v for x in logs for v in x.data[k]]), 'the measurements of all logs, in order', (case, k, got[k]))
        for k in first.steps:
            bx.check(same(list(got[k]), [v for x in logs for v in x.steps[k]]), 'the steps of all logs, in order', (case, k, got[k]))
        bx.done(case)


# ------------------------------------------------------------------------------------------------
# The readers of log files, one line at a time: what a line adds to what was read before, for any number of lines.
LT = 'log.ltsteps'


class _Lines:
    """a file, of which the lines of one step are given"""

    def __init__(self, vc, name):
        self.vc, self.name, self.queue, self.opened, self.open = vc, name, [], 0, False
        import builtins
        vc.stub(builtins.open, 'open: the file', self.opens)

    def opens(self, f, *a, **k):
        if str(f) != self.name or (a and a[0] != 'r') or k.get('mode', 'r') != 'r':
            raise core.Unsupported('another file')
        self.opened += 1
        self.open = True
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.open = False
        return False

    def close(self):
        self.open = False

    def readline(self):
        if not self.open:
            raise core.Unsupported('a file that is closed')
        if not self.queue:
            raise core.Unsupported('more lines are read in one step')
        return self.queue.pop(0)

    read = readlines = __iter__ = __next__ = None


class _Values:
    """the values that the texts of a line denote (C19)"""

    def __init__(self, vc, mod):
        self.vc, self.of = vc, {}
        vc.stub(mod.try_convert_value, 'try_convert_value: what a text denotes (C19)', self)

    def __call__(self, t, *a, **k):
        if a or k:
            raise core.Unsupported('a conversion of another kind')
        if isinstance(t, list):
            return [self(x) for x in t]
        t = t.strip()
        if t not in self.of:
            self.of[t] = self.vc.real(f'value of {t}')
        return self.of[t]


NEXT = 'a line of another step\n'
LOG_LINES = {
    'step': ['.step a=1k b=-2\n'], 'step of one': ['.step A=1k\n'], 'step without values': ['.step \n'], 'blank': ['\n'], 'text': ['Total elapsed time: 0.1 seconds.\n'],
    'measure': ['m: MAX(v(x))=1.5 FROM 0 TO 0.001\n'], 'measure at': ['M2: v(x)=0.5 at 0.25\n'], 'parameter': ['p: m*2=3\n'],
    'fourier of': ['Fourier components of V(y)\n'], 'periods': ['N-Period=2\n'], 'all periods': ['N-Period=all\n'], 'dc': ['DC component:0.125\n'],
    'harmonics': ['Harmonic\tFrequency\tFourier\n', 'Number\t[Hz]\n', 'h1\n', 'h2\n', 'h3\n', 'Partial Harmonic Distortion: 2.5%\n', 'Total Harmonic Distortion: 12.5%\n', '\n'],
    'harmonics without partial': ['Harmonic\tFrequency\tFourier\n', 'Number\t[Hz]\n', 'h1\n', 'Total Harmonic Distortion: 1e-3%\n', ''],
    'measurements': ['Measurement: m\n'], 'end': ['']}


@prove('C18', 'an LTspice log: every step line adds one value to each step variable, every other line leaves the steps alone',
       [f'{LT}:LTSpiceLogReader.__init__'], internal=True, conc=0)
def log_steps(vc):
    if not vc.symbolic:
        return vc.assume(False)
    P = vc.mod(LT)
    file, val = _Lines(vc, 'a.log'), _Values(vc, P)
    kind = vc.choice('line', sorted(LOG_LINES))
    lines = LOG_LINES[kind]
    n = vc.int('steps before', 0)
    some = vc.choice('steps were read before', [True, False])
    vc.assume(n >= 1 if some else n == 0)
    one = kind == 'step of one'
    names = ['a'] if one else ['a', 'b']
    before = {k: vc.seq(f'values of {k}', RealK, n=n) for k in names} if some else {}
    b0 = {k: s.copy() for k, s in before.items()}
    harmonic = {h: object() for h in ('h1', 'h2', 'h3')}
    vc.stub(P.HarmonicData.from_line, 'HarmonicData.from_line: the numbers of a line (C19)', lambda *a: harmonic[a[-1]])
    older, meas = object(), [object()]
    fourier = vc.choice('analyses before', ['none', 'of another signal', 'of the same signal'])
    fourier = {} if fourier == 'none' else {'V(z)' if fourier == 'of another signal' else 'V(x)': [older]}
    f0 = {k: list(v) for k, v in fourier.items()}
    per, dc = vc.choice('periods', [-1, 3.0]), 0.5
    rd = P.LTSpiceLogReader.__new__(P.LTSpiceLogReader)
    st = {'at': 'entry'}

    def after(L):
        r, adds = {}, kind in ('step', 'step of one')
        r['the number of steps'] = rd.step_count == (n + 1 if adds else n)
        r['the step variables'] = sorted(rd.stepset) == (names if some or adds else [])
        for k in rd.stepset:
            s = rd.stepset[k]
            r[f'the values of {k}'] = And(vc.len(s) == (n + 1 if adds else n), Forall(0, n, lambda j: at(s, j) == at(b0[k], j)) if some else True,
                                          at(s, n) == val({'a': '1k', 'b': '-2'}[k]) if adds else True)
        # measurements of a log without steps are one value each; with steps the table at the end gives them
        want = {'old': meas}
        new = {'measure': [('m', '1.5'), ('m_from', '0'), ('m_to', '0.001')], 'measure at': [('m2', '0.5'), ('m2_at', '0.25')], 'parameter': [('p', '3')]}.get(kind, [])
        if not some:
            want.update({k: None for k, _ in new})
        r['the measurements'] = list(rd.dataset) == list(want) and rd.dataset['old'] is meas
        if not some and r['the measurements']:
            for k, t in new:
                r[f'the value of {k}'] = And(vc.len(rd.dataset[k]) == 1, at(rd.dataset[k], 0) == val(t))
        if kind.startswith('harmonics'):
            old = f0.get('V(x)', [])
            r['the analyses of other signals'] = {k: v for k, v in rd.fourier.items() if k != 'V(x)'} == {k: v for k, v in f0.items() if k != 'V(x)'}
            fs = rd.fourier.get('V(x)', [])
            r['one analysis is added'] = len(fs) == len(old) + 1 and all(x is y for x, y in zip(old, fs))
            f = fs[-1]
            rows = ['h1', 'h2', 'h3'] if kind == 'harmonics' else ['h1']
            r['of its signal and numbers'] = (f.signal, f.n_periods, f.dc_component) == ('V(x)', per, dc)
            r['with every harmonic, in order'] = len(f.harmonics) == len(rows) and all(x is harmonic[h] for x, h in zip(f.harmonics, rows))
            r['with its distortions'] = (f.thd, f.phd) == ((12.5, 2.5) if kind == 'harmonics' else (1e-3, None))
            r['of the step that was read last'] = f.step == n - 1
        else:
            r['the analyses'] = rd.fourier == f0
            r['the signal'] = L.signal == ('V(y)' if kind == 'fourier of' else 'V(x)')
            r['the periods'] = L.n_periods == {'periods': 2.0, 'all periods': -1}.get(kind, per)
            r['the mean value'] = L.dc_component == (0.125 if kind == 'dc' else dc)
        r['the next line'] = L.line == NEXT and file.queue == []
        return r

    def inv(L, i):
        if st['at'] == 'entry':
            return {'nothing is read before the first line': And(rd.step_count == 0, dict(rd.stepset) == {}, dict(rd.dataset) == {}, rd.fourier == {}, L.line == NEXT)}
        if st['at'] == 'start':
            st['at'] = 'in'
            return []
        return after(L)

    def havoc(E, L):
        st['at'] = 'start'
        rd.step_count, rd.stepset, rd.fourier = n, dict(before), fourier
        rd.dataset = {'old': meas}
        rd.measure_count = vc.int('measurements before')
        file.queue = [x for x in lines[1:]] + ([NEXT] if kind not in ('measurements', 'end') else [])
        return [rd, file, file.queue, rd.stepset, rd.dataset, rd.fourier, val.of, *rd.stepset.values(), *rd.fourier.values()]
    same_ = {k: (lambda E, old, L: None) for k in ('phd', 'thd', 'harmonics', 'fourier_data', 'valid_step', 'tokens', 'tok', 'lhs', 'rhs', 'll',
                                                  'match', 'dataname', 'headers', 'measurements', 'k', 'title')}
    vc.loop(f'{LT}:LTSpiceLogReader.__init__#0', inv, havoc=havoc, havoc_vals={**same_, 'line': lambda E, old, L: lines[0],
            'signal': lambda E, old, L: 'V(x)', 'n_periods': lambda E, old, L: per, 'dc_component': lambda E, old, L: dc})
    file.queue = [NEXT]
    rd.__init__('a.log', read_measures=False, encoding='utf-8')
    if st['at'] == 'entry':
        return
    vc.check('reading ends at the end of the file, or where the measurements start', kind in ('measurements', 'end'))
    vc.check('the steps are those that were read', And(rd.step_count == n, sorted(rd.stepset) == (names if some else []),
                                                      *[rd.stepset[k] is before[k] for k in before]))
    vc.check('the file is closed', file.open is False)


class _Row(core.SymBase):
    """a row of a table of numbers"""

    def __init__(self, t, i):
        self.t, self.i = t, i

    def __getitem__(self, k):
        if isinstance(k, bool) or not isinstance(k, int) or not -len(self.t.cols) <= k < len(self.t.cols):
            raise core.Unsupported('a part of a row')
        return self.t.cols[k].at(self.i)

    def len_(self):
        return len(self.t.cols)


class _Table(core.SymBase):
    """a list of rows, of any number: the rows that were read, and what is appended to it"""

    def __init__(self, vc, width, n):
        self.vc, self.n, self.cols, self.added = vc, n, [vc.fresh_seq(RealK, f'column {k}', n=n) for k in range(width)], []

    def len_(self):
        return self.n + len(self.added)

    def at(self, i):
        if self.added:
            raise core.Unsupported('a row after one was added')
        return _Row(self, i)

    __getitem__ = at

    def append(self, row):
        self.added.append(row)


HEADERS = [('v(x)', []), ('v(x)\tFROM\tTO', ['_FROM', '_TO']), ('v(x)\tat', ['_at'])]


@prove('C18', 'the table of a measurement of an LTspice log: every row adds one value to each of its columns, and it is kept under its own name',
       [f'{LT}:LTSpiceLogReader.__init__'], internal=True, conc=0)
def log_tables(vc):
    if not vc.symbolic:
        return vc.assume(False)
    P = vc.mod(LT)
    file, val = _Lines(vc, 'a.log'), _Values(vc, P)
    state = vc.choice('read before', ['nothing', 'a name', 'a table'])
    kinds = {'nothing': ['Measurement: m\n'], 'a name': ['  step\tv(x)\n', '  step\tv(x)\tFROM\tTO\n', '  step\tv(x)\tat\n', 'Measurement: q\n', ''],
             'a table': ['row', 'Measurement: q\n', '\n', '']}
    head, ext = vc.choice('columns', HEADERS) if state == 'a table' else ('', [])
    name = vc.choice('measurement', ['m', 'Vmax'])
    names = [name] + [name + x for x in ext]
    line = vc.choice('line', kinds[state])
    cells = ['1.5', '{w}', '-2'][:len(names)]
    if line == 'row':
        line = '     7\t' + '\t'.join(cells) + '\n'
    n = vc.int('rows before', 0)
    table = _Table(vc, len(names), n)
    mark = [object()]
    rd = P.LTSpiceLogReader.__new__(P.LTSpiceLogReader)
    st = {'at': 'entry'}
    was = dict(old=mark)

    def first(L, i):
        return []

    def first_havoc(E, L):
        rd.step_count, rd.stepset = vc.int('steps', 0), {}
        return [rd, file, file.queue]
    junk = {k: (lambda E, old, L: None) for k in ('phd', 'thd', 'harmonics', 'fourier_data', 'valid_step', 'tokens', 'tok', 'lhs', 'rhs', 'll', 'match',
                                                  'dataname', 'headers', 'measurements', 'k', 'title', 'meas', 'signal', 'n_periods', 'dc_component')}
    vc.loop(f'{LT}:LTSpiceLogReader.__init__#0', first, havoc=first_havoc, havoc_vals={**junk, 'line': lambda E, old, L: 'Measurement: m\n'})

    def stored(r, what):
        """the columns that were read are kept under their names, and nothing else changes"""
        got = dict(rd.dataset)
        keep = vc.len(table) > 0 if state == 'a table' and what else False
        keys = [x.lower() for x in names]
        there = [k for k in got if k not in was]
        r['no other table changes'] = got.get('old') is mark and all(k in keys for k in there)
        r['the table is kept when it has rows'] = Iff(keep, len(there) == len(keys)) if there or not isinstance(keep, bool) else not keep
        for k, c in zip(keys, table.cols):
            if k in got:
                r['each column has the values of its rows, in order'] = And(r.get('each column has the values of its rows, in order', True),
                                                                             vc.len(got[k]) == n, Forall(0, n, lambda j: at(got[k], j) == at(c, j)))
        return r

    def inv(L, i):
        if st['at'] == 'entry':
            return {'starts with no table': And(L.dataname is None, L.headers == [], L.measurements == [], L.line == 'Measurement: m\n')}
        if st['at'] == 'start':
            st['at'] = 'in'
            return []
        r = {'the next line': L.line == NEXT and file.queue == []}
        if line.startswith('Measurement'):
            stored(r, True)
            r['a table starts, with its name'] = And(L.dataname == line[13:].strip(), L.headers == [], vc.len(L.measurements) == 0)
            return r
        stored(r, False)
        r['of the same measurement'] = L.dataname == name
        if line.startswith('  step'):
            x = next(e for h, e in HEADERS if line.strip().split('\t', 1)[1] == h)
            r['the columns are those of the header, of this measurement'] = And(L.headers == [name] + [name + y for y in x], vc.len(L.measurements) == 0)
        else:
            r['the columns stay'] = L.headers == names
            r['the rows before stay'] = L.measurements is table
            row = line.startswith('     7')
            r['a row is added for each row'] = len(table.added) == (1 if row else 0)
            if row and len(table.added) == 1:
                got = list(table.added[0])
                r['with the value of each column'] = len(got) == len(cells) and And(*(g == val(c) for g, c in zip(got, cells)))
        return r

    def havoc(E, L):
        st['at'] = 'start'
        rd.dataset, rd.step_count, rd.measure_count = dict(was), vc.int('number of steps', 0), vc.int('measurements before')
        file.queue = [NEXT] if line else []
        return [rd, file, file.queue, rd.dataset, val.of, table, table.added]
    vc.loop(f'{LT}:LTSpiceLogReader.__init__#4', inv, havoc=havoc, havoc_vals={**junk, 'line': lambda E, old, L: line,
            'dataname': lambda E, old, L: None if state == 'nothing' else name, 'headers': lambda E, old, L: list(names) if state == 'a table' else [],
            'measurements': lambda E, old, L: table if state == 'a table' else []})
    file.queue = [NEXT]
    rd.__init__('a.log', encoding='utf-8')
    if st['at'] == 'entry':
        return
    vc.check('reading ends at the end of the file', line == '')
    r = stored({}, True)
    for k, c in r.items():
        vc.check('at the end: ' + k, c)
    vc.check('the file is closed', file.open is False)


QL = 'log.qspice_log_reader'
QS_LINES = {'step': ['  {n} of 12 steps:  .step a=1k b=-2\n'], 'step of one': ['{n} of 3 steps: .step A=1k\n'],
            'blank': ['\n'], 'text': ['Total elapsed time: 0.1 seconds.\n'], 'almost': ['.step a=1k\n'], 'end': ['']}


@prove('C18', 'a QSPICE log: every step line adds one value to each step variable, every other line leaves the steps alone',
       [f'{QL}:QspiceLogReader.__init__'], internal=True, conc=0)
def qspice_steps(vc):
    if not vc.symbolic:
        return vc.assume(False)
    P = vc.mod(QL)
    file, val = _Lines(vc, 'a.log'), _Values(vc, P)
    kind = vc.choice('line', sorted(QS_LINES))
    # the number of the step is on the line
    n = vc.choice('steps before', [0, 1, 2, 9])
    line = QS_LINES[kind][0].replace('{n}', str(n + 1))
    names = ['a'] if kind == 'step of one' else ['a', 'b']
    before = {k: vc.seq(f'values of {k}', RealK, n=n) for k in names} if n else {}
    b0 = {k: s.copy() for k, s in before.items()}
    rd = P.QspiceLogReader.__new__(P.QspiceLogReader)
    mark, st, meas = [object()], {'at': 'entry'}, []
    vc.stub(P.QspiceLogReader.obtain_measures, 'obtain_measures: the file of measurements', lambda self, *a: meas.append('made') or 'a.meas')
    vc.stub(P.QspiceLogReader.parse_meas_file, 'parse_meas_file: the measurements are read', lambda self, f: meas.append(f))

    def inv(L, i):
        if st['at'] == 'entry':
            return {'nothing is read before the first line': And(rd.step_count == 0, dict(rd.stepset) == {}, dict(rd.dataset) == {}, L.line == NEXT)}
        if st['at'] == 'start':
            st['at'] = 'in'
            return []
        r, adds = {}, kind.startswith('step')
        r['the number of steps'] = rd.step_count == (n + 1 if adds else n)
        r['the step variables'] = sorted(rd.stepset) == (names if n or adds else [])
        for k in rd.stepset:
            s = rd.stepset[k]
            r[f'the values of {k}'] = And(vc.len(s) == (n + 1 if adds else n), Forall(0, n, lambda j: at(s, j) == at(b0[k], j)) if n else True,
                                          at(s, n) == val({'a': '1k', 'b': '-2'}[k]) if adds else True)
        r['the measurements'] = list(rd.dataset) == ['old'] and rd.dataset['old'] is mark
        r['the next line'] = L.line == NEXT and file.queue == []
        return r

    def havoc(E, L):
        st['at'] = 'start'
        rd.step_count, rd.stepset, rd.dataset = n, dict(before), {'old': mark}
        rd.measure_count = vc.int('measurements before')
        file.queue = [NEXT] if line else []
        return [rd, file, file.queue, rd.stepset, rd.dataset, val.of, *rd.stepset.values()]
    vc.loop(f'{QL}:QspiceLogReader.__init__#0', inv, havoc=havoc, havoc_vals={'line': lambda E, old, L: line, **{
        k: (lambda E, old, L: None) for k in ('match', 'step', 'stepset', 'tokens', 'tok', 'lhs', 'rhs', 'll')}})
    file.queue = [NEXT]
    read = vc.choice('measurements too', [True, False])
    rd.__init__('a.log', read_measures=read)
    if st['at'] == 'entry':
        return
    vc.check('reading ends at the end of the file', line == '')
    vc.check('the steps are those that were read', And(rd.step_count == n, sorted(rd.stepset) == (names if n else []), *[rd.stepset[k] is before[k] for k in before]))
    vc.check('the measurements of this log are read when asked', meas == (['made', 'a.meas'] if read else []))
    vc.check('the file is closed', file.open is False)


@prove('C18', 'the file of measurements of QSPICE: every row adds one value to each column of its measurement, and each is kept under its own name',
       [f'{QL}:QspiceLogReader.parse_meas_file'], internal=True, conc=0)
def qspice_tables(vc):
    if not vc.symbolic:
        return vc.assume(False)
    P = vc.mod(QL)
    file = _Lines(vc, 'a.meas')
    stepped = vc.choice('with steps', [True, False])
    state = vc.choice('read before', ['nothing', 'a name', 'a table'])
    name = vc.choice('measurement', ['m', 'Vmax'])
    width = vc.choice('values of a row', [1, 2, 3] if not stepped else [2, 3])
    names = (['step', name] + [f'{name}_{k}' for k in range(1, width - 1)]) if stepped else [name] + [f'{name}_{k}' for k in range(1, width)]
    keys = [x.lower() for x in names]
    row = [vc.real(f'value {k}') for k in range(width)]
    kind = vc.choice('line', ['row', 'named', 'named the other way', 'blank', 'end'] if state != 'nothing' else ['named', 'named the other way', 'blank', 'text', 'end'])
    line = {'row': 'row', 'named': '.meas ac q max V(x)\n', 'named the other way': '.meas q tran find x\n', 'blank': '\n', 'end': '', 'text': 'text\n'}[kind]

    def split(t):
        if t != line:
            raise core.Unsupported('the values of another line')
        return list(row)
    vc.stub(P.split_line_into_values, 'split_line_into_values: the values of a line (C19)', split)
    n = vc.int('rows before', 1)
    cols = {k: vc.seq(f'column {k}', RealK, n=n) for k in keys} if state == 'a table' else {}
    c0 = {k: s.copy() for k, s in cols.items()}
    mark, st = [object()], {'at': 'entry'}
    rd = P.QspiceLogReader.__new__(P.QspiceLogReader)
    rd.encoding, rd.dataset, rd.measure_count = 'utf-8', {'old': mark}, 0
    # a log has steps or not
    rd.step_count, rd.stepset = (vc.int('steps', 1), {'p': vc.seq('p', RealK)}) if stepped else (0, {})

    def same_tables(r):
        r['no table changes'] = And(list(rd.dataset) == ['old', *cols], rd.dataset['old'] is mark, *[And(vc.len(rd.dataset[k]) == n, Forall(
            0, n, lambda j, k=k: at(rd.dataset[k], j) == at(c0[k], j))) for k in cols if k in rd.dataset])
        return r

    def inv(L, i):
        if L.headers is not None and L.headers != names:
            raise core.Unsupported('the titles are kept in another way')
        if st['at'] == 'entry':
            return {'starts with no measurement': And(L.meas_name is None, L.headers is None, list(rd.dataset) == ['old'], L.line == NEXT)}
        if st['at'] == 'start':
            st['at'] = 'in'
            return []
        r = {'the next line': L.line == NEXT and file.queue == []}
        if kind.startswith('named'):
            r['the measurement has the name of the line'] = L.meas_name == 'q' and L.headers is None
            return same_tables(r)
        r['the measurement stays'] = L.meas_name == (None if state == 'nothing' else name)
        if kind != 'row':
            r['the columns stay'] = L.headers == (names if state == 'a table' else None)
            return same_tables(r)
        r['one column for each value'] = L.headers == names and list(rd.dataset) == ['old'] + keys and rd.dataset['old'] is mark
        m = n if state == 'a table' else 0
        for k, v in zip(keys, row):
            s = rd.dataset.get(k, [])
            r[f'column {keys.index(k)} gets its value'] = And(vc.len(s) == m + 1, at(s, m) == v, Forall(0, m, lambda j: at(s, j) == at(c0[k], j)) if cols else True)
        return r

    def havoc(E, L):
        st['at'] = 'start'
        rd.dataset, rd.measure_count = {'old': mark, **cols}, vc.int('measurements before')
        file.queue = [NEXT] if line else []
        return [rd, file, file.queue, rd.dataset, *cols.values()]
    vc.loop(f'{QL}:QspiceLogReader.parse_meas_file#0', inv, havoc=havoc, havoc_vals={
        'line': lambda E, old, L: line, 'meas_name': lambda E, old, L: None if state == 'nothing' else name,
        'headers': lambda E, old, L: list(names) if state == 'a table' else None,
        **{k: (lambda E, old, L: None) for k in ('match', 'token1', 'token2', 'sim_type', 'meas_expr', 'values', 'title', 'k')}})
    file.queue = [NEXT]
    _, e = vc.raises(lambda: rd.parse_meas_file('a.meas'), KeyError)
    if e is not None:
        raise core.Unsupported('the columns are found in another way')
    if st['at'] == 'entry':
        return
    vc.check('reading ends at the end of the file', line == '')
    for k, c in same_tables({}).items():
        vc.check('at the end: ' + k, c)
    vc.check('the file is closed', file.open is False)


class _Text(Rows):
    """a file that is read line by line: a header, and then any number of lines, one at a time"""

    def __init__(self, vc, line, header=None):
        super().__init__(vc, 'lines', lambda n: line)
        self.header, self.open, self.out = header, True, []

    def readline(self):
        if self.header is None:
            raise core.Unsupported('the lines are read in another way')
        h, self.header = self.header, None
        return h

    def write(self, t):
        self.out.append(t)

    def close(self):
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.open = False
        return False


def _is_lines(L, f):
    if L.seq is not f:
        raise core.Unsupported('a loop over something else')


@prove('C18', 'exported data: every row adds its values and those of its run to their columns', [f'{LT}:LTSpiceExport.__init__'], internal=True, conc=0)
def export_rows(vc):
    if not vc.symbolic:
        return vc.assume(False)
    P = vc.mod(LT)
    val = _Values(vc, P)
    heads = vc.choice('columns', [['time', 'V(x)'], ['Freq.', 'I(R1)', 'V(b)']])
    steps = vc.choice('steps were read before', [True, False])
    kind = vc.choice('line', ['row', 'step', 'last row'])
    cells = [f'{{c{k}}}' for k in range(len(heads))]
    line = 'Step Information: a=2k Temp=-3  (Run: 4/5)\n' if kind == 'step' else '\t'.join(cells) + ('' if kind == 'last row' else '\n')
    f = _Text(vc, line, '\t'.join(heads) + '\n')
    vc.stub(P.detect_encoding, 'detect_encoding: the encoding of the file', lambda *a, **k: 'utf-8')
    import builtins
    vc.stub(builtins.open, 'open: the file', lambda *a, **k: f)
    n = vc.int('rows before', 0)
    if kind == 'step' and not steps:
        vc.assume(n == 0)     # the first run starts before the first row
    run = {'runno': vc.real('run'), 'a': vc.real('value of a'), 'Temp': vc.real('value of Temp')} if steps else {}
    keys = [h.lower() for h in heads] + [k.lower() for k in run]
    cols = {k: vc.seq(f'column {k}', RealK, n=n) for k in keys}
    c0 = {k: s.copy() for k, s in cols.items()}
    ex = P.LTSpiceExport.__new__(P.LTSpiceExport)
    st = {'at': 'entry'}
    new = {'runno': '4', 'a': '2k', 'Temp': '-3'}

    def tables(more):
        r = {'the columns': sorted(ex.dataset) == sorted(keys + ([k.lower() for k in new if k.lower() not in keys] if kind == 'step' and more else []))}
        for k in ex.dataset:
            v = more and kind != 'step'
            s = ex.dataset[k]
            low = {x.lower(): run[x] for x in run}
            add = low[k] if k in low else val(cells[[h.lower() for h in heads].index(k)]) if v else None
            m = n if k in cols else 0
            r[f'column {k}'] = And(vc.len(s) == (m + 1 if v else m), Forall(0, m, lambda j, k=k, s=s: at(s, j) == at(c0[k], j)) if k in cols else True, at(s, m) == add if v else True)
        return r

    def inv(L, i):
        _is_lines(L, f)
        if st['at'] == 'entry':
            return {'starts with the columns of the header, all empty': And(ex.headers == heads, dict(ex.dataset) == {h.lower(): [] for h in heads}, L.curr_dic == {}, L.go_header)}
        if st['at'] == 'start':
            st['at'] = 'in'
            return []
        r = tables(True)
        want = {k: val(t) for k, t in new.items()} if kind == 'step' else run
        r['the values of the run'] = list(L.curr_dic) == list(want) and And(*[L.curr_dic[k] == want[k] for k in want])
        r['the columns of the steps are made once'] = Iff(L.go_header, len(ex.dataset) == len(heads))
        r['the header'] = ex.headers == heads
        return r

    def havoc(E, L):
        st['at'] = 'start'
        ex.headers, ex.dataset = list(heads), dict(cols)
        cur = L.curr_dic
        cur.clear()
        cur.update(run)
        return [ex, ex.headers, ex.dataset, f, val.of, cur, *cols.values()]
    vc.loop(f'{LT}:LTSpiceExport.__init__#0', inv, havoc=havoc, havoc_vals={'go_header': lambda E, old, L: not steps,
            **{k: (lambda E, old, L: None) for k in ('match', 'step', 'run_no', 'param', 'key', 'value', 'values', 'i')}})
    ex.__init__('a.txt')
    if st['at'] == 'entry':
        return
    for k, c in tables(False).items():
        vc.check('at the end: ' + k, c)
    vc.check('the file is closed', f.open is False)


@prove('C18', 'exported data that is put in a table: every row is written once, after the number and the values of its run', [f'{LT}:reformat_LTSpice_export'],
       internal=True, conc=0)
def reformatted(vc):
    if not vc.symbolic:
        return vc.assume(False)
    P = vc.mod(LT)
    steps = vc.choice('steps were read before', ['none', 'one variable', 'two variables'])
    rows = vc.choice('rows were read before', [True, False])
    kind = vc.choice('line', ['row', 'step', 'steps'])
    line = {'row': '1\t2.5e-3\n', 'step': 'Step Information: a=2k  (Run: 4/5)\n', 'steps': 'Step Information: a=2k Temp=-3  (Step: 4/5)\n'}[kind]
    if kind != 'row':
        vc.assume(not (steps == 'none' and rows))
    if steps != 'none' and kind in ('step', 'steps'):
        vc.assume((steps == 'one variable') == (kind == 'step'))
    header = 'time\tV(x)\n'
    fin, fout = _Text(vc, line, header), _Text(vc, '')
    vc.stub(P.detect_encoding, 'detect_encoding: the encoding of the file', lambda *a, **k: 'utf-8')
    import builtins

    def opens(name, mode='r', *a, **k):
        if (str(name), mode) not in (('a.txt', 'r'), ('b.tsv', 'w')):
            raise core.Unsupported('another file')
        return fin if mode == 'r' else fout
    vc.stub(builtins.open, 'open: the files', opens)
    st = {'at': 'entry'}
    vals = {'none': '', 'one variable': '7', 'two variables': '7\t{k}'}[steps]
    run = 0 if steps == 'none' else '3'
    first = steps == 'none' and not rows

    def inv(L, i):
        _is_lines(L, fin)
        if st['at'] == 'entry':
            return {'nothing is written before the first line': And(fout.out == [], L.run_no == 0, L.go_header, L.headers == header)}
        if st['at'] == 'start':
            st['at'] = 'in'
            return []
        text = ''.join(fout.out)
        r = {'the header is written once, before what is below it': L.go_header is False}
        if kind == 'row':
            r['the row is written once, with its run'] = text == (header if first else '') + (line if steps == 'none' else f'3\t{vals}\t{line}')
            r['of the same run'] = L.run_no == run and (steps == 'none' or L.param_values == vals)
        else:
            r['only the header is written, with the step variables'] = text == (('Run\ta\t' if kind == 'step' else 'Run\ta\tTemp\t') + header if first else '')
            r['the run is the one of the line'] = And(L.run_no == '4', L.param_values == ('2k' if kind == 'step' else '2k\t-3'))
        return r

    def havoc(E, L):
        st['at'] = 'start'
        fout.out = []
        return [fin, fout, fout.out]
    vc.loop(f'{LT}:reformat_LTSpice_export#0', inv, havoc=havoc, havoc_vals={
        'run_no': lambda E, old, L: run, 'param_values': lambda E, old, L: vals, 'go_header': lambda E, old, L: first,
        **{k: (lambda E, old, L: None) for k in ('match', 'step', 'params', 'param', 'header_keys', 'param_header', 'msg')}})
    P.reformat_LTSpice_export('a.txt', 'b.tsv')
    if st['at'] == 'entry':
        return
    vc.check('nothing is written after the last line', fout.out == [])
    vc.check('the files are closed', And(fin.open is False, fout.open is False))


OPL = 'log.semi_dev_op_reader'
OP_LINES = {'title': '      --- Bipolar Transistors ---\n', 'names': 'Name:   q1   q:2\n', 'model': 'Model:  m1  pnp\n', 'numbers': 'Id:   3.5e-19   -2\n', 'mixed': 'Vd:  x 1\n',
            'Gmb': 'Gmb   1.5   2\n', 'fewer': 'Vd:   1\n', 'blank': '\n', 'text': 'Total elapsed time: 2 seconds.\n'}


@prove('C18', 'operating points: the values of a line are those of the devices of their block, in order', [f'{OPL}:opLogReader'], internal=True, conc=0)
def op_points(vc):
    if not vc.symbolic:
        return vc.assume(False)
    P = vc.mod(OPL)
    kind = vc.choice('line', sorted(OP_LINES))
    intro = vc.choice('line before the operating points', ['Semiconductor Device Operating Points:\n', 'Circuit: * x\n'])
    where, devs = vc.choice('block', [(None, None), ('Diodes', None), ('Diodes', ['d1', 'd2']), ('Diodes', ['d1'])])
    line = OP_LINES[kind]
    if kind == 'names':
        vc.assume(where is not None)
    st = {'at': 'entry', 'part': 0}
    old = {'mosfets': {'m1': {'Id': 1.0}}}
    if where:
        old['diodes'] = {'d0': {'Id': 5.0}, **{d: {'Model': 'dm'} for d in devs or []}}

    class Log(_Text):
        def at(self, i):
            return line if st['part'] else intro
        __getitem__ = None
    log = Log(vc, None)
    vc.stub(P.detect_encoding, 'detect_encoding: the encoding of the file', lambda *a, **k: 'utf-8')
    import builtins
    vc.stub(builtins.open, 'open: the file', lambda *a, **k: log)

    def copy(d):
        return {k: {x: dict(y) for x, y in v.items()} for k, v in d.items()}
    want = copy(old)
    n = len(devs or [])
    cells = {'model': ('Model', ['m1', 'pnp']), 'numbers': ('Id', [3.5e-19, -2.0]), 'mixed': ('Vd', ['x', 1.0]), 'Gmb': ('Gmb', [1.5, 2.0]), 'fewer': ('Vd', [1.0])}
    if kind == 'title':
        want['bipolar transistors'] = {}
    elif kind == 'names':
        want['diodes'].update({'q1': {}, 'q:2': {}})
    elif kind in cells and n and len(cells[kind][1]) == n:
        for d, v in zip(devs, cells[kind][1]):
            want['diodes'][d][cells[kind][0]] = v

    def search(L, i):
        _is_lines(L, log)
        return []

    def read(L, i):
        _is_lines(L, log)
        if st['at'] == 'entry':
            return {'nothing is read before the first line': L.dataset == {}}
        if st['at'] == 'start':
            st['at'] = 'in'
            return []
        r = {'the values are those of their devices, and no others change': L.dataset == want}
        if kind == 'title':
            r['the block is the one of the title'] = L.where == 'Bipolar Transistors'
        elif kind == 'names':
            r['the devices are those of the line'] = And(L.devices == ['q1', 'q:2'], L.n_devices == 2, L.where == where)
        else:
            r['the block and its devices stay'] = And(L.where == where, L.n_devices == n, L.devices == devs)
        return r

    def start(E, L):
        st['part'] = 0
        return [log, st]

    def havoc(E, L):
        st['at'], st['part'] = 'start', 1
        data = L.dataset
        data.clear()
        data.update(copy(old))
        return [log, data, st, *data.values(), *[d for v in data.values() for d in v.values()]]
    junk = {k: (lambda E, o, L: None) for k in ('match', 'cols', 'dev', 'param', 'i', 'val', 'value')}
    vc.loop(f'{OPL}:opLogReader#0', search, havoc=start, havoc_vals={'line': lambda E, o, L: vc.choice('last line', [None, 'Circuit: * x\n'])})
    vc.loop(f'{OPL}:opLogReader#1', read, havoc=havoc, havoc_vals={
        **junk, 'where': lambda E, o, L: where, 'n_devices': lambda E, o, L: n, 'devices': lambda E, o, L: list(devs) if devs else None})
    got = P.opLogReader('a.log')
    vc.check('the file is closed', log.open is False)
    if st['at'] == 'entry':
        vc.check('nothing is read from a log without operating points', got == {})
    else:
        vc.check('what was read is handed over', got == old)
