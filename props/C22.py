"""C22: exported tables hold the samples of the traces they name."""
import contextlib
import csv
import io
import os
import sys
import types

import numpy as np

from pyvc.api import *
from props import rawgen

M = 'raw.plot_data'
ASSUMPTIONS = ["PlotData.get_wave returns the samples of the step (proved in C03); read_trace_data loads the traces (C02)",
               "pandas is not installed: DataFrame, to_csv and to_excel of pandas are replaced by a recorder in the bounded harness"]


class Steps:
    """ghost: the step dictionaries; only their number is used"""

    def __init__(self, m):
        self.m = m

    def __len__(self):
        return self.m


def tables(vc, axis, stepped, request):
    """columns requested x steps requested, any number of steps, any lengths"""
    if not vc.symbolic:
        return vc.assume(False)
    P = vc.mod(M)
    names = ['t', 'a', 'b']
    m, n = vc.int('m', 1), vc.int('n', 1)
    stored = {c: vc.seq('wave_' + c, RealK, isarray=True, n=n) for c in names}
    off = vc.seq('off', IntK, n=m + 1)
    if axis and stepped:
        import z3
        a, b = z3.Ints('a!o b!o')
        z = core.to_z3
        A, B = z3.Select(off.arr, a), z3.Select(off.arr, b)
        core.eng().assume_z3(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= z(m)), A <= B), patterns=[z3.MultiPattern(A, B)]))
        vc.assume(at(off, 0) == 0, at(off, m) == n)
    elif stepped:
        vc.assume(n == m)
    p = object.__new__(P.PlotData)
    p.__dict__.update(_trace_info=[P.TraceInfo(c, np.dtype('float64'), 'voltage') for c in names], _has_axis=axis,
                      _steps=Steps(m) if stepped else None, _axis=None, _read_traces={}, _aliases={}, _plot_nr=1,
                      _raw_params={'Variables': list(names)})

    def lo(k):
        return at(off, k) if stepped and axis else 0

    def hi(k):
        return at(off, k + 1) if stepped and axis else n

    def wave(ref, step=0):
        vc.check('a step that exists is read', And(step >= 0, step < m) if stepped else step == 0)
        core.eng().assume_z3(core.to_z3(And(0 <= lo(step), lo(step) <= hi(step), hi(step) <= n)))   # instance of the assumption
        return stored[ref][lo(step):hi(step)]
    vc.stub(P.PlotData.get_wave, 'PlotData.get_wave', lambda s, ref, step=0: wave(ref, step))
    loaded = []
    vc.stub(P.PlotData.read_trace_data, 'PlotData.read_trace_data', lambda s, cols: loaded.extend(cols))
    cols = vc.choice('columns', [None, ['a'], ['b', 'a'], ['t', 'b'], ['t']])
    given = None if cols is None else list(cols)
    want = names if cols is None else (['t'] if axis and 't' not in cols else []) + cols
    k1, k2 = vc.int('k1', 0), vc.int('k2', 0)
    vc.assume(k1 < m, k2 < m) if stepped else vc.assume(k1 == 0, k2 == 0)

    def done(i):        # rows exported after the first i steps
        if not stepped:
            return i * n
        return at(off, i) if axis else i

    def inv(L, i):
        d = L.data
        if not d:
            return {'nothing exported before the first step': i == 0}
        r = {'columns': list(d) == want}
        for c in want:
            if c in d:
                r['rows of ' + c] = length(d[c]) == done(i)
                r['samples of ' + c] = Forall(0, done(i), lambda j, c=c: at(d[c], j) == at(stored[c], j))
        return r

    def havoc(E, L):
        L.data.clear()
        if E.branch(2):
            for c in want:
                L.data[c] = E.fresh_seq(RealK, 'exported_' + c, isarray=True)
        return [L.data]
    if request == 'all':
        vc.loop(M + ':PlotData.export#2', inv, havoc=havoc, havoc_vals={'step': lambda E, old, L: old, 'wave': lambda E, old, L: None,
                                                                       'col': lambda E, old, L: old})
        d = p.export(cols)
    else:
        d = p.export(cols, k1 if request == 'one' else [k1, k2])
    vc.check('the traces are loaded', set(want) <= set(loaded))
    vc.check('the request of the caller is not changed', cols == given)
    vc.check('one column per requested trace, the axis first', list(d) == want)
    for c in want:
        if c not in d:
            continue
        w = d[c]
        if request == 'all':
            vc.check('one row per stored point', length(w) == n)
            vc.check('every cell is the sample of its trace at its point', Forall(0, n, lambda j: at(w, j) == at(stored[c], j)))
            continue
        l1 = (hi(k1) - lo(k1)) if axis or not stepped else 1
        s1 = lo(k1) if axis or not stepped else k1
        l2 = (hi(k2) - lo(k2)) if axis or not stepped else 1
        s2 = lo(k2) if axis or not stepped else k2
        if request == 'one':
            vc.check('one row per point of the step', length(w) == l1)
        else:
            vc.check('one row per point of the steps', length(w) == l1 + l2)
            vc.check('then the cells of the second step', Forall(0, l2, lambda j: at(w, l1 + j) == at(stored[c], s2 + j)))
        vc.check('the cells of the step', Forall(0, l1, lambda j: at(w, j) == at(stored[c], s1 + j)))


for _a, _s, _q in [(True, True, 'all'), (True, True, 'one'), (True, True, 'two'), (True, False, 'all'), (False, False, 'all'),
                   (False, True, 'all'), (False, True, 'one'), (False, True, 'two'), (True, False, 'one')]:
    prove('C22', f"export: {'with' if _a else 'without'} an axis, {'any number of steps' if _s else 'no steps'}, "
                 f"{dict(all='everything', one='one step', two='a list of steps')[_q]}",
          [M + ':PlotData.export', M + ':PlotData.get_steps'], conc=0, internal=True)(
        lambda vc, a=_a, s=_s, q=_q: tables(vc, a, s, q))


@prove('C22', 'a CSV file has a line with the names and one line per row with the cells of that row, for any number of rows',
       [M + ':PlotData.to_csv'], conc=0, internal=True)
def csv_rows(vc):
    if not vc.symbolic:
        return vc.assume(False)
    P, E = vc.mod(M), vc.E
    sep = vc.choice('separator', [',', ';', '\t'])
    names = vc.choice('columns', [['t'], ['time', 'V(a,b)'], ['f', 'a;b', 'say "x"'], ['x', 'V(a)', 'I(b\tc)']])
    n = vc.int('rows', 0)
    data = {c: vc.seq(f'cells {k}', StrK, n=n) for k, c in enumerate(names)}
    asked = {}

    def export(self, columns=None, step=-1, **kw):
        asked.update(columns=columns, step=step)
        return dict(data)
    vc.stub(P.PlotData.export, 'PlotData.export (proved separately)', export)
    ghost = type('Ghost', (), {'base': None, 'text': '', 'any': False})()

    class File:
        def write(self, s):
            ghost.text, ghost.any = ghost.text + s, True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def opened(name, mode='r', **kw):
        vc.check('the file asked for is written', And(name == 'out.csv', mode.startswith('w')))
        return File()
    vc.stub(open, 'open', opened)

    def havoc(E, L):
        ghost.base, ghost.text, ghost.any = 'next', '', False
        return [ghost]

    def row(k):
        s = ''
        for j, c in enumerate(names):
            s = s + (sep if j else '') + at(data[c], k)
        return s + '\n'

    def inv(L, i):
        if ghost.base is None:      # before the first row
            if not ghost.any or is_sym(ghost.text):
                raise core.Unsupported('the names are written elsewhere')
            cells = next(csv.reader([ghost.text[:-1]], delimiter=sep))
            return {'the first line has the names': cells == names and ghost.text.endswith('\n')}
        if ghost.base == 'next' if isinstance(ghost.base, str) else False:
            ghost.base = i
            return {'nothing written since': True}
        if not ghost.any:
            raise core.Unsupported('the rows are written elsewhere')
        return {'the line of a row has the cells of that row': ghost.text == row(ghost.base)}
    vc.loop(M + ':PlotData.to_csv#0', inv, havoc=havoc)
    p = object.__new__(P.PlotData)
    p.to_csv('out.csv', columns=['c1', 'c2'], step=[3, 1], separator=sep)
    vc.check('the columns and steps asked for are exported', asked == {'columns': ['c1', 'c2'], 'step': [3, 1]})
    vc.check('one line per row, and nothing follows', And(ghost.base == n, not ghost.any))


# ------------------------------------------------------------------------------------------------------------------

class FakeFrame:
    made = []

    def __init__(self, data, **kw):
        self.data, self.kw = data, kw
        FakeFrame.made.append(self)

    def to_csv(self, f, sep=',', **kw):
        self.out = ('csv', str(f), sep, kw)

    def to_excel(self, f, **kw):
        self.out = ('excel', str(f), kw)


def stepfile(r, d, tag, dialect='lt'):
    kind = r.choice(['tran', 'dc', 'ac', 'noise', 'op'])
    cplx = kind == 'ac'
    m = r.randint(1, 4)
    if kind == 'op':
        lens = [1] * m
        x = rawgen.samples(r, m)
    else:
        lens = [r.randint(1, 6 if r.random() < .9 else 40) for _ in range(m)]
        x0 = r.choice([0.0, 1.0])
        x = np.array(sum([[x0] + [x0 + j + r.random() * .5 for j in range(1, l)] for l in lens], []))
    names, types_ = rawgen.names_for(r, r.randint(1, 5) if r.random() < .9 else 12, kind)
    if r.random() < .1:
        names[-1] = r.choice(['V(say "x")', 'V("a","b")', 'I(R;1)']) if len(names) > 1 else names[-1]
    cols = [x] + [rawgen.samples(r, len(x), cplx) for _ in names[1:]]
    lay = r.choice(['binary', 'fast', 'ascii'])
    f = os.path.join(d, tag + '.raw')
    flags = ['forward'] + (['stepped'] if m > 1 else [])
    log = f[:-4] + '.log'
    if os.path.exists(log):
        os.unlink(log)
    vals = [r.choice([1, 2.5, 1e3, -4]) + i for i in range(m)]
    if m > 1 and (kind == 'op' or r.random() < .7):
        with open(log, 'w') as g:
            g.write('Circuit: x\n\n' + ''.join(f'.step p={v:g} q={i % 2}\n' for i, v in enumerate(vals)) + '\n')
    st = rawgen.write(f, rawgen.PLOTS[kind], names, types_, cols, lay, flags=flags, cplx=cplx)
    b = [0] + list(np.cumsum(lens))
    return f, kind, names, st, [(int(b[i]), int(b[i + 1])) for i in range(m)], vals, os.path.exists(log), lay


def cell(s, ref):
    v = complex(s) if np.iscomplexobj(ref) else float(s)
    return np.asarray(v).astype(ref.dtype)


@bounded('C22', 'export, CSV, data frame and conversion script on generated files', [
    M + ':PlotData.export', M + ':PlotData.to_csv', M + ':PlotData.to_dataframe', M + ':PlotData.to_excel',
    'raw.raw_read:RawRead.export', 'raw.raw_read:RawRead.to_csv', 'scripts.raw_convert:main'])
def exports(bx):
    R = bx.mod('raw.raw_read').RawRead
    script = bx.mod('scripts.raw_convert')
    d = bx.dir()
    for r in bx.each(600, 6000):
        f, kind, names, st, steps, vals, haslog, lay = stepfile(r, d, 'x')
        m = len(steps)
        axis = kind != 'op'
        raw = R(f, traces_to_read=r.choice(['*', None, [names[-1]]]), verbose=False)
        full = {nm: (np.abs(st[i]) if i == 0 and nm == 'time' else st[i]) for i, nm in enumerate(names)}

        for _ in range(3):
            cols = r.choice([None, r.sample(names, r.randint(1, len(names)))])
            if cols and r.random() < .2:
                cols = tuple(cols)
            step, kw = -1, {}
            sel = list(range(m))
            q = r.choice(['all', 'one', 'list', 'cond']) if m > 1 else r.choice(['all', 'one'])
            if q == 'one':
                step = r.randrange(m)
                sel = [step]
            elif q == 'list':
                step = sel = r.sample(range(m), r.randint(1, m))
            elif q == 'cond' and haslog:
                kw = {'q': r.choice([0, 1])}
                sel = [i for i in range(m) if i % 2 == kw['q']]
            want = list(names) if cols is None else [c for c in ([names[0]] if axis and names[0] not in cols else [])] + list(cols)
            exp = {c: np.concatenate([full[c][slice(*steps[k])] for k in sel]) for c in want}
            before, bstep = (list(cols) if cols else cols), (list(step) if isinstance(step, list) else step)
            case = (kind, lay, names, m, [b - a for a, b in steps], cols, step, kw)
            got = raw.export(cols, step, **kw) if r.random() < .5 else raw.plots[0].export(columns=cols, step=step, **kw)
            bx.check(list(got) == want, 'one column per requested trace, the axis first', (case, list(got)))
            for c in want:
                bx.check(len(got[c]) == len(exp[c]) and np.array_equal(np.array(got[c]), exp[c]), 'cells', (case, c, list(got[c]), list(exp[c])))
            bx.check((list(cols) if cols else cols) == before and (list(step) if isinstance(step, list) else step) == bstep,
                     'the arguments are not changed', case)
            # what was exported is independent of the file
            for c in want:
                if len(got[c]):
                    try:
                        got[c] += 1
                    except Exception:
                        pass
            ok = all(np.array_equal(np.array(raw.get_wave(c, k) if axis else raw.get_wave(c)), full[c][slice(*steps[k])] if axis else full[c])
                     for c in names for k in range(m))
            sole = q == 'one' or m == 1 or len(sel) == 1
            if not sole:        # a table of a single step may share the memory of the wave
                bx.check(ok, 'reading after an export and a change of the table', case)
            else:
                raw = R(f, traces_to_read='*', verbose=False)
            # CSV
            if not kw:
                sep = r.choice([',', ';', '\t'])
                out = os.path.join(d, 'x.csv')
                (raw if r.random() < .5 else raw.plots[0]).to_csv(out, columns=cols, step=step, separator=sep)
                rows = list(csv.reader(open(out, newline=''), delimiter=sep))
                bx.check(rows[0] == want, 'header of the CSV file', (case, rows[0]))
                nr = len(exp[want[0]])
                bx.check(len(rows) == nr + 1 and all(len(x) == len(want) for x in rows), 'one line per point', (case, rows))
                for j, c in enumerate(want):
                    bx.check(all(cell(rows[i + 1][j], exp[c]) == exp[c][i] for i in range(nr)), 'cells of the CSV file', (case, c, sep))
                FakeFrame.made.clear()
                sys.modules['pandas'] = types.SimpleNamespace(DataFrame=FakeFrame)
                try:
                    df = raw.to_dataframe(columns=cols, step=step, copy=True)
                    raw.to_csv('a.csv', columns=cols, step=step, separator=sep, index=False)
                    raw.to_excel('a.xlsx', columns=cols, step=step, index=False)
                finally:
                    del sys.modules['pandas']
                bx.check(len(FakeFrame.made) == 3 and FakeFrame.made[0] is df and df.kw == {'copy': True}, 'one data frame per request', case)
                for x in FakeFrame.made:
                    bx.check(list(x.data) == want and all(np.array_equal(np.array(x.data[c]), exp[c]) for c in want), 'data frame', (case, x.data))
                bx.check(FakeFrame.made[1].out == ('csv', 'a.csv', sep, {'index': False}) and
                         FakeFrame.made[2].out == ('excel', 'a.xlsx', {'index': False}), 'files written from the data frame', case)
            ok = all(np.array_equal(np.array(raw.get_wave(c, k) if axis else raw.get_wave(c)), full[c][slice(*steps[k])] if axis else full[c])
                     for c in names for k in range(m))
            bx.check(ok, 'reading after an export', case)
            bx.check(raw.get_trace_names() == names and len(raw.get_steps()) == m, 'names and steps after an export', case)
        # the conversion script
        cols = r.choice([None, r.sample(names, r.randint(1, len(names)))])
        want = list(names) if cols is None else [c for c in ([names[0]] if axis and names[0] not in cols else [])] + list(cols)
        words = [c[2:-1] if c.startswith('V(') and c.endswith(')') and r.random() < .4 and c[2:-1] not in names else c for c in cols or []]
        to_file = r.random() < .5
        argv, sep = ['raw_convert.py'], '\t'
        if to_file:
            argv += ['-o', os.path.join(d, 'y.csv')]
        if r.random() < .5:
            sep = ';'
            argv += ['-s', sep]
        argv += [f] + words
        buf = io.StringIO()
        old = sys.argv
        sys.argv = argv
        try:
            with contextlib.redirect_stdout(buf):
                script.main()
        except SystemExit as e:
            bx.check(e.code == 0, 'the conversion succeeds', (argv, buf.getvalue()))
        finally:
            sys.argv = old
        text = open(os.path.join(d, 'y.csv')).read() if to_file else buf.getvalue()
        if not to_file and cols:
            text = text.split('\n', 1)[1]
        rows = list(csv.reader(io.StringIO(text.rstrip('\n') + '\n'), delimiter=sep))
        rows = [x for x in rows if x]
        bx.check(rows and rows[0] == want, 'columns of the conversion script', (argv, names, text[:300]))
        bx.check(len(rows) == len(full[want[0]]) + 1, 'rows of the conversion script', (argv, text[:300]))
        for j, c in enumerate(want):
            bx.check(all(cell(rows[i + 1][j], full[c]) == full[c][i] for i in range(len(full[c]))), 'cells of the conversion script', (argv, c))
        bx.done(case)


@bounded('C22', 'tables of QSPICE files with computed traces', [M + ':PlotData.export', M + ':PlotData._compute_alias'])
def qspice(bx):
    R = bx.mod('raw.raw_read').RawRead
    d = bx.dir()
    for r in bx.each(200, 2000):
        n = r.randint(1, 8)
        names, ty = ['Time', 'V(in)', 'V(out)'], ['time', 'voltage', 'voltage']
        cols = [rawgen.axis(r, n), rawgen.samples(r, n), rawgen.samples(r, n)]
        g = r.choice([0.001, 0.5, 2.0])
        al = {'I(R1)': (f'.alias I(R1) ({g}mho*V(in,out))', lambda w: g * (w[1] - w[2])),
              'I(R2)': (f'.alias I(R2) ({g}mho*V(out,0))', lambda w: g * w[2]),
              'V(x)': ('.alias V(x) (V(in)+V(out))', lambda w: w[1] + w[2]),
              'I(R3)': ('.alias I(R3) (1e-06mho*V(0,in))', lambda w: -1e-6 * w[1]),
              'Twice': ('.alias Twice 2*pi*Time', lambda w: 2 * 3.1415926536 * w[0]),
              'V(y)': ('.alias V(y) (V(in)*gain+temp)', lambda w: w[1] * 2200.0 + 27)}
        use = r.sample(list(al), r.randint(1, 3))
        pars = ['.param temp=' + r.choice(['27', '.027k']), '.param gain=2.2K'] + r.choice([[], ['.param ratio=2*gain'], ['.param ratio={gain}', '.param x=1/3']])
        f = os.path.join(d, 'q.qraw')
        st = rawgen.write(f, 'Transient Analysis', names, ty, cols, 'binary', enc='utf_8', always_double=True, axis_double=True,
                          command='QSPICE64', extra=pars + [al[a][0] for a in use])
        raw = R(f, verbose=False)
        allnames = names + use
        full = dict(zip(names, st))
        full.update({a: al[a][1](st) for a in use})
        bx.check(raw.get_trace_names() == allnames, 'stored and computed traces', (use, raw.get_trace_names()))
        cols = r.choice([None, r.sample(allnames, r.randint(1, len(allnames)))])
        want = allnames if cols is None else ([] if 'Time' in cols else ['Time']) + cols
        got = raw.export(cols)
        bx.check(list(got) == want, 'columns', (use, cols, list(got)))
        for c in want:
            bx.check(np.allclose(got[c], full[c], rtol=1e-9, atol=0), 'cells', (use, cols, c, list(got[c]), list(full[c])))
        bx.done((use, cols, n))
