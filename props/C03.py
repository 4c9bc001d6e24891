"""C03: steps partition stepped data."""
import os

import numpy as np

from pyvc import core
from pyvc.api import *
from .C10 import Grown, Rows, same_text
from props import rawgen

M = 'raw.raw_classes'
ASSUMPTIONS = ["a list filled with None is read as a list of arbitrary integers until its elements are written",
               "numpy arrays are mathematical vectors of reals; equality of samples is equality of numbers"]


def steps_inv(L, _):
    """i points were scanned and k step starts seen; the first min(k, m) of them are recorded"""
    s = L.self
    off, data, n = s.step_offsets, s.data, L.self.data.len_()
    m = length(off)
    i, k = L.i, L.k
    kk = Ite(k < m, k, m)
    return {
        'range': And(1 <= i, Or(i <= n, i == 1), 1 <= k, k <= i),
        'first': at(off, 0) == 0,
        'starts': Forall(0, kk, lambda j: And(at(off, j) >= 0, at(off, j) < i, at(data, at(off, j)) == at(data, 0))),
        'increasing': Forall(0, kk - 1, lambda j: at(off, j) < at(off, j + 1)),
        'none missed between': Forall(0, kk - 1, lambda j: Forall(at(off, j) + 1, at(off, j + 1),
                                                                  lambda p: at(data, p) != at(data, 0))),
        'none missed after': Implies(k <= m, All(at(off, kk - 1) + 1, i, lambda p: at(data, p) != at(data, 0))),
    }


def All(lo, hi, fn):
    """quantified formula usable inside Implies"""
    import z3
    v = z3.Int(f"q!{next(core.eng().counter)}")
    i = core.SInt(v)
    return core.wrap(z3.ForAll([v], core.as_bool(Implies(And(i >= lo, i < hi), fn(i)))))


@prove('C03', 'step starts are exactly the points where the axis returns to its first value',
       ['raw.raw_classes:Axis.set_steps', 'raw.raw_classes:DataSet.__init__', 'raw.raw_classes:Axis.__init__'], conc=300)
def set_steps(vc):
    RC = vc.mod(M)
    data = vc.seq('data', RealK, isarray=True, minlen=1, elems=lambda r, i: r.choice([0.0, 1.0, 2.0]))
    n = vc.len(data)
    if vc.symbolic:
        info = vc.seq('steps', ValK, minlen=1)
        m = vc.len(info)
    else:
        m = vc.int('m', 1, 4)
        info = [{'run': i + 1} for i in range(m)]
    ax = RC.Axis('x', 'voltage', n, 'double', data)
    vc.loop('raw.raw_classes:Axis.set_steps#0', steps_inv,
            havoc=lambda E, L: _havoc_offsets(E, L), variant=lambda L, i: length(L.self.data) - L.i)
    _, e = vc.raises(lambda: ax.set_steps(info), RC.SpiceReadException)
    if vc.symbolic:
        if e is None:
            off = ax.step_offsets
            vc.check('one offset per step', length(off) == m)
            vc.check('the first step starts at 0', at(off, 0) == 0)
            vc.check('steps start within the data', Forall(0, m, lambda j: And(at(off, j) >= 0, at(off, j) < n)))
            vc.check('steps are in order', Forall(0, m - 1, lambda j: at(off, j) < at(off, j + 1)))
            vc.check('a step starts where the axis returns to its first value',
                     Forall(0, m, lambda j: at(data, at(off, j)) == at(data, 0)))
            vc.check('no other point of a step has the first value',
                     Forall(0, m - 1, lambda j: Forall(at(off, j) + 1, at(off, j + 1), lambda p: at(data, p) != at(data, 0))))
            vc.check('nor any point of the last one', Forall(at(off, m - 1) + 1, n, lambda p: at(data, p) != at(data, 0)))
    else:
        want = [i for i in range(n) if data[i] == data[0]]
        vc.check('a wrong number of steps is reported, a right one accepted', (e is None) == (len(want) == m))
        if e is None:
            vc.check('steps start where the axis returns to its first value',
                     [ax.step_offset(k) for k in range(m + 1)] == want + [n])
            vc.check('waves', all(list(ax.get_wave(k)) == list(data[a:b])
                                  for k, (a, b) in enumerate(zip(want, want[1:] + [n]))))


def _havoc_offsets(E, L):
    off = L.self.step_offsets
    off.arr = E.fresh_seq(IntK, 'offsets', n=off.n).arr
    return [off]


def _stepped(vc, name='x', stepped=None):
    """an axis in any state that set_steps can leave it in"""
    RC = vc.mod(M)
    if vc.symbolic:
        n = vc.int('n', 1)
        data = vc.seq('data', RealK, n=n, isarray=True)
        off = vc.seq('off', IntK, minlen=1)
        m = vc.len(off)
        ax = RC.Axis(name, 'time', n, 'double', data)
        if vc.choice('stepped', [True, False]) if stepped is None else stepped:
            vc.assume(at(off, 0) == 0, Forall(0, m, lambda j: And(at(off, j) >= 0, at(off, j) < n)),
                      Forall(0, m - 1, lambda j: at(off, j) < at(off, j + 1)))
            vc.rep(ax, step_info=vc.seq('info', ValK, n=m), step_offsets=off)
        else:
            m = 1
            off = [0]
    else:
        m = vc.int('m', 1, 4)
        lens = [vc.int(f'len{i}', 1, 5) for i in range(m)]
        data = np.array([float(j) for l in lens for j in range(l)])
        n = len(data)
        ax = RC.Axis(name, 'time', n, 'double', data)
        if stepped is False:
            vc.assume(m == 1)
        if m > 1 or stepped or vc.bool('stepped'):
            ax.set_steps([{'run': i} for i in range(m)])
        off = [sum(lens[:i]) for i in range(m)]
    k = vc.int('step', 0)
    vc.assume(k < m)
    lo = at(off, k)
    if vc.symbolic:
        hi = n if bool(k + 1 >= m) else at(off, k + 1)
    else:
        hi = n if k + 1 >= m else off[k + 1]
    return RC, ax, data, n, m, off, k, lo, hi


@prove('C03', 'axis waves and lengths are the stored slices between step starts',
       ['raw.raw_classes:Axis.step_offset', 'raw.raw_classes:Axis.get_wave', 'raw.raw_classes:Axis.get_len',
        'raw.raw_classes:Axis.get_point', 'raw.raw_classes:Axis.__len__'])
def axis(vc):
    name = vc.choice('name', ['x', 'time'])
    RC, ax, data, n, m, off, k, lo, hi = _stepped(vc, name=name)
    val = (lambda v: abs(v)) if name == 'time' else (lambda v: v)
    w = ax.get_wave(k)
    vc.check('the wave of a step has the points of the step', vc.len(w) == hi - lo)
    vc.check('the wave of a step is the stored slice', Forall(0, hi - lo, lambda j: at(w, j) == val(at(data, lo + j))))
    vc.check('the reported length is the length of the wave', ax.get_len(k) == vc.len(w))
    vc.check('a step starts at its offset', ax.step_offset(k) == lo)
    vc.check('past the last step is the end of the data', ax.step_offset(m) == n)
    j = vc.int('j', 0)
    vc.assume(j < hi - lo)
    vc.check('a point of a step is the sample of its wave', ax.get_point(j, k) == at(w, j))


@prove('C03', 'trace waves, lengths and points follow the step starts of the axis',
       ['raw.raw_classes:TraceRead.get_wave', 'raw.raw_classes:TraceRead.get_len', 'raw.raw_classes:TraceRead.get_point',
        'raw.raw_classes:TraceRead.__init__'])
def trace(vc):
    RC, ax, _, n, m, off, k, lo, hi = _stepped(vc)
    if vc.symbolic:
        data = vc.seq('tdata', RealK, n=n, isarray=True)
    else:
        data = np.array(vc.seq('tdata', RealK, n=None, elems=None) if False else [float(7 * i % 11) for i in range(n)])
    t = RC.TraceRead('V(a)', 'voltage', n, ax, 'double', data)
    w = t.get_wave(k)
    vc.check('the wave of a step has the points of the step', vc.len(w) == hi - lo)
    vc.check('the wave of a step is the stored slice', Forall(0, hi - lo, lambda j: at(w, j) == at(data, lo + j)))
    vc.check('the reported length is the length of the wave', t.get_len(k) == vc.len(w))
    vc.check('axis and trace agree on the length', t.get_len(k) == ax.get_len(k))
    j = vc.int('j', 0)
    vc.assume(j < hi - lo)
    vc.check('a point of a step is the sample of its wave', t.get_point(j, k) == at(w, j))
    op = RC.TraceRead('V(a)', 'voltage', n, None, 'double', data)      # an operating point: one sample for each step
    i = vc.int('i', 0)
    vc.assume(i < n)
    vc.check('operating point: the sample of a step', op.get_point(0, i) == at(data, i))
    vc.check('operating point: a sample by its index', op.get_point(i) == at(data, i))


@prove('C03', 'lemma: consecutive steps tile the stored vector', ['raw.raw_classes:Axis.step_offset'])
def tiling(vc):
    """start of step 0 is 0, the end of a step is the start of the next one, the end of the last one is the end of the
    data: with the slices above, the waves concatenated in step order are the stored vector"""
    RC, ax, data, n, m, off, k, lo, hi = _stepped(vc)
    vc.check('the first step starts at 0', ax.step_offset(0) == 0)
    vc.check('the end of a step is the start of the next', ax.step_offset(k + 1) == hi)
    vc.check('the end of the last step is the end of the data', ax.step_offset(m) == n)


@prove('C03', 'the steps of a file are the step lines of its log, in order, with their values', ['raw.plot_data:PlotData._load_step_information'],
       internal=True, conc=0)
def steplines(vc):
    """a log of any number of lines; the step lines set one to three values of any name"""
    if not vc.symbolic:
        return vc.assume(False)
    P = vc.mod('raw.plot_data')
    lt = vc.choice('simulator', [True, False])
    nk = vc.choice('values', [1, 2, 3])
    kind = vc.choice('line', ['step', 'other', 'empty', 'like'])
    made = {}

    def make(n):
        kv = [(f"{vc.str(n + f' name {j}')}", f"{vc.str(n + f' value {j}')}") for j in range(nk)]
        made[n] = kv
        text = ' '.join(f'{k}={v}' for k, v in kv)
        end = vc.choice('end', ['\n', ' \n', ''])
        return {'step': f'.step {text}{end}' if lt else f"{vc.choice('step number', ['1', '17', '  9'])} of 20 steps:  .step {text}{end}", 'empty': '\n',
                'other': f'Solver = Normal {text}\n', 'like': f' x .step {text}\n' if lt else f'.step {text}\n'}[kind]
    rows = Rows(vc, 'lines', make)
    opened, closed = [], []

    class Log(Rows):
        def __init__(self):
            self.__dict__.update(rows.__dict__)

        def close(self):
            closed.append(1)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            closed.append(1)
            return False
    log = Log()
    rows.at, rows.len_ = log.at, log.len_
    enc = 'utf_16_le' if lt else 'utf-8'
    vc.stub(P.detect_encoding, 'detect_encoding: the encoding of the log', lambda f, *a: enc)
    vc.stub(open, 'open', lambda f, *a, **k: opened.append((str(f), k.get('encoding'), k.get('mode', a[0] if a else 'r'))) or log)
    vc.stub(P.try_convert_value, 'try_convert_value: the number that a text denotes, or the text (C19)', lambda v: ('value', v))
    p = object.__new__(P.PlotData)
    p.__dict__.update(_raw_params={'Command': 'Linear Technology Corporation LTspice XVII' if lt else 'QSPICE80'}, _steps=None, _verbose=False, _plot_nr=1)
    st = type('State', (), {'at': None})()
    some = vc.bool('a step line was read before')
    g = Grown({})

    def inv(L, i):
        if L.seq is not log:
            raise core.Unsupported('a loop over something else')
        if st.at is None:
            return {'no step at first': L.self._steps is None}
        if st.at == 'next':
            st.at = i
            return []
        kv = made[log.made and f'lines {len(log.made) - 1}']
        steps = L.self._steps
        if kind != 'step':
            return {'other lines make no step': steps is st.before and (steps is None or not steps.new())}
        if st.before is not None and steps is not g:
            return {'a step line is put after the others': False}
        new = steps.new() if isinstance(steps, Grown) else list(steps)
        ok = len(new) == 1 and len(new[0]) == nk
        return {'a step line makes one step': ok,
                'the step has the values of its line': ok and And(*[And(same_text(vc, a, b), isinstance(x, tuple) and same_text(vc, x[1], y))
                                                                      for (a, x), (b, y) in zip(new[0].items(), kv)])}

    def havoc(E, L):
        st.at = 'next'
        L.self._steps = st.before = g if some else None
        return [L.self, g]
    for k in range(4):      # the loops over the lines of either simulator
        vc.loop(f'raw.plot_data:PlotData._load_step_information#{k}', inv, havoc=havoc)
    from pathlib import Path
    p._load_step_information(Path('/x/a.raw' if lt else '/x/a.qraw'))
    vc.check('the log beside the file is read, in its encoding', And(len(opened) == 1, opened[0][0] == '/x/a.log', opened[0][1].replace('_', '-') == enc.replace('_', '-'),
                                                                    opened[0][2] == 'r'))
    vc.check('the steps found are the ones of the file', p._steps is st.before)
    vc.check('the log is closed', len(closed) == 1)


@bounded('C03', 'stepped RAW files read back step by step', [
    'raw.plot_data:PlotData._load_step_information', 'raw.plot_data:PlotData.read_trace_data', 'raw.raw_read:RawRead.get_wave',
    'raw.raw_read:RawRead.get_axis', 'raw.raw_read:RawRead.get_len', 'raw.raw_read:RawRead.get_steps'])
def files(bx):
    R = bx.mod('raw.raw_read').RawRead
    d = bx.dir()
    for r in bx.each(500, 6000):
        kind = r.choice(['tran', 'dc', 'ac', 'noise'])
        cplx = kind == 'ac'
        m = r.randint(1, 5)
        lens = [r.randint(1, 6) for _ in range(m)]
        if r.random() < .3:
            lens = [lens[0]] * m
        x0 = r.choice([0.0, 1.0, -2.0]) if kind != 'tran' else 0.0
        axs = [[x0] + [x0 + (j + r.random() * .5) for j in range(1, l)] for l in lens]
        if kind == 'tran' and r.random() < .3:    # LTspice bug: the sign of compressed times
            axs = [[-v if j and r.random() < .3 else v for j, v in enumerate(a)] for a in axs]
        x = np.array(sum(axs, []))
        nv = r.randint(2, 5)
        names, types = rawgen.names_for(r, nv, kind)
        cols = [x] + [rawgen.samples(r, len(x), cplx) for _ in range(nv - 1)]
        lay = r.choice(['binary', 'fast', 'ascii'])
        dialect = r.choice(['lt', 'lt', 'q'])
        f = os.path.join(d, f"f{r.randint(0, 10**9)}.{'qraw' if dialect == 'q' and r.random() < .7 else 'raw'}")
        kw = dict(command='QSPICE64', always_double=True, axis_double=cplx, enc='utf_8') if dialect == 'q' else {}
        haslog = r.random() < .5
        extra = ()
        title = '* test'
        vals = [r.choice([0, 1, 2.5, 1e3, -4]) + (i if r.random() < .5 else 0) for i in range(m)]
        q0 = r.choice([0, 1])
        log = os.path.splitext(f)[0] + '.log'
        haslog = haslog and (dialect == 'lt' or f.endswith('.qraw'))
        if haslog and dialect == 'q':
            with open(log, 'w', encoding='utf_8') as g:
                g.write('QSPICE log\n' + ''.join(f"{r.choice(['', '', '  '])}{i + 1} of {m} steps:  .step p={v:g} q={i + q0}{r.choice(['', '', ' '])}\n" + r.choice(['', f'vmax: 1 of {i}\n'])
                                                 for i, v in enumerate(vals)) + '\n')
        if haslog and dialect == 'lt':
            with open(log, 'w', encoding=r.choice(['utf_8', 'utf_16_le', 'ascii'])) as g:
                g.write('Circuit: x\n\n' + '\n'.join(f'.step p={v:g} q={i + q0}' for i, v in enumerate(vals)) + r.choice(['\n', '\n\n', '']))
        st = rawgen.write(f, rawgen.PLOTS[kind], names, types, cols, lay, flags=['forward', 'stepped'], cplx=cplx, title=title,
                          extra=extra, **kw)
        try:
            raw = R(f, traces_to_read=r.choice(['*', None, names[-1]]), verbose=False)
        except Exception as e:
            bx.fail('a stepped file can be read', (kind, lay, dialect, lens, haslog, repr(e)))
        case = (kind, lay, dialect, lens, haslog, names)
        steps = raw.get_steps()
        bx.check(len(steps) == m and list(steps) == list(range(m)), 'one step per return of the axis to its first value', (case, steps))
        if haslog:
            got = raw.steps
            bx.check(got is not None, 'the steps carry the values of the log', (case, got))
            if got:
                bx.check([s.get('p') for s in got] == vals and [s.get('q') for s in got] == [i + q0 for i in range(m)],
                         'the steps carry the values of the log', (case, got))
                kk = r.randrange(m)
                bx.check(list(raw.get_steps(q=kk + q0)) == [kk], 'steps are found by their values', (case, kk))
                bx.check(list(raw.get_steps(p=vals[kk])) == [j for j in range(m) if vals[j] == vals[kk]],
                         'steps are found by their values', (case, kk))
                bx.check(list(raw.get_steps(p=vals[kk], q=kk + q0)) == [kk], 'steps are found by their values', (case, kk))
        bounds = [0] + list(np.cumsum(lens))
        for vi, nme in enumerate(names):
            full = np.abs(st[0]) if (vi == 0 and nme == 'time') else st[vi]
            parts = []
            for k in range(m):
                w = raw.get_wave(nme, k)
                want = full[bounds[k]:bounds[k + 1]]
                bx.check(len(w) == len(want) and np.array_equal(w, want), 'the wave of a step', (case, nme, k, list(w), list(want)))
                parts.append(np.array(w))
                t = raw.get_trace(nme)
                bx.check(t.get_len(k) == len(want), 'the length of a step is the length of its wave', (case, nme, k))
                bx.check(raw.get_len(k) == len(want), 'the length reported by the file for a step', (case, k))
                if vi == 0:
                    bx.check(np.array_equal(raw.get_axis(k), want), 'the axis of a step', (case, k))
                for j in range(len(want)):
                    bx.check(t.get_point(j, k) == want[j], 'point access by step and index', (case, nme, k, j))
            bx.check(np.array_equal(np.concatenate(parts), full), 'concatenated steps are the stored vector', (case, nme))
        bx.done(case)
        os.unlink(f)
        if os.path.exists(log):
            os.unlink(log)
