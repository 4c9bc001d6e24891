"""C02: RAW reading does not depend on which traces are asked for, when or in what order."""
import itertools
import os

import numpy as np

from pyvc import core
from pyvc.api import *
from props import rawgen

ASSUMPTIONS = ["numpy.frombuffer reads the requested fields of a record at their cumulative offsets"]


class Chunk:
    """ghost bytes: where they were read and how many there are"""

    def __init__(self, pos, n):
        self.pos, self.n = pos, n

    def __len__(self):
        return self.n


class Wave:
    """ghost samples: the first byte and the distance between two samples"""

    def __init__(self, chunk, offset, dtype):
        self.chunk, self.offset, self.dtype = chunk, offset, dtype
        self.shape = ()

    def __len__(self):
        return 0

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self
        off = 0
        for name, dt in self.dtype:
            if name == k:
                return Wave(self.chunk, off, dt)
            off = off + np.dtype(dt).itemsize
        raise ValueError(k)


class GFile:
    def __init__(self):
        self.pos = 0

    def seek(self, p, *a):
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def read(self, n):
        c = Chunk(self.pos, n)
        self.pos = self.pos + n
        return c

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def selective(vc, layout, nv):
    """for any number of points: every requested variable is read from its own place of the file, whatever else is
    requested and whether the axis was read before"""
    if not vc.symbolic:
        return vc.assume(False)
    P, RC = vc.mod('raw.plot_data'), vc.mod('raw.raw_classes')
    n, base = vc.int('points', 1), vc.int('fpos', 0)
    kind = vc.choice('types', ['real', 'double', 'complex', 'complex with real axis'])
    dts = {'real': ['d'] + ['f'] * (nv - 1), 'double': ['d'] * nv, 'complex': ['complex'] * nv,
           'complex with real axis': ['d'] + ['complex'] * (nv - 1)}[kind]
    has_axis = vc.choice('axis', [True, False])
    was_read = vc.choice('read before', [False, True]) if has_axis else False
    mask = vc.choice('requested', list(range(2 ** nv)))
    names = [f'v{i}' for i in range(nv)]
    want = [names[i] for i in range(nv) if mask >> i & 1]
    p = object.__new__(P.PlotData)
    f = GFile()
    old = object()
    vc.stub(open, 'open', lambda *a, **k: f)
    vc.stub(np.frombuffer, 'numpy.frombuffer', lambda b, dtype=None: Wave(b, 0, dtype))

    class Made:
        def __init__(self, *a):
            self.a = a
            self.name, self.data = a[0], a[-1]

        def set_steps(self, s):
            pass
    vc.stub(P.Axis, 'Axis()', lambda *a, **k: Made(*a))
    vc.stub(P.TraceRead, 'TraceRead()', lambda *a, **k: Made(*a))
    p.__dict__.update(_raw_filename='x', _raw_type='binary:', _verbose=False, _nPoints=n, _fpos_data=base,
                      _raw_params={'Flags': 'real forward' + (' fastaccess' if layout == 'fast' else '')}, _steps=None,
                      _trace_info=[P.TraceInfo(nm, dt, 'voltage') for nm, dt in zip(names, dts)], _has_axis=has_axis,
                      _axis=old if was_read else None, _read_traces={names[0]: old} if was_read else {}, _plot_nr=1)
    p.read_trace_data(list(want))
    got = p._read_traces
    size = [np.dtype(t).itemsize for t in dts]
    must = set(want) | ({names[0]} if has_axis else set())
    vc.check('exactly the requested variables and the axis are loaded', set(got) == must)
    for i, nm in enumerate(names):
        if nm not in got:
            continue
        if i == 0 and was_read:
            vc.check('the axis that was read stays', got[nm] is old)
            continue
        w = got[nm].data
        vc.check(f'variable {i} is decoded with its own type', np.dtype(w.dtype) == np.dtype(dts[i]))
        if layout == 'fast':
            vc.check(f'variable {i} is read from its own column', And(w.chunk.pos == base + n * sum(size[:i]), w.offset == 0))
            vc.check(f'variable {i} has all its samples', w.chunk.n == n * size[i])
        else:
            vc.check(f'variable {i} is read from the records', And(w.chunk.pos == base, w.chunk.n == n * sum(size)))
            vc.check(f'variable {i} is read at its own offset in the record', w.offset == sum(size[:i]))


for _lay, _nv in itertools.product(('fast', 'interleaved'), (1, 2, 3)):
    prove('C02', f'{_lay}: a variable is read from its own place, any number of points, {_nv} variable(s), any request',
          ['raw.plot_data:PlotData.read_trace_data', 'raw.plot_data:PlotData._read_bytes_from_file'], conc=0,
          internal=True, unroll=200)(lambda vc, l=_lay, k=_nv: selective(vc, l, k))


class _Column:
    """ghost samples of a variable: what is stored is checked with its place"""

    def __init__(self, vc, st, v, n, dtype):
        self.vc, self.st, self.v, self.n, self.dtype = vc, st, v, n, dtype

    def __setitem__(self, p, x):
        st = self.st
        st.stored = st.stored + 1
        if st.line is None or st.seen:
            raise core.Unsupported('the values are stored in another way')
        st.seen = True
        self.vc.check('each value is stored with its own variable, at its own point', And(st.line[1] == self.v, st.line[0] == p))
        same = x == st.line[2] if self.dtype != 'complex' else isinstance(x, tuple) and And(x[0] == st.line[2], x[1] == st.line[3])
        self.vc.check('each value is stored as it is written', same)


def ascii(vc, nv):
    """a file with the values of any number of points, one after the other, with any number of empty lines between them"""
    if not vc.symbolic:
        return vc.assume(False)
    P = vc.mod('raw.plot_data')
    n = vc.int('points', 1)
    kind = vc.choice('types', ['double', 'complex', 'complex with real axis'])
    dts = {'double': ['d'] * nv, 'complex': ['complex'] * nv, 'complex with real axis': ['d'] + ['complex'] * (nv - 1)}[kind]
    enc = vc.choice('encoding', ['utf_8', 'utf_16_le'])
    has_axis = vc.choice('axis', [True, False])
    stepped = vc.choice('stepped', ['no', 'known', 'from the axis'])
    end = vc.choice('end of line', ['\n', '\r\n'])
    names = [f'v{i}' for i in range(nv)]
    st = type('State', (), {})()
    st.p, st.v, st.line, st.seen, st.stored, st.phase, st.half = 0, 0, None, False, 0, 'points', None
    st.steps = []

    def give(text):
        b = text.encode(enc)
        if enc == 'utf_16_le':
            st.half = b[-1:]
            return b[:-1]
        return b

    class F:
        def readline(self):
            if st.half is not None:
                raise core.Unsupported('half a character is left')
            if st.phase == 'after':
                return b''
            what = vc.choice('next line', ['value', 'empty', 'blank'])
            if what != 'value':
                st.line = None
                return give(end if what == 'empty' else ' \t' + end)
            if st.line is not None and not st.seen:
                raise core.Unsupported('several values are read at a time')
            re, im = vc.real('value'), vc.real('imaginary part')
            st.line, st.seen = (st.p, st.v, re, im), False
            p, v = st.p, st.v
            st.last = st.v + 1 == nv
            # the next value of the file
            st.p, st.v = Ite(st.last, p + 1, p), Ite(st.last, 0, v + 1)
            first = v == 0
            isc = [i for i in range(nv) if dts[i] == 'complex']
            comp = Or(*[v == i for i in isc]) if isc else False
            text = (f'{re},{im}' if bool(comp) else f'{re}')
            return give((f'{p}\t{text}' if bool(first) else f'\t{text}') + end)

        def read(self, k):
            if st.half is None or k != 1:
                raise core.Unsupported('reads the file in another way')
            b, st.half = st.half, None
            return b

        def tell(self):
            return 0

        def seek(self, *a):
            raise core.Unsupported('moves in the file')

    class Made:
        def __init__(self, *a):
            self.name, self.data = a[0], a[-1]

        def set_steps(self, s):
            vc.check('the steps are set when the axis is known', And(st.p == n, st.v == 0))
            st.steps.append(s)
    ids = iter(range(nv))
    vc.stub(np.zeros, 'numpy.zeros', lambda k, dtype=None: _Column(vc, st, next(ids), k, dtype))
    vc.stub(complex, 'complex()', lambda a, b: (a, b))
    vc.stub(P.Axis, 'Axis()', lambda *a, **k: Made(*a))
    vc.stub(P.TraceRead, 'TraceRead()', lambda *a, **k: Made(*a))
    vc.stub(P.PlotData._set_steps_from_axis, '_set_steps_from_axis', lambda self: self._axis.set_steps('found'))
    p = object.__new__(P.PlotData)
    steps = {'no': None, 'known': [{'a': 1}], 'from the axis': []}[stepped]
    p.__dict__.update(_verbose=False, _nPoints=n, _steps=steps, _aliases={}, _encoding=enc, _axis=None, _read_traces={}, _plot_nr=1,
                      _has_axis=has_axis, _trace_info=[P.TraceInfo(a, b, 'voltage') for a, b in zip(names, dts)])

    def outer(L, i):
        return {'the values of the points so far are read': And(st.p == i, st.v == 0, st.stored == i * nv)}

    def oh(E_, L):
        st.p, st.v, st.line, st.seen, st.stored = vc.int('p'), vc.int('v'), None, False, vc.int('s')
        return [st]

    def inner(L, i=None):
        return {'the values of the variables so far are read': And(L.var_index >= 0, L.var_index <= nv, st.stored == L.point * nv + L.var_index,
                                                                  Or(And(L.var_index < nv, st.p == L.point, st.v == L.var_index),
                                                                     And(L.var_index == nv, st.p == L.point + 1, st.v == 0)))}
    Q = 'raw.plot_data:PlotData._read_ascii_vector'
    vc.loop(Q + '#1', outer, havoc=oh)
    vc.loop(Q + '#2', inner, havoc=oh)

    def after(L, i=None):
        st.phase = 'after'
        return []
    vc.loop(Q + '#3', after)
    p._read_ascii_vector(F())
    vc.check('every value of the file is stored', And(st.p == n, st.v == 0, st.stored == n * nv))
    vc.check('one trace for each variable', list(p._read_traces) == names)
    vc.check('the first one is the axis', p._axis is (p._read_traces[names[0]] if has_axis else None))
    vc.check('the steps are set once', st.steps == ([] if not has_axis or steps is None else [steps or 'found']))


for _nv in (1, 2, 3):
    prove('C02', f'ASCII: each value is stored with its variable and its point, any number of points, {_nv} variable(s)',
          ['raw.plot_data:PlotData._read_ascii_vector'], conc=0, internal=True)(lambda vc, k=_nv: ascii(vc, k))


# how the variables of a plot are found: name → the names that it has; the second ones differ in the case of letters only
NAMES = [['V(a)'], ['time', 'V(a)', 'I(R1)'], ['time', 'V(out)', 'v(OUT)'], ['frequency', 'onoise', 'Onoise_1']]


def _plot(vc, names, has_axis, mask, log):
    """a plot of which some variables were read before; read_trace_data is used by its contract"""
    P, RC = vc.mod('raw.plot_data'), vc.mod('raw.raw_classes')
    p = object.__new__(P.PlotData)
    n = vc.int('points', 1)

    def made(i):
        if i == 0 and has_axis:
            t = object.__new__(RC.Axis)
            p._axis = t
        else:
            t = object.__new__(RC.TraceRead)
        t.name = names[i]
        return t

    def read(self, want):
        vc.check('only variables of the plot are asked for', isinstance(want, (list, tuple)) and set(want) <= set(names))
        log.append(list(want))
        for i, nm in enumerate(names):
            if (nm in want or i == 0 and has_axis and p._axis is None) and not (i == 0 and has_axis and p._axis is not None):
                p._read_traces[nm] = made(i)
    vc.stub(P.PlotData.read_trace_data, 'read_trace_data: what is asked for is read, and the axis', read)
    vc.stub(P.PlotData._compute_alias, '_compute_alias: the alias', lambda self, a: ('alias', a))
    p.__dict__.update(_raw_params={'Variables': list(names)}, _trace_info=[P.TraceInfo(nm, 'd', 'voltage') for nm in names], _has_axis=has_axis,
                      _axis=None, _read_traces={}, _aliases={'V(Alias)': '1*V(a)'}, _plot_nr=1, _nPoints=n)
    if mask:
        if has_axis:
            p._read_traces[names[0]] = made(0)
        for i in range(1 if has_axis else 0, len(names)):
            if mask >> i & 1:
                p._read_traces[names[i]] = made(i)
    return P, RC, p, n


@prove('C02', 'a variable is found by its name, in any case, or by its index, whether it was read before or not (up to 3 variables)',
       ['raw.plot_data:PlotData.get_trace', 'raw.plot_data:PlotData.get_wave', 'raw.plot_data:PlotData.get_axis', 'raw.plot_data:PlotData.get_len',
        'raw.plot_data:PlotData.get_trace_names'], internal=True, conc=0)
def lookup(vc):
    if not vc.symbolic:
        return vc.assume(False)
    names = vc.choice('names', NAMES)
    has_axis = vc.choice('axis', [True, False])
    mask = vc.choice('read before', list(range(2 ** len(names))))
    log = []
    P, RC, p, n = _plot(vc, names, has_axis, mask, log)
    i = vc.choice('asked for', list(range(len(names))))
    before = dict(p._read_traces)
    exact = len({x.lower() for x in names}) == len(names)
    ref = vc.choice('as', ['name', 'index'] + ['upper', 'lower'] * exact)
    ref = {'name': names[i], 'index': i, 'upper': names[i].upper(), 'lower': names[i].lower()}[ref]
    waves = []

    def wave(self, step=0):
        waves.append((self, step))
        return ('wave', self, step)
    for c in (RC.Axis, RC.TraceRead):
        vc.stub(c.get_wave, 'get_wave of a trace (C03)', wave)
        vc.stub(c.get_len, 'get_len of a trace (C03)', lambda self, step=0: ('len', self, step))
    how = vc.choice('how', ['trace', 'wave', 'axis', 'len', 'names', 'missing'])
    if how == 'trace' or how == 'wave':
        k = vc.int('step', 0)
        t = p.get_trace(ref) if how == 'trace' else p.get_wave(ref, k)
        if how == 'wave':
            vc.check('the wave of the step asked for', isinstance(t, tuple) and t[0] == 'wave' and t[2] == k)
            t = t[1]
        vc.check('the variable asked for', t.name == names[i])
        vc.check('the first one is the axis', isinstance(t, RC.Axis) == (i == 0 and has_axis))
        vc.check('it is read once', p.get_trace(ref) is t)
        vc.check('what was read before is not read again', names[i] not in before or before[names[i]] is t)
    elif how == 'axis':
        k = vc.int('step', 0)
        r, e = vc.raises(lambda: p.get_axis(k), RuntimeError)
        vc.check('only a plot with an axis has one', (e is None) == has_axis)
        if e is None:
            vc.check('the wave of the first variable', r[0] == 'wave' and r[1].name == names[0] and r[2] == k and isinstance(r[1], RC.Axis))
    elif how == 'len':
        k = vc.int('step', 0)
        r = p.get_len(k)
        if has_axis:
            vc.check('the length of the step of the axis', isinstance(r, tuple) and r[0] == 'len' and r[1].name == names[0] and r[2] == k)
        else:
            vc.check('the number of points', r == n)
    elif how == 'names':
        got = p.get_trace_names()
        vc.check('the names of the variables, and of the aliases', got == names + ['V(Alias)'])
        got.append('x')
        vc.check('the answer is a copy', p.get_trace_names() == names + ['V(Alias)'])
    else:
        for bad in ('V(nothing)', '', len(names), -1):
            r, e = vc.raises(lambda: p.get_trace(bad), IndexError)
            vc.check('a variable that does not exist is an error', e is not None)
        for a in ('V(Alias)', 'v(alias)'):
            vc.check('an alias is computed', p.get_trace(a) == ('alias', 'V(Alias)'))
        vc.check('nothing is read for it', p._read_traces == before and not log)


DELEGATED = [('get_trace', ('V(a)',), {}), ('get_wave', ('V(a)', 3), {}), ('get_wave', ('V(a)',), {'step': 2}), ('get_axis', (2,), {}),
             ('get_time_axis', (2,), {}), ('get_len', (4,), {}), ('get_steps', (), {'temp': 25, 'R1': 1e3}), ('get_trace_names', (), {}),
             ('get_plot_name', (), {}), ('get_raw_property', ('Title',), {}), ('get_raw_properties', (), {}),
             ('export', (['V(a)'], [0, 2]), {}), ('export', (), {'columns': ['a'], 'step': 1, 'x': 5}), ('to_dataframe', (['V(a)'], 1), {}),
             ('to_csv', ('f.csv', ['V(a)'], 1, ';'), {'x': 5}), ('to_excel', ('f.xlsx', ['V(a)'], 1), {'x': 5})]
ATTRIBUTES = ['nVariables', 'nPoints', 'raw_type', 'aliases', 'backannotations', 'has_axis', 'axis', 'raw_params', 'flags', 'steps', 'encoding']


@prove('C02', 'a file answers as its first plot does', [f'raw.raw_read:RawRead.{m}' for m in sorted({d[0] for d in DELEGATED})], internal=True, conc=0)
def delegated(vc):
    if not vc.symbolic:
        return vc.assume(False)
    R = vc.mod('raw.raw_read').RawRead
    PD = vc.mod('raw.plot_data').PlotData
    import inspect
    calls = []

    class Plot:
        def __init__(self, k):
            self.k = k

        def __getattr__(self, nm):
            if nm.startswith('__'):
                raise AttributeError(nm)
            if nm in ATTRIBUTES:
                return (self.k, nm)

            def call(*a, **k):
                calls.append((self.k, nm, a, k))
                return (self.k, nm, 'answer')
            return call
    r = object.__new__(R)
    r._dialect = 'ltspice'
    r._plots = [Plot(i) for i in range(vc.choice('plots', [1, 2]))]
    if vc.choice('what', ['attribute', 'method']) == 'attribute':
        a = vc.choice('which', ATTRIBUTES)
        vc.check('that of the first plot', getattr(r, a) == (0, a))
        vc.check('all the plots', r.plots == r._plots and r.get_nr_plots() == len(r._plots))
        return
    m, a, k = vc.choice('which', DELEGATED)
    vc.check('the answer of the first plot', getattr(r, m)(*a, **k) == (0, m, 'answer'))
    vc.check('it is asked once', len(calls) == 1 and calls[0][:2] == (0, m))
    sig = inspect.signature(getattr(PD, m).__wrapped__ if hasattr(getattr(PD, m), '__wrapped__') else getattr(PD, m))

    def bound(a, k):
        b = sig.bind(None, *a, **k)
        b.apply_defaults()
        return dict(b.arguments)
    vc.check('with the same arguments', bound(*calls[0][2:]) == bound(a, k))


@prove('C02', 'every plot of a file is read, in order, with what was asked for (up to 3 plots)', ['raw.raw_read:RawRead.__init__'], internal=True, conc=0)
def opened(vc):
    if not vc.symbolic:
        return vc.assume(False)
    RR = vc.mod('raw.raw_read')
    n = vc.choice('plots', [0, 1, 2, 3])
    dia = vc.choice('dialect', [None, '', 'qspice', 'LTspice', 'Xyce', 'other'])
    ask = vc.choice('asked for', [None, '*', 'V(a)', 'V(a) , I(b)', ['V(a)'], ('V(a)', 'I(b)'), []])
    data = [vc.choice(f'plot {i} has data', [True, False]) for i in range(n)]
    made = []
    st = type('State', (), {'left': n, 'open': False})()

    class Plot:
        def __init__(self, f, path, nr, enc, dialect, verbose=False):
            vc.check('the file is read in order', f is F and st.open)
            self.k = len(made)
            self.nr, self.enc, self.given, self.path = nr, enc, dialect, str(path)
            self.dialect = dialect or 'ltspice'
            self.has_data = data[self.k]
            self.encoding = 'utf_8' if self.k % 2 else 'utf_16_le'
            self.names = ['time', f'V({self.k})']
            self.asked = []
            st.left -= 1
            made.append(self)

        def get_trace_names(self):
            return list(self.names)

        def read_trace_data(self, want):
            self.asked.append(list(want))

    class File:
        def __enter__(self):
            st.open = True
            return self

        def __exit__(self, *a):
            st.open = False
            return False

        def close(self):
            st.open = False
    F = File()

    def opens(name, mode='r', *a, **k):
        vc.check('the file given', (str(name), mode) == ('x.raw', 'rb'))
        st.open = True
        return F
    vc.stub(open, 'open', opens)
    vc.stub(RR.get_remaining_bytes, 'get_remaining_bytes: how much of the file is left', lambda f: 1000 * st.left)
    vc.stub(RR.PlotData, 'PlotData()', Plot)
    r, e = vc.raises(lambda: RR.RawRead('x.raw', ask, dia, False), ValueError)
    vc.check('an unknown dialect is refused', (e is not None) == (dia == 'other'))
    if e is not None:
        return
    vc.check('every plot is looked at', len(made) == n)
    vc.check('the file is closed', not st.open or n == 0 and not st.open)
    kept = [p for p in made if p.has_data]
    vc.check('those with data are kept, in order', len(r.plots) == len(kept) and all(a is b for a, b in zip(r.plots, kept)))
    vc.check('they are numbered', all(p.nr == i + 1 for i, p in enumerate(kept)))
    known = dia.lower() if dia else None
    for p in made:
        vc.check('the dialect given or found before', p.given == (known if known or p.k == 0 else 'ltspice'))
        first = [q for q in made[:p.k] if q.has_data]
        vc.check('the encoding found before', p.enc == (first[0].encoding if first else ''))
    vc.check('the dialect', r.dialect == (known or ('ltspice' if n else None)))
    for p in kept:
        want = None if ask is None else p.names if ask == '*' else [x.strip() for x in ask.split(',')] if isinstance(ask, str) else list(ask)
        got = set().union(*p.asked) if p.asked else set()
        vc.check('what was asked for is read', got == set(want or []))
        vc.check('nothing is read when nothing was asked for', want is not None or not p.asked)



@bounded('C02', 'the same samples for every request, layout and history', [
    'raw.plot_data:PlotData.read_trace_data', 'raw.plot_data:PlotData._read_ascii_vector', 'raw.plot_data:PlotData.get_trace',
    'raw.plot_data:PlotData.get_wave', 'raw.raw_read:RawRead.__init__', 'raw.raw_read:RawRead.get_trace'])
def histories(bx):
    R = bx.mod('raw.raw_read').RawRead
    d = bx.dir()
    for r in bx.each(700, 8000):
        kind = r.choice(['tran', 'ac', 'dc', 'op', 'noise', 'tf'])
        cplx = kind == 'ac'
        n = r.choice([1, 2, 4, 9]) if kind not in ('op', 'tf') else 1
        nv = r.choice([1, 2, 3, 5, 8])
        names, types = rawgen.names_for(r, nv, kind)
        twins = nv > 2 and r.random() < .1 and names[1].swapcase() not in names
        if twins:
            names[2] = names[1].swapcase()      # two names that differ only in the case of letters
        dialect = r.choice(['ltspice', 'ltspice', 'qspice', 'ngspice', 'xyce'])
        kw = {}
        if dialect != 'ltspice':
            kw = dict(enc='utf_8', always_double=True, command={'qspice': 'QSPICE64', 'ngspice': 'version ngspice-44', 'xyce': 'Xyce'}[dialect],
                      axis_double=dialect == 'qspice')
        else:
            kw = dict(enc=r.choice(['utf_8', 'utf_16_le']), double=not cplx and r.random() < .3)
        ax = rawgen.axis(r, n) if kind not in ('op', 'tf') else rawgen.samples(r, n)
        cols = [ax] + [rawgen.samples(r, n, cplx) for _ in range(nv - 1)]
        files = {}
        for lay in ('binary', 'ascii', 'fast'):
            f = os.path.join(d, lay + '.raw')
            st = rawgen.write(f, rawgen.PLOTS[kind], names, types, cols, lay, cplx=cplx, **kw)
            files[lay] = f
        case = (kind, nv, n, dialect, kw, names)
        for lay, f in files.items():
            req = r.choice([None, '*', list(r.sample(names, r.randint(1, nv))), tuple(r.sample(names, 1))])
            if req and r.random() < .3 and not any(',' in x for x in req) and req != '*':
                req = ','.join(req)
            raw = R(f, traces_to_read=req, verbose=False, dialect=dialect if r.random() < .3 else None)
            held = []
            hist = []
            for _ in range(r.randint(1, 8)):
                i = r.randrange(nv)
                op = r.choice(['wave', 'trace', 'index', 'case', 'axis', 'item', 'len', 'names'])
                hist.append((op, names[i]))
                if op == 'wave':
                    g = raw.get_wave(names[i])
                elif op == 'trace':
                    t = raw.get_trace(names[i])
                    held.append((i, t))
                    g = t.get_wave()
                elif op == 'index':
                    t = raw.get_trace(i)
                    bx.check(t.name == names[i], 'access by index gives the variable of that index', (case, lay, req, hist))
                    g = t.get_wave()
                elif op == 'case' and twins:
                    continue
                elif op == 'case':
                    g = raw.get_wave(r.choice([names[i].upper(), names[i].lower()]))
                elif op == 'item':
                    g = raw.plots[0][names[i]].get_wave()
                elif op == 'axis':
                    if kind in ('op', 'tf'):
                        continue
                    i = 0
                    g = raw.get_axis()
                elif op == 'len':
                    bx.check(raw.get_len() == n, 'length', (case, lay, req, hist))
                    continue
                else:
                    bx.check(raw.get_trace_names() == names, 'trace names', (case, lay, req, hist))
                    continue
                bx.check(np.array_equal(np.array(g), st[i]), 'samples of a variable', (case, lay, req, hist, list(g), list(st[i])))
                if i == 0 and kind not in ('op', 'tf'):
                    bx.check(type(raw.get_trace(0)).__name__ == 'Axis', 'the axis remains an axis', (case, lay, req, hist))
            for i, t in held:
                bx.check(np.array_equal(np.array(t.get_wave()), st[i]), 'earlier results are not changed by later requests',
                         (case, lay, req, hist))
            for other in ['V(does_not_exist)', r.choice(names)[:-1], r.choice(names) + ')', r.choice(names)[1:], '']:
                if other.casefold() in [x.casefold() for x in names]:
                    continue
                try:
                    raw.get_trace(other)
                    bx.fail('an unknown variable is not found', (case, lay, req, other))
                except IndexError:
                    pass
        bx.done(case)


@bounded('C02', 'files with several plots: each plot reads its own variables', [
    'raw.raw_read:RawRead.__init__', 'raw.plot_data:PlotData.__init__'])
def several(bx):
    R = bx.mod('raw.raw_read').RawRead
    d = bx.dir()
    for r in bx.each(250, 2500):
        np_ = r.randint(2, 3)
        lay = r.choice(['binary', 'binary', 'ascii', 'fast'])
        kw = r.choice([dict(always_double=True, command='version ngspice-44'), dict(always_double=True, command='Xyce'),
                       dict(always_double=True, axis_double=True, command='QSPICE64'), dict()])
        stored = []
        blob = b''
        for k in range(np_):
            kind = r.choice(['tran', 'ac', 'dc', 'op'])
            n, nv = (1 if kind == 'op' else r.randint(1, 6)), r.randint(1, 5)
            names, types = rawgen.names_for(r, nv, kind)
            cplx = kind == 'ac'
            cols = [rawgen.axis(r, n)] + [rawgen.samples(r, n, cplx) for _ in range(nv - 1)]
            f = os.path.join(d, 'p.raw')
            st = rawgen.write(f, rawgen.PLOTS[kind], names, types, cols, lay, enc='utf_8', cplx=cplx, **kw)
            blob += open(f, 'rb').read()
            stored.append((kind, names, st))
        f = os.path.join(d, 'all.raw')
        open(f, 'wb').write(blob)
        req = r.choice(['*', None, [stored[r.randrange(np_)][1][-1]]])
        raw = R(f, traces_to_read=req, verbose=False)
        case = (lay, [(k, nm, len(s[0])) for k, nm, s in stored], req)
        bx.check(raw.get_nr_plots() == np_, 'number of plots', (case, raw.get_nr_plots()))
        order = [(p, i) for p in range(np_) for i in range(len(stored[p][1]))]
        r.shuffle(order)
        for p, i in order:
            kind, names, st = stored[p]
            pl = raw.plots[p]
            bx.check(pl.get_plot_name() == rawgen.PLOTS[kind], 'plot name', case)
            bx.check(np.array_equal(np.array(pl.get_wave(names[i])), st[i]), 'samples of a variable of a plot', (case, p, names[i]))
        bx.check(np.array_equal(raw.get_wave(stored[0][1][-1]), stored[0][2][-1]), 'the file gives the first plot', case)
        bx.done(case)
