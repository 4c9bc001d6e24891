"""C21: combining simulation results keeps every trace at its own samples."""
import os
import re

import z3

import numpy as np

from pyvc.api import *
from props import rawgen

M = 'raw.raw_write'
ASSUMPTIONS = ["samples and axis positions are real numbers (machine arithmetic is not modelled in the proofs)",
               "axes are strictly monotonic and their spacing is larger than the admissible error"]


def _havoc_new(E, L):
    L.new_data.arr = E.fresh_seq(RealK, 'new_data', n=L.new_data.n).arr
    return [L.new_data]


def seqs(vc, desc):
    n = vc.int('n', 2, None if vc.symbolic else 6)
    m = vc.int('m', 0, None if vc.symbolic else 6)
    ax, data = vc.seq('axis', RealK, n=n, isarray=True), vc.seq('data', RealK, n=n, isarray=True)
    new = vc.seq('new', RealK, n=m, isarray=True)
    if not vc.symbolic:
        ax, new = np.sort(ax), np.sort(new)
        if len(new) and vc.bool('on a sample'):
            new[0] = ax[0]
        vc.assume(all(np.diff(ax) > 0))
        if desc:
            ax, new = ax[::-1].copy(), new[::-1].copy()
        return n, m, ax, np.asarray(data, float), new
    import z3
    a, b = z3.Ints('a!m b!m')
    z = core.to_z3
    for s, k, strict in ((ax, n, True), (new, m, False)):
        A, B = z3.Select(s.arr, a), z3.Select(s.arr, b)
        lo, hi = (B, A) if desc else (A, B)
        core.eng().assume_z3(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < z(k)), lo < hi if strict else lo <= hi),
                                       patterns=[z3.MultiPattern(A, B)]))
    return n, m, ax, data, new


def interpolation(vc, desc):
    W = vc.mod(M).RawWrite
    n, m, ax, data, new = seqs(vc, desc)
    le = (lambda x, y: x >= y) if desc else (lambda x, y: x <= y)
    lt = (lambda x, y: x > y) if desc else (lambda x, y: x < y)
    K = vc.int('K', 0)      # any position of the new axis
    q = vc.int('q', 0)      # any interval of the old one
    if not vc.symbolic:
        vc.assume(m > 0)
        K, q = K % m, q % (n - 1)
    else:
        vc.assume(K < m, q < n - 1)

    def seg(k, t):
        return at(data, k) + sq * (t - at(ax, k))

    def inner(L, _=None):
        i = L.i
        return {'i within the axis': And(i >= 1, i <= L.last, L.last == n - 1),
                'slope is the one of the segment': L.slope * (at(ax, i) - at(ax, i - 1)) == at(data, i) - at(data, i - 1),
                'the axis is monotonic here': And(lt(at(ax, i - 1), at(ax, i)), Implies(i < n - 1, lt(at(ax, i), at(ax, i + 1)))),
                'the segment starts before t': Or(i == 1, lt(at(ax, i - 1), L.t))}

    def outer(L, j):
        i = L.i
        x = at(new, K)
        return {'i within the axis': And(i >= 1, i <= L.last, L.last == n - 1),
                'length': length(L.new_data) == m,
                'the axis is monotonic here': And(lt(at(ax, i - 1), at(ax, i)), Implies(i < n - 1, lt(at(ax, i), at(ax, i + 1)))),
                'slope is the one of the segment': L.slope * (at(ax, i) - at(ax, i - 1)) == at(data, i) - at(data, i - 1),
                'the segment starts before the last position': Or(i == 1, And(j > 0, lt(at(ax, i - 1), at(new, j - 1)))),
                'within a segment, that segment is used':
                    Implies(And(K == j - 1, lt(at(ax, q), x), le(x, at(ax, q + 1))), i - 1 == q),
                'on a sample, a segment next to it is used':
                    Implies(And(K == j - 1, x == at(ax, q)), Or(i == q, i - 1 == q)),
                'value at position K': Implies(And(K < j, le(at(ax, q), x), le(x, at(ax, q + 1))),
                                               at(L.new_data, K) == seg(q, x))}

    vc.loop(M + ':RawWrite._interpolate#0', outer, havoc=_havoc_new)
    vc.loop(M + ':RawWrite._interpolate#1', inner, variant=lambda L, i: L.last - L.i)
    vc.check('lemma: monotonic at the start', And(lt(at(ax, 0), at(ax, 1)), lt(at(ax, q), at(ax, q + 1)), lt(at(ax, 0), at(ax, n - 1))))
    sq = (at(data, q + 1) - at(data, q)) / (at(ax, q + 1) - at(ax, q))
    out = W._interpolate(data, ax, new)
    vc.check('one value per axis position', length(out) == m)
    x = at(new, K)
    if vc.symbolic:
        vc.check('the value is the linear interpolation of the neighbours',
                 Implies(And(le(at(ax, q), x), le(x, at(ax, q + 1))), at(out, K) == seg(q, x)))
    elif le(ax[q], x) and le(x, ax[q + 1]):
        vc.check('the value is the linear interpolation of the neighbours', close(out[K], seg(q, x), 1e-7, 1e-6))


for _d in (False, True):
    prove('C21', f"a trace is interpolated linearly onto the new axis ({'descending' if _d else 'ascending'})",
          ['raw.raw_write:RawWrite._interpolate'], internal=True)(lambda vc, d=_d: interpolation(vc, d))


# ------------------------------------------------------------------------------------------------------------------
# add_traces_from_raw, for any number of traces and points
# ------------------------------------------------------------------------------------------------------------------

def over(L, what):
    if L.seq is not what:
        raise core.Unsupported('a loop over something else')
    return True


class _Opaque:
    """a value the code only passes on"""

    def __init__(self, *what):
        self.what = what

    def __eq__(self, o):
        return isinstance(o, _Opaque) and len(self.what) == len(o.what) and And(*[a == b for a, b in zip(self.what, o.what)])

    __hash__ = None


class _SourceTrace:
    def __init__(self, key, wave):
        self.key, self.wave = key, wave
        self.name = _Opaque('name', key)
        self.whattype, self.numerical_type = _Opaque('whattype', key), _Opaque('numerical type', key)

    def get_wave(self, step=0):
        return self.wave(self.key, step)


class _Source:
    """a RAW file as its contract describes it: traces by name or position, an axis per step"""

    def __init__(self, E, flags, axis, step, axis_type):
        self.flags, self.axis, self.step, self.axis_type = flags, axis, step, axis_type

    def get_raw_property(self, name):
        return {'Flags': self.flags, 'Plotname': 'some analysis'}[name]

    def get_trace(self, ref):
        t = _SourceTrace(ref, lambda key, step: _Opaque('wave', key, step))
        if not is_sym(ref) and ref == 0:
            t.whattype, t.name, t.numerical_type = self.axis_type, 'axis name', 'axis kind'
        return t

    def get_axis(self, step=0):
        if step != self.step:
            raise core.Violation('the step asked for', f'axis of step {step}, not of step {self.step}')
        return self.axis


class _Count:
    """stands in for a list that the code appends to: what is appended is checked, nothing is stored"""

    def __init__(self, first, n, on_append):
        self.first, self.n, self.on_append = first, n, on_append

    def __len__(self):
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def __getitem__(self, k):
        if k != 0:
            raise core.Unsupported('another trace of the file')
        return self.first

    def append(self, x):
        self.on_append(x)
        self.n = self.n + 1


class _NewTrace:
    def __init__(self, name, data, whattype='voltage', numerical_type=''):
        self.name, self.data, self.whattype, self.numerical_type = name, data, whattype, numerical_type
        self.points = None

    def __len__(self):
        return self.points


def _import_setup(vc, steps=(0, 2)):
    W, E = vc.mod(M), vc.E
    step = vc.choice('step', list(steps)) if len(steps) > 1 else steps[0]
    names = vc.seq('names', IntK)
    vc.stub(W.Trace, 'Trace()', _NewTrace)
    vc.stub(W.RawWrite._rename_netlabel, '_rename_netlabel: the name asked for', lambda name, **kw: _Opaque('renamed', name, kw['marker']))
    vc.stub(W.real, 'numpy.real of an axis', lambda x: x)
    marker = 4711
    return W, E, step, names, marker


def _object(W):
    w = W.RawWrite(plot_name='x', fastacces=False)
    return w


def copied(vc):
    """without alignment: every trace asked for is appended once, in order, with its samples of the step asked for"""
    if not vc.symbolic:
        return vc.assume(False)
    W, E, step, names, marker = _import_setup(vc)
    n = vc.int('points', 1)
    axis = vc.seq('axis', RealK, n=n, isarray=True)
    cplx = vc.choice('complex', [False, True])
    empty = vc.choice('an empty file', [False, True])
    src = _Source(E, ('complex' if cplx else 'real') + ' forward log', axis, step, 'time')
    w = _object(W)
    first = _NewTrace('time', axis, 'time')
    mine = vc.int('points of the file', 1)
    first.points = mine
    ghost = type('Ghost', (), {'i': None, 'axis': None})()

    def on_append(x):
        if ghost.axis is None and empty:
            ghost.axis = x
            vc.check('a file without traces gets the axis first', And(x.name == 'axis name', x.data is axis, x.whattype == 'time',
                                                                       x.numerical_type == 'axis kind'))
            x.points = n
            traces.first = x
            return
        key = at(names, ghost.i)
        vc.check('name of the trace', x.name == _Opaque('renamed', key, marker))
        vc.check('its samples of that step', x.data == _Opaque('wave', key, step))
        vc.check('its type', x.whattype == _Opaque('whattype', key))
        vc.check('its numerical type', x.numerical_type == _Opaque('numerical type', key))
    traces = _Count(first, 0 if empty else vc.int('traces', 1), on_append)
    n0 = traces.n
    w._traces = traces
    w.flag_numtype = 'complex' if cplx else 'real'

    def inv(L, i):
        over(L, names)
        ghost.i = i
        return {'one trace per name': traces.n == (1 if empty else n0) + i}

    def havoc(E, L):
        traces.n = E.fresh_int('appended')
        return [traces]
    vc.loop(f'{M}:RawWrite.add_traces_from_raw#3', inv, havoc=havoc)
    try:
        w.add_traces_from_raw(src, names, step=step, marker=marker)
    except AssertionError:
        return vc.check('only a file of another length is refused', And(not empty, mine != n))
    vc.check('one trace per name', traces.n == (1 if empty else n0) + names.n)
    vc.check('nothing waits to be aligned', And(not w._imported_data, not w._new_axis))


prove('C21', 'without alignment every trace asked for is added once, in order, with its samples of the step asked for',
      [f'{M}:RawWrite.add_traces_from_raw'], internal=True, conc=0)(copied)


class _Merged(core.SSeq):
    """the axis being put together; remembers where the position it is asked about (the K-th of either axis) went"""

    def append(self, v):
        g = self.ghost
        for k in ('mine', 'theirs'):
            hit = g.hit(k, v)
            g.where[k] = Ite(hit, self.n, g.where[k])
        g.on_append(v)
        super().append(v)


def merged(vc, desc):
    """with alignment: the new axis is strictly monotonic, made of positions of the two axes only, and has all of them up to
    where the first of the two axes ends; the traces wait with their own samples on their own axis"""
    if not vc.symbolic:
        return vc.assume(False)
    W, E, step, names, marker = _import_setup(vc, (2,))
    n, m = vc.int('points', 1), vc.int('points of the other', 1)
    mine, other = vc.seq('my', RealK, n=n, isarray=True), vc.seq('other', RealK, n=m, isarray=True)
    eps = vc.real('eps')
    vc.assume(eps > 0)
    sign = -1 if desc else 1
    for s, k in ((mine, n), (other, m)):
        E.assume(Forall(0, k - 1, lambda j, s=s: sign * (at(s, j + 1) - at(s, j)) > eps))
    if desc:
        vc.assume(And(n > 1, at(mine, n - 1) < at(mine, 0)))
    else:
        vc.assume(Or(n == 1, at(mine, 0) < at(mine, n - 1)))
    again = vc.choice('aligned before', [False, True])
    src = _Source(E, 'real forward', other, step, 'time')
    w = _object(W)
    first = _NewTrace('time', mine, 'time')
    first.get_wave = lambda: mine
    imported = _Count(None, vc.int('waiting', 0), lambda x: on_import(x))
    before = imported.n
    w._traces = _Count(first, vc.int('traces', 1), lambda x: vc.check('no trace is added before all axes are known', False))
    w._imported_data = imported
    w.flag_numtype = 'real'
    if again:
        w._new_axis = mine = core.SSeq(mine.kind, mine.n, mine.arr, False, 'my')
        first.get_wave = lambda: (_ for _ in ()).throw(core.Violation('the axis aligned before is the one to go on with', ''))
    K = vc.int('K', 0)
    g = type('Ghost', (), {'where': {'mine': -1, 'theirs': -1}, 'i': 0, 'e': 0, 'k': None})()
    g.hit = lambda k, v: v == at(mine, K) if k == 'mine' else And(v - at(other, K) < eps, at(other, K) - v < eps)

    def on_append(v):
        vc.check('a position of the axis is one of the two axes', Or(v == at(mine, g.e), v == at(other, g.i)))
    g.on_append = on_append

    def on_import(x):
        key = at(names, g.k)
        vc.check('a trace waits under its new name', x[0] == _Opaque('renamed', key, marker))
        vc.check('as the trace it is', And(x[1].key == key))
        vc.check('with its samples of that step', x[2] == _Opaque('wave', key, step))
        vc.check('with its own axis', x[3] is other)

    def inv(L, _=None):
        e, i, new = L.e, L.i, L.new_axis
        g.e, g.i = e, i
        k = length(new)
        wm, wt = g.where['mine'], g.where['theirs']
        return {'within both': And(0 <= e, 0 <= i, Or(e <= n - 1), Or(i <= m - 1)),
                'strictly monotonic': Forall(0, k - 1, lambda j: sign * (at(new, j + 1) - at(new, j)) > 0) if not isinstance(new, list) else True,
                'last one is before what comes': True if isinstance(new, list) else Implies(k > 0, And(sign * (at(mine, e) - at(new, k - 1)) > 0, sign * (at(other, i) - at(new, k - 1)) > 0)),
                'has the positions passed on mine': True if isinstance(new, list) else Implies(K < e, And(0 <= wm, wm < k, at(new, wm) == at(mine, K))),
                'has the positions passed on the other': True if isinstance(new, list) else Implies(K < i, And(0 <= wt, wt < k, at(new, wt) - at(other, K) < eps, at(other, K) - at(new, wt) < eps)),
                'starts with both': And(e + i >= 0, Implies(k == 0, And(e == 0, i == 0)))}

    def fresh(E, old, L):
        s = E.fresh_seq(RealK, 'new_axis')
        r = _Merged(s.kind, s.n, s.arr, False, 'new_axis')
        r.ghost = g
        g.where = {'mine': E.fresh_int('at'), 'theirs': E.fresh_int('at')}
        return r
    vc.loop(f'{M}:RawWrite.add_traces_from_raw#1', inv, havoc_vals={'new_axis': fresh},
            variant=lambda L, i: (n - L.e) + (m - L.i))

    def waiting(L, i):
        over(L, names)
        g.k = i
        return {'one entry per name': imported.n == before + i}

    def havoc(E, L):
        imported.n = E.fresh_int('waiting')
        return [imported]
    vc.loop(f'{M}:RawWrite.add_traces_from_raw#2', waiting, havoc=havoc)
    w.add_traces_from_raw(src, names, force_axis_alignment=True, admissible_error=eps, step=step, marker=marker)
    new = w._new_axis
    if new is None or new is mine:
        vc.check('the axis stays only when there is nothing to add', names.n == 0)
        return
    if isinstance(new, list) and not new:
        vc.check('an axis of a single position', Or(n == 1, m == 1))
        return
    vc.check('the axis is kept for all traces', isinstance(new, _Merged))
    k = new.n
    vc.check('strictly monotonic', Forall(0, k - 1, lambda j: sign * (at(new, j + 1) - at(new, j)) > 0))
    wm, wt = g.where['mine'], g.where['theirs']
    vc.check('all positions of one axis but its last are there', Or(
        Implies(K < n - 1, And(0 <= wm, wm < k, at(new, wm) == at(mine, K))),
        Implies(K < m - 1, And(0 <= wt, wt < k, at(new, wt) - at(other, K) < eps, at(other, K) - at(new, wt) < eps))))
    vc.check('one entry per name', imported.n == before + names.n)


for _d in (False, True):
    prove('C21', f"with alignment the axis has the positions of both axes, in order, each once ({'descending' if _d else 'ascending'})",
          [f'{M}:RawWrite.add_traces_from_raw'], internal=True, conc=0, budget=300)(lambda vc, d=_d: merged(vc, d))


def consolidated(vc):
    """before saving: every trace is interpolated onto the new axis from its own axis, those that wait are added once, in
    order and as what they are, and nothing waits afterwards"""
    if not vc.symbolic:
        return vc.assume(False)
    W, E = vc.mod(M), vc.E
    vc.stub(W.Trace, 'Trace()', _NewTrace)
    vc.stub(W.real, 'numpy.real of an axis', lambda x: x)
    same = vc.choice('the new axis is the old one', [False, True])
    vc.stub(W.array_equal, 'numpy.array_equal', lambda a, b: same)
    new, old = vc.seq('new axis', RealK, n=vc.int('points', 1)), _Opaque('axis of the file')
    f = z3.Function('interpolated', z3.IntSort(), z3.IntSort(), z3.IntSort())

    def interpolate(data, axis, onto):
        if onto is not new:
            raise core.Violation('interpolated onto the new axis', '')
        a = 0 if axis is old else axis if is_sym(axis) else None
        if a is None:
            raise core.Unsupported('another axis')
        return wrap(f(to_z3(data), to_z3(a)))
    vc.stub(W.RawWrite._interpolate, '_interpolate (proved separately)', interpolate)
    T = RecordType('TraceOfFile', {'data': IntK, 'name': IntK})
    rest = vc.seq('traces but the axis', T)
    j, k = z3.Ints('a!d b!d')
    E.assume_z3(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k), z3.Select(rest.arr, j) != z3.Select(rest.arr, k)),
                          patterns=[z3.MultiPattern(z3.Select(rest.arr, j), z3.Select(rest.arr, k))]))
    N = RecordType('TraceThatWaits', {'whattype': IntK, 'numerical_type': IntK})
    I = RecordType('Import', {'name': IntK, 'trace': N, 'wave': IntK, 'axis': IntK})
    waits = vc.seq('waiting', I)
    E.assume(Forall(0, waits.n, lambda q: at(waits, q).axis > 0))
    axis = _NewTrace('axis', old, 'time', 'kind of axis')
    ghost = type('Ghost', (), {'i': None, 'count': 0, 'cleared': 0, 'set': 0})()

    class Waiting:
        def __len__(self):
            return waits.n

        def __bool__(self):
            return bool(waits.n > 0)

        def clear(self):
            ghost.cleared += 1

    class Traces:
        def __len__(self):
            return rest.n + 1

        def __getitem__(self, q):
            if isinstance(q, slice) and q == slice(1, None, None):
                return rest
            if not isinstance(q, slice) and q == 0:
                return axis
            raise core.Unsupported('another trace of the file')

        def __setitem__(self, q, t):
            if is_sym(q) or q != 0:
                raise core.Unsupported('another trace is replaced')
            ghost.set += 1
            vc.check('the axis is the new one', And(t.name == 'axis', t.data is new, t.whattype == 'time', t.numerical_type == 'kind of axis'))

        def append(self, t):
            w = at(waits, ghost.i)
            vc.check('name of a trace added', t.name == w.name)
            vc.check('its samples are interpolated from its own axis', t.data == wrap(f(to_z3(w.wave), to_z3(w.axis))))
            vc.check('its type', And(t.whattype == w.trace.whattype, t.numerical_type == w.trace.numerical_type))
            ghost.count = ghost.count + 1
    w = W.RawWrite(plot_name='x', fastacces=False)
    w._traces, w._new_axis = Traces(), new
    none = vc.choice('nothing waits', [False, True])
    w._imported_data = [] if none else Imports(waits, Waiting())
    before = E.heap(T, 'data')
    was = lambda q: wrap(z3.Select(before, z3.Select(rest.arr, to_z3(q))))

    def inv(L, i):
        over(L, rest)
        return {'those seen are interpolated': Forall(0, i, lambda q: at(rest, q).data == wrap(f(to_z3(was(q)), 0))),
                'the others wait': Forall(i, rest.n, lambda q: at(rest, q).data == was(q))}
    vc.loop(f'{M}:RawWrite._consolidate#0', inv, heaps=[(T, 'data')])

    def added(L, i):
        ghost.i = i
        return {'one trace per entry': ghost.count == i}

    def havoc(E, L):
        ghost.count = E.fresh_int('added')
        return [ghost]
    vc.loop(f'{M}:RawWrite._consolidate#1', added, havoc=havoc)
    w._consolidate()
    if none or not ghost.set:
        vc.check('nothing is done only when nothing waits', And(Or(none, waits.n == 0), ghost.set == 0, ghost.count == 0))
        return vc.check('no trace changes', Forall(0, rest.n, lambda q: at(rest, q).data == was(q)))
    vc.check('every trace of the file is interpolated once',
             Forall(0, rest.n, lambda q: at(rest, q).data == (was(q) if same else wrap(f(to_z3(was(q)), 0)))))
    vc.check('every trace that waits is added', ghost.count == waits.n)
    vc.check('the axis is replaced once', ghost.set == 1)
    vc.check('nothing waits any longer', And(ghost.cleared == 1, w._new_axis is None))


class Imports(core.SymBase):
    """the list of what waits; its entries unpack into name, trace, samples and axis"""

    def __init__(self, seq, meta):
        self.seq, self.meta, self.n = seq, meta, seq.n

    def len_(self):
        return self.seq.n

    def at(self, i):
        e = self.seq.at(i)
        return (e.name, e.trace, e.wave, e.axis)

    def __getitem__(self, i):
        return self.at(i)

    def clear(self):
        self.meta.clear()

    def __bool__(self):
        return bool(self.seq.n > 0)


prove('C21', 'before saving every trace is interpolated once onto the new axis and those that wait are added',
      [f'{M}:RawWrite._consolidate'], internal=True, conc=0)(consolidated)


# ------------------------------------------------------------------------------------------------------------------
# bounded: the public API on generated files
# ------------------------------------------------------------------------------------------------------------------

def union(a, b, desc):
    """all axis positions of both, in order"""
    u = sorted(set(a) | set(b), reverse=desc)
    return u


def interp(x, ax, d, desc):
    if desc:
        x, ax, d = -np.asarray(x), -np.asarray(ax), d
    if np.iscomplexobj(d):
        return np.interp(x, ax, d.real) + 1j * np.interp(x, ax, d.imag)
    return np.interp(x, ax, d)


def fileaxis(r, n, start, steps):
    x = [start]
    for _ in range(n - 1):
        x.append(x[-1] + r.choice(steps))
    return np.array(x)


def src(r, d, tag, kind, desc, nsteps=1, start=None, n=None):
    nv = r.randint(2, 5)
    names, types = rawgen.names_for(r, nv, kind, odd=False)
    cplx = kind == 'ac'
    n = n or r.choice([1, 2, 3, 4, 6, 9, 17])
    start = r.choice([0.0, 0.5, 1.0, 4.0]) if start is None else start
    if kind == 'ac':
        start += 1
    parts = [fileaxis(r, n if nsteps == 1 else r.randint(1, 7), start, [.25, .5, 1.0, 2.0, 3.0]) for _ in range(nsteps)]
    if desc:
        parts = [p[0] + 40 - (p - p[0]) for p in parts]
    ax = np.concatenate(parts)
    cols = [ax] + [rawgen.samples(r, len(ax), cplx).round(4) for _ in range(nv - 1)]
    f = os.path.join(d, tag + '.raw')
    st = rawgen.write(f, rawgen.PLOTS[kind], names, types, cols, 'binary', cplx=cplx, flags=('stepped',) if nsteps > 1 else ())
    if nsteps > 1:
        with open(os.path.join(d, tag + '.log'), 'w') as g:
            g.write('Circuit: * x\n\n' + ''.join(f'.step a={k}\n' for k in range(nsteps)) + '\n')
    offs = np.cumsum([0] + [len(p) for p in parts])
    return f, names, types, st, [(int(offs[k]), int(offs[k + 1])) for k in range(nsteps)]


@bounded('C21', 'merging the traces of a file', ['raw.raw_write:RawWrite.add_traces_from_raw', 'raw.raw_write:RawWrite._consolidate',
                                                 'raw.raw_write:RawWrite._rename_netlabel', 'raw.raw_write:RawWrite.save'])
def merge(bx):
    W, R = bx.mod(M), bx.mod('raw.raw_read')
    d = bx.dir()
    for r in bx.each(1500, 15000):
        kind = r.choice(['tran', 'ac', 'dc', 'noise', 'tran'])
        desc = kind == 'dc' and r.random() < .3
        same = r.random() < .4                        # the same axis in both files
        s1 = r.choice([0.0, 0.5, 1.0])
        fb, nb, tb, sb, _ = src(r, d, 'base', kind, desc, start=s1)
        ns = r.choice([1, 1, 1, 2, 3])
        fo, no, to, so, steps = src(r, d, 'other', kind, desc, ns)
        if same:
            cplx = kind == 'ac'
            near = len(sb[0]) > 2 and r.random() < .2       # the same axis but for rounding: within the admissible error
            bx_ = np.real(sb[0])
            jit = np.concatenate([[0], (np.arange(len(bx_) - 1) % 3 - 1) * 1e-13]) if near else np.zeros(len(bx_))
            if np.any(bx_[1:] < bx_[:-1]) and ns > 1:
                ns = 1
            cols = [np.concatenate([bx_ + jit] * ns)] + [rawgen.samples(r, ns * len(bx_), cplx).round(4) for _ in range(len(no) - 1)]
            so = rawgen.write(fo, rawgen.PLOTS[kind], no, to, cols, 'binary', cplx=cplx, flags=('stepped',) if ns > 1 else ())
            if ns > 1:
                with open(os.path.join(d, 'other.log'), 'w') as g:
                    g.write('Circuit: * x\n\n' + ''.join(f'.step a={k}\n' for k in range(ns)) + '\n')
            steps = [(k * len(bx_), (k + 1) * len(bx_)) for k in range(ns)]
        k = r.randrange(ns)
        lo, hi = steps[k]
        align = not same or r.random() < .5
        base, other = R.RawRead(fb, verbose=False), R.RawRead(fo, verbose=False)
        w = W.RawWrite(fastacces=r.random() < .5)
        form = r.choice(['plain', 'merge all'])
        take = r.choice([list(r.sample(nb[1:], r.randint(1, len(nb) - 1))), nb[1:]])
        w.add_traces_from_raw(base, take)
        want = r.sample(no[1:], r.randint(1, len(no) - 1))
        arg = want[0] if len(want) == 1 and r.random() < .5 else (tuple(want) if r.random() < .3 else list(want))
        kw, new = {}, {}
        ren = r.choice(['none', 'tag', 'format'] if not set(want) & set(take) else ['tag', 'format'])   # names stay distinct
        for x in want:
            g = re.match(r'^([VIvi])\((.*)\)$', x)
            inner = g.group(2) if g else x
            y = {'none': x, 'tag': f'{inner}_b', 'format': f'{inner}_z{7}'}[ren] if ren != 'none' else x
            new[x] = f'{g.group(1)}({y})' if g and ren != 'none' else y
        if ren == 'tag':
            kw['add_tag'] = 'b'
        elif ren == 'format':
            kw.update(rename_format='{}_z{foo}', foo=7)
        if align:
            kw['force_axis_alignment'] = True
        if k or r.random() < .3:
            kw['step'] = k
        # the traces may be added one request at a time
        if align or same:
            w.add_traces_from_raw(other, arg, **kw)
        oax = np.real(so[0][lo:hi])
        bax = np.real(sb[0])
        case = (kind, desc, 'same axis' if same else 'own axis', list(bax), list(oax), take, want, kw, len(sb[0]))
        out = os.path.join(d, 'out.raw')
        w.save(out)
        bx.check(other.get_trace_names() == no, 'the source file object is not changed', (case, other.get_trace_names()))
        bx.check(all(np.array_equal(np.array(other.get_wave(nm, k)), so[i][lo:hi]) for i, nm in enumerate(no)),
                 'the waves of the source are not changed', case)
        got = R.RawRead(out, verbose=False)
        names = [nb[0]] + take + [new[x] for x in want]
        exp = np.array(union(bax, oax if not same else bax, desc)) if align else bax
        pen = [x[-2] if len(x) > 1 else None for x in (bax, bax if same else oax)]
        end = None if None in pen else (max if desc else min)(pen)
        cut = np.array([x for x in exp if end is not None and (x >= end if desc else x <= end)])
        if align and len(cut) == 0 and got.get_trace_names() == names[:1 + len(take)]:
            # known defect: nothing is taken from the last sample of the axis that ends first onwards: here nothing is left
            bx.fail('no position is left', case, key='merge-tail')
            continue
        bx.check(got.get_trace_names() == names, 'exactly the requested traces are added', (case, got.get_trace_names(), names))
        gax = np.real(got.get_axis())
        for nm in names:
            bx.check(len(got.get_wave(nm)) == len(gax), 'lengths match the axis', (case, nm))
        if not np.array_equal(gax, exp):
            # known defect: nothing is taken from the last sample of the axis that ends first onwards
            bx.check(np.array_equal(gax, cut), 'the axis holds every position of both axes', (case, list(gax), list(exp)))
            bx.fail('positions from the end of the shorter axis onwards are lost', (case, list(gax), list(exp)), key='merge-tail')
        lo_, hi_ = max(bax.min(), oax.min()), min(bax.max(), oax.max())
        sel = np.array([lo_ <= x <= hi_ for x in gax], bool)
        for nm, refax, refd in [(x, bax, sb[nb.index(x)]) for x in take] + \
                               [(new[x], oax, so[no.index(x)][lo:hi]) for x in want]:
            gotw = np.array(got.get_wave(nm))
            e = interp(gax, refax, refd, desc)
            s = sel if len(refax) > 1 else np.zeros(len(gax), bool)
            if not align:
                s = np.ones(len(gax), bool)
            tol = 1e-5 * max(1e-300, float(np.abs(refd).max())) + 1e-12
            bx.check(np.all(np.abs(gotw[s] - e[s]) <= tol), 'each trace has the value it had at each axis position',
                     (case, nm, list(gotw[s]), list(e[s])))
        bx.done(case)


@bounded('C21', 'several files merged one after the other, with alignment', [
    'raw.raw_write:RawWrite.add_traces_from_raw', 'raw.raw_write:RawWrite._consolidate'])
def aligned(bx):
    W, R = bx.mod(M), bx.mod('raw.raw_read')
    d = bx.dir()
    for r in bx.each(400, 4000):
        kind = r.choice(['tran', 'ac', 'dc'])
        w = W.RawWrite(fastacces=r.random() < .5)
        end = r.choice([10.0, 20.0])
        exp, axes, hist, names0 = [], [], [], None
        for j in range(r.randint(2, 4)):
            n = r.randint(3, 12)
            # all files cover the same range and end with the same two positions (what follows the last but one is the
            # known finding)
            ax = np.array(sorted({1.0, end, end + 1} | {1 + r.randint(1, int(end * 4) - 5) / 4 for _ in range(n)}))
            names, types = rawgen.names_for(r, r.randint(2, 4), kind, odd=False)
            cols = [ax] + [rawgen.samples(r, len(ax), kind == 'ac').round(4) for _ in names[1:]]
            f = os.path.join(d, f's{j}.raw')
            st = rawgen.write(f, rawgen.PLOTS[kind], names, types, cols, r.choice(['binary', 'fast']), cplx=kind == 'ac')
            raw = R.RawRead(f, verbose=False)
            names0 = names0 or names[0]
            axes.append(ax)
            for _ in range(r.randint(1, 2)):        # in one request or in two
                take = r.sample(names[1:], r.randint(1, len(names) - 1))
                take = [t for t in take if (j, t) not in [(a, b) for a, b, _ in exp]]
                if not take:
                    continue
                w.add_traces_from_raw(raw, take, force_axis_alignment=True, rename_format='{}_%d' % j)
                if exp:
                    known = [x for x in union(known, ax, False) if x <= min(known[-2], ax[-2])]
                else:
                    known = list(ax)
                hist.append((j, take))
                exp += [(j, t, st[names.index(t)]) for t in take]
        case = (kind, [list(a) for a in axes], hist)
        # traces of another kind are refused, also with alignment
        bad = 'tran' if kind == 'ac' else 'ac'
        nm, ty = rawgen.names_for(r, 2, bad, odd=False)
        f = os.path.join(d, 'bad.raw')
        rawgen.write(f, rawgen.PLOTS[bad], nm, ty, [axes[0], rawgen.samples(r, len(axes[0]), bad == 'ac')], 'binary', cplx=bad == 'ac')
        try:
            w.add_traces_from_raw(R.RawRead(f, verbose=False), nm[1], force_axis_alignment=True)
            bx.fail('traces of another kind are refused', case)
        except ValueError:
            pass
        out = os.path.join(d, 'o.raw')
        w.save(out)
        got = R.RawRead(out, verbose=False)
        g = np.real(got.get_axis())
        want = sorted(set().union(*[set(a) for a in axes]))
        if not np.array_equal(g, want):
            # known defect: in each request nothing is taken from the last sample of the axis that ends first onwards
            bx.check(np.array_equal(g, known), 'the axis holds every position of all axes', (case, list(g)))
            bx.fail('positions from the end of the shorter axis onwards are lost', case, key='merge-tail')
        gn = got.get_trace_names()
        bx.check(len(gn) == 1 + len(exp) and gn[0] == names0, 'the traces asked for, once', (case, gn))
        for k, (j, t, e) in enumerate(exp):
            m = re.match(r'^([VIvi])\((.*)\)$', t)
            bx.check(gn[k + 1] == (f'{m.group(1)}({m.group(2)}_{j})' if m else f'{t}_{j}'), 'the name of an added trace', (case, gn[k + 1], t, j))
            e = interp(g, axes[j], e, False)
            v = np.array(got.get_wave(gn[k + 1]))
            bx.check(len(v) == len(g) and np.all(np.abs(v - e) <= 1e-4 * max(1e-300, float(np.abs(e).max())) + 1e-12),
                     'each trace has the value it had at each axis position', (case, gn[k + 1], list(v), list(e)))
        bx.done(case)


@bounded('C21', 'several files merged one after the other, without alignment', ['raw.raw_write:RawWrite.add_traces_from_raw'])
def many(bx):
    W, R = bx.mod(M), bx.mod('raw.raw_read')
    d = bx.dir()
    for r in bx.each(300, 3000):
        kind = r.choice(['tran', 'ac', 'dc'])
        n = r.randint(1, 8)
        cplx = kind == 'ac'
        ax = rawgen.axis(r, n) + 1
        w = W.RawWrite(fastacces=r.random() < .5)
        exp = []
        names0 = None
        hist = []
        for j in range(r.randint(1, 4)):
            names, types = rawgen.names_for(r, r.randint(2, 5), kind, odd=False)
            cols = [ax] + [rawgen.samples(r, n, cplx) for _ in names[1:]]
            f = os.path.join(d, f's{j}.raw')
            st = rawgen.write(f, rawgen.PLOTS[kind], names, types, cols, r.choice(['binary', 'fast']), cplx=cplx)
            take = r.sample(names[1:], r.randint(1, len(names) - 1))
            w.add_traces_from_raw(R.RawRead(f, verbose=False), take, **({'add_tag': f't{j}'} if j else {}))
            names0 = names0 or names[0]
            hist.append(take)
            exp += [st[names.index(x)] for x in take]
        # a trace of another length is refused
        f = os.path.join(d, 'bad.raw')
        names, types = rawgen.names_for(r, 2, kind, odd=False)
        st = rawgen.write(f, rawgen.PLOTS[kind], names, types, [rawgen.axis(r, n + 1) + 1, rawgen.samples(r, n + 1, cplx)], 'binary', cplx=cplx)
        try:
            w.add_traces_from_raw(R.RawRead(f, verbose=False), names[1])
            bx.fail('traces with another number of points are refused', (kind, n, hist))
        except AssertionError:
            pass
        except Exception as e:
            bx.check(isinstance(e, (ValueError, IndexError)), 'an error is raised', repr(e))
        out = os.path.join(d, 'o.raw')
        w.save(out)
        got = R.RawRead(out, verbose=False)
        bx.check(got.get_trace_names()[0] == names0 and len(got.get_trace_names()) == 1 + len(exp), 'the traces asked for, once',
                 (kind, n, hist, got.get_trace_names()))
        bx.check(np.array_equal(np.real(got.get_axis()), ax), 'the axis is kept', (kind, n, hist))
        for j, e in enumerate(exp):
            bx.check(np.array_equal(np.array(got.get_wave(got.get_trace_names()[j + 1])), e), 'samples are kept', (kind, n, hist, j))
        bx.done((kind, n, hist))


@finding('C21', 'merge-tail')
def merge_tail(bx):
    import tempfile
    W, R = bx.mod(M), bx.mod('raw.raw_read')
    with tempfile.TemporaryDirectory() as d:
        for nm, v in (('a', [0., 1, 2, 3]), ('b', [0., .5, 2, 3])):
            rawgen.write(os.path.join(d, nm + '.raw'), rawgen.PLOTS['tran'], ['time', f'V({nm})'], ['time', 'voltage'],
                         [np.array(v), np.arange(4.0)])
        w = W.RawWrite()
        w.add_traces_from_raw(R.RawRead(os.path.join(d, 'a.raw'), verbose=False), 'V(a)')
        w.add_traces_from_raw(R.RawRead(os.path.join(d, 'b.raw'), verbose=False), 'V(b)', force_axis_alignment=True)
        w.save(os.path.join(d, 'o.raw'))
        g = list(R.RawRead(os.path.join(d, 'o.raw'), verbose=False).get_axis())
    if g[-1] != 3:
        return ("RawWrite.add_traces_from_raw(force_axis_alignment=True): merging axes [0,1,2,3] and [0,.5,2,3] gives "
                f"{[float(x) for x in g]}; the positions from the end of the shorter axis onwards are lost")
    return None
