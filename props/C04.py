"""C04: looking a value up on the axis interpolates between its neighbours."""
import os

import numpy as np

from pyvc.api import *
from props import rawgen
from props.C03 import _stepped

M = 'raw.raw_classes'
ASSUMPTIONS = ["samples are real numbers (complex samples are covered by the bounded harness)",
               "the axis ascends within a step, which is the domain of the property"]


def pos_inv(L, i):
    tx = L.timex
    return {'all samples so far lie before t': Forall(0, i, lambda j: at(tx, j) < L.t)}


def position(vc, name):
    RC, ax, data, n, m, off, k, lo, hi = _one_step(vc, name)
    if name == 'time' and vc.symbolic:
        import z3
        j = z3.Int('j!pos')
        core.eng().assume_z3(z3.ForAll([j], z3.Select(data.arr, j) >= 0, patterns=[z3.Select(data.arr, j)]))
    size = hi - lo
    ascending(vc, data, lo, size)
    t = vc.real('t')
    if not vc.symbolic and vc.bool('on a sample'):
        t = float(data[lo + vc.int('j', 0, 5) % size])
    vc.loop('raw.raw_classes:Axis.get_position#0', pos_inv)
    p, e = vc.raises(lambda: ax.get_position(t, k), IndexError)
    if e is not None:
        vc.check('an index error means outside the range of the axis of this step',
                 Or(t < at(data, lo), Forall_lt(vc, data, lo, hi, t)))
        return
    if is_int(p):
        vc.check('the position lies within the step', And(p >= 0, p < size))
        vc.check('the sample at the position has the value', at(data, lo + p) == t)
        return
    i = vc.int('i')
    if vc.symbolic:
        vc.assume(0 <= i, i < size)
        if bool(i + 1 < size):
            core.eng().assume_z3(data.at(lo + i).e < data.at(lo + i + 1).e)    # instance of the assumption
        # i ranges over all samples: whichever neighbours t lies between, the position is their interpolation
        vc.check('between neighbours it is the lower one plus the fraction',
                 Implies(And(i + 1 < size, at(data, lo + i) < t, t < at(data, lo + i + 1)),
                         (p - i) * (at(data, lo + i + 1) - at(data, lo + i)) == t - at(data, lo + i)))
        vc.check('a value that is stored is never interpolated', at(data, lo + i) != t)
        vc.check('t lies within the range', Implies(i == 0, at(data, lo + i) < t))
        vc.check('t lies before the last sample', Implies(i == size - 1, t < at(data, lo + i)))
    else:
        js = [j for j in range(size - 1) if data[lo + j] < t < data[lo + j + 1]]
        vc.check('between neighbours it is the lower one plus the fraction', len(js) == 1 and
                 close(p, js[0] + (t - data[lo + js[0]]) / (data[lo + js[0] + 1] - data[lo + js[0]])))


def _one_step(vc, name='x'):
    """an axis, one of its steps, and the contracts of Axis.step_offset and Axis.get_wave (proved in C03) for that step"""
    if not vc.symbolic:
        return _stepped(vc, name)
    RC = vc.mod(M)
    n = vc.int('n', 1)
    data = vc.seq('data', RealK, n=n, isarray=True)
    ax = RC.Axis(name, 'time', n, 'double', data)
    k, lo, hi = vc.int('step', 0), vc.int('lo', 0), vc.int('hi')
    vc.assume(lo < hi, hi <= n)

    def offset(s, step):
        vc.check('the offset asked for is one of this step', Or(step == k, step == k + 1))
        return lo if bool(step == k) else hi

    def wave(s, step=0):
        vc.check('the wave asked for is the one of this step', step == k)
        w = data[lo:hi]
        return abs(w) if name == 'time' else w
    vc.stub(RC.Axis.step_offset, 'Axis.step_offset', offset)
    vc.stub(RC.Axis.get_wave, 'Axis.get_wave', wave)
    return RC, ax, data, n, None, None, k, lo, hi


def ascending(vc, data, lo, size):
    if not vc.symbolic:
        return vc.assume(all(data[j] < data[j + 1] for j in range(lo, lo + size - 1)))
    import z3
    a, b = z3.Ints('a!asc b!asc')
    z = core.to_z3
    A, B = z3.Select(data.arr, a), z3.Select(data.arr, b)
    core.eng().assume_z3(z3.ForAll([a, b], z3.Implies(z3.And(z(lo) <= a, a < b, b < z(lo + size)), A < B),
                                   patterns=[z3.MultiPattern(A, B)]))


def is_int(p):
    if isinstance(p, core.SInt):
        return True
    return isinstance(p, (int, np.integer)) and not isinstance(p, bool)


def Forall_lt(vc, data, lo, hi, t):
    if vc.symbolic:
        from props.C03 import All
        return All(0, hi - lo, lambda j: at(data, lo + j) < t)
    return all(data[j] < t for j in range(lo, hi))


for _name in 'x', 'time':
    prove('C04', f"the position is the matching sample or the lower neighbour plus the fraction travelled "
                 f"({'time' if _name == 'time' else 'other'} axis)",
          ['raw.raw_classes:Axis.get_position', 'raw.raw_classes:Axis.get_time_axis'],
          conc=600)(lambda vc, n=_name: position(vc, n))


@prove('C04', 'the value at an axis value is the sample or the linear interpolation of its neighbours',
       ['raw.raw_classes:TraceRead.get_point_at', 'raw.raw_classes:TraceRead.get_point', 'raw.raw_classes:TraceRead.get_len'],
       conc=600)
def point_at(vc):
    RC, ax, data, n, m, off, k, lo, hi = _one_step(vc)
    size = hi - lo
    ascending(vc, data, lo, size)
    td = vc.seq('tdata', RealK, n=n, isarray=True) if vc.symbolic else np.array([float((7 * i) % 11) - 5 for i in range(n)])
    tr = RC.TraceRead('V(a)', 'voltage', n, ax, 'double', td)
    t = vc.real('t')
    if vc.symbolic:
        # contract of Axis.get_position (proved above)
        i, f = vc.int('i'), vc.real('f')
        kind = vc.choice('kind', ['sample', 'between', 'outside'])

        def contract(s, tt, step=0):
            vc.check('the trace asks the axis for the same value and step', And(tt == t, step == k))
            if kind == 'outside':
                raise IndexError("outside")
            if kind == 'sample':
                vc.assume(0 <= i, i < size, at(data, lo + i) == t)
                return i
            vc.assume(0 <= i, i + 1 < size, at(data, lo + i) < t, t < at(data, lo + i + 1))
            vc.assume(0 < f, f < 1, f * (at(data, lo + i + 1) - at(data, lo + i)) == t - at(data, lo + i))
            return i + f
        vc.stub(RC.Axis.get_position, 'Axis.get_position', contract)
    elif vc.bool('on a sample'):
        t = float(data[lo + vc.int('j', 0, 5) % size])
    v, e = vc.raises(lambda: tr.get_point_at(t, k), IndexError)
    if vc.symbolic:
        if kind == 'outside':
            vc.check('outside the axis there is no value', e is not None)
            return
        if e is not None:
            vc.check('inside the axis there is a value', False)
            return
        if kind == 'sample':
            vc.check('at a stored position it is the stored sample', v == at(td, lo + i))
        else:
            a, b = at(td, lo + i), at(td, lo + i + 1)
            vc.check('between stored positions it is their linear interpolation', v == a + f * (b - a))
    else:
        xs = [float(v) for v in data[lo:hi]]
        if t < xs[0] or t > xs[-1]:
            vc.check('outside the axis there is no value', e is not None)
        else:
            vc.check('inside the axis there is a value', e is None)
            want = float(np.interp(t, xs, td[lo:hi]))
            vc.check('the value is the linear interpolation', close(v, want, 1e-9, 1e-9))


@bounded('C04', 'lookups on RAW files of every kind against an independent interpolation', [
    'raw.raw_classes:Axis.get_position', 'raw.raw_classes:TraceRead.get_point_at', 'raw.raw_read:RawRead.get_trace'])
def lookups(bx):
    R = bx.mod('raw.raw_read').RawRead
    d = bx.dir()
    for r in bx.each(600, 6000):
        kind = r.choice(['tran', 'dc', 'ac', 'noise'])
        cplx = kind == 'ac'
        m = r.choice([1, 1, 2, 3])
        lens = [r.randint(1, 7) for _ in range(m)]
        x0 = 0.0 if kind == 'tran' else r.choice([0.0, 1.0, -2.0])
        axs = []
        for l in lens:
            a = [x0]
            for _ in range(l - 1):
                a.append(a[-1] + r.choice([.25, 1, 2, 1e-3]))
            axs.append(a)
        x = np.array(sum(axs, []))
        names, types = rawgen.names_for(r, 3, kind)
        cols = [x] + [rawgen.samples(r, len(x), cplx) for _ in range(2)]
        lay = r.choice(['binary', 'fast', 'ascii'])
        f = os.path.join(d, f'f{r.randint(0, 10**9)}.raw')
        st = rawgen.write(f, rawgen.PLOTS[kind], names, types, cols, lay, flags=['forward'] + (['stepped'] if m > 1 else []),
                          cplx=cplx)
        raw = R(f, verbose=False)
        bounds = [0] + list(np.cumsum(lens))
        tr = raw.get_trace(names[r.choice([1, 2])])
        axis = raw.get_trace(0)
        vi = names.index(tr.name)
        for k in range(m):
            xs = axs[k]
            ys = st[vi][bounds[k]:bounds[k + 1]]
            qs = list(xs) + [xs[0] - 1, xs[-1] + 1, xs[-1] + 1e-6]
            qs += [xs[j] + r.random() * (xs[j + 1] - xs[j]) for j in range(len(xs) - 1)]
            for q in qs:
                case = (kind, lay, m, k, xs, q)
                try:
                    p, pe = axis.get_position(q, k), None
                except IndexError as e:
                    p, pe = None, e
                try:
                    v, ve = tr.get_point_at(q, k), None
                except IndexError as e:
                    v, ve = None, e
                if q < xs[0] or q > xs[-1]:
                    bx.check(pe is not None and ve is not None, 'outside the axis an index error is raised', (case, p, v))
                    continue
                bx.check(pe is None and ve is None, 'inside the axis there is a value', case)
                wp = float(np.interp(q, xs, np.arange(len(xs))))
                wv = np.interp(q, xs, ys)
                bx.check(abs(p - wp) < 1e-7, 'position on the axis', (case, p, wp))
                tol = 1e-6 * max(1e-30, np.max(np.abs(ys)))
                bx.check(abs(v - wv) <= tol, 'interpolated value', (case, v, wv))
                if q in xs:
                    bx.check(v == ys[xs.index(q)], 'value at a stored position', (case, v))
            bx.done((kind, lay, m, k, xs))
        os.unlink(f)
