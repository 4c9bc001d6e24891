"""C06 - sweep iterators produce exactly the arithmetic / geometric progression between their limits."""
import math
from pyvc.api import *

M = 'utils.sweep_iterators'
ASSUMPTIONS = ["exp/log are uninterpreted with exp(log(x)) = x; powers of a symbolic count follow r^(k+1) = r*r^k"]


def spec(a, b, st):
    """first item, limit and signed step of a linear sweep from a to b"""
    h = abs(st)
    if (st < 0) and (a < b):
        return b, a, -h
    if b < a:
        return a, b, -h
    return a, b, st


@prove('C06', 'linear sweep: every item, the end and the restart',
       ['utils.sweep_iterators:BaseIterator.__init__', 'utils.sweep_iterators:sweep.__init__',
        'utils.sweep_iterators:BaseIterator.__iter__', 'utils.sweep_iterators:sweep.__iter__',
        'utils.sweep_iterators:sweep.__next__'])
def linear(vc):
    S = vc.mod(M)
    form = vc.choice('form', ['start,stop,step', 'stop only'])
    b = vc.real('stop')
    if form == 'stop only':
        a, st = 0, 1
        make = lambda: S.sweep(b)
    else:
        a, st = vc.real('start'), vc.real('step')
        vc.assume(st != 0)
        make = lambda: S.sweep(a, b, st)
    k = vc.int('k', 0)
    first, last, d = spec(a, b, st)
    it = make()
    if vc.symbolic:
        vc.rep(it, niter=k)    # ghost: k items were already taken
    else:
        vc.assume(k <= 60)
        for j in range(k):
            vc.raises(lambda: next(it), StopIteration)
    v, e = vc.raises(lambda: it.__next__(), StopIteration)
    expect = first + k * d
    inside = Or(And(d > 0, expect <= last), And(d < 0, expect >= last))
    if e is None:
        vc.check('an item lies within the limits', inside)
        vc.check('item k is start + k*step', close(v, expect))
        if vc.symbolic:
            vc.check('the position advances by one', it.niter == k + 1)
    else:
        vc.check('it only stops past the limit', Not(inside))
        vc.check('finished is set at the end', it.finished)
    r = iter(it)
    v2, e2 = vc.raises(lambda: r.__next__(), StopIteration)
    ok = Or(And(d > 0, first <= last), And(d < 0, first >= last))
    if e2 is None:
        vc.check('restart gives the first item', And(ok, close(v2, first)))
    else:
        vc.check('a restarted sweep is empty only when the limits exclude the start', Not(ok))


@prove('C06', 'sweep_n: N equidistant items that end on stop', ['utils.sweep_iterators:sweep_n'])
def linear_n(vc):
    S = vc.mod(M)
    a, b = vc.real('start'), vc.real('stop')
    N = vc.int('N', 2, None if vc.symbolic else 60)
    k = vc.int('k', 0)
    vc.assume(a != b)
    it = S.sweep_n(a, b, N)
    if vc.symbolic:
        vc.rep(it, niter=k)
        # r = 1/(N-1) makes the products with it linear for the solver
        D = (b - a) / (N - 1)
        vc.check('lemma: N-1 steps make the interval', (N - 1) * D == b - a)
        vc.check('lemma: the step has the sign of the interval', And(Iff(D > 0, b > a), D != 0))
        vc.check('lemma: past the end', Implies(k >= N, (k - (N - 1)) * abs(D) >= abs(D)))
        vc.check('lemma: before the end', Implies(k <= N - 1, (N - 1 - k) * abs(D) >= 0))
    else:
        vc.assume(k <= 60)
        D = (b - a) / (N - 1)
        for j in range(k):
            vc.raises(lambda: next(it), StopIteration)
    v, e = vc.raises(lambda: it.__next__(), StopIteration)
    if e is None:
        vc.check('there are at most N items', k < N)
        vc.check('item k is start + k*(stop-start)/(N-1)', close(v, a + k * D, 1e-9, 1e-9))
    else:
        vc.check('there are at least N items', k >= N)


@prove('C06', 'logarithmic sweep: every item, the end and the restart',
       ['utils.sweep_iterators:sweep_log.__init__', 'utils.sweep_iterators:sweep_log.__iter__',
        'utils.sweep_iterators:sweep_log.__next__'])
def logarithmic(vc):
    S = vc.mod(M)
    form = vc.choice('form', ['start,stop,step', 'stop only'])
    b = vc.real('stop')
    if form == 'stop only':
        a, st = 1, 10
        vc.assume(b > 0)
        it = S.sweep_log(b)
    else:
        a, st = vc.real('start'), vc.real('step')
        vc.assume(a > 0, b > 0, st > 0, st != 1)
        it = S.sweep_log(a, b, st)
    v = vc.real('current')
    vc.assume(v > 0)
    if a < b and st < 1:
        first, last, r, up = b, a, st, False
    elif b < a and st > 1:
        first, last, r, up = a, b, 1 / st, False
    else:
        first, last, r, up = a, b, st, st > 1
    if vc.symbolic:
        vc.rep(it, val=v)     # ghost: v = first * r^k
        x, e = vc.raises(lambda: it.__next__(), StopIteration)
        inside = (v <= last) if up else (v >= last)
        if e is None:
            vc.check('an item lies within the limits', inside)
            vc.check('the item is the current power', x == v)
            vc.check('the next item is the item times the ratio', it.val == v * r)
        else:
            vc.check('it only stops past the limit', Not(inside))
            vc.check('finished is set at the end', it.finished)
    else:
        got = []
        for x in it:
            got.append(x)
            if len(got) > 5000:
                break
        vc.assume(len(got) < 5000)
        for i, x in enumerate(got):
            vc.check('item k is start * ratio^k', close(x, first * r ** i))
            vc.check('an item lies within the limits', x <= last if up else x >= last)
        nxt = got[-1] * r if got else first
        vc.check('it only stops past the limit', nxt > last if up else nxt < last)
    it2 = iter(it)
    y, e2 = vc.raises(lambda: it2.__next__(), StopIteration)
    ok = (first <= last) if up else (first >= last)
    if e2 is None:
        vc.check('restart gives the first item', And(ok, close(y, first)))
    else:
        vc.check('a restarted sweep is empty only when the limits exclude the start', Not(ok))


@prove('C06', 'sweep_log_n: N items, each the previous one times the same ratio',
       ['utils.sweep_iterators:sweep_log_n.__init__', 'utils.sweep_iterators:sweep_log_n.__iter__',
        'utils.sweep_iterators:sweep_log_n.__next__'])
def log_n(vc):
    S = vc.mod(M)
    a, b = vc.real('start'), vc.real('stop')
    N = vc.int('N', 2, None if vc.symbolic else 40)
    k = vc.int('k', 0)
    vc.assume(a > 0, b > 0)
    it = S.sweep_log_n(a, b, N)
    if vc.symbolic:
        E = core.eng()
        ratio = it.step
        vc.rep(it, niter=k)
        # ratio is exp(log(stop/start)/(N-1))
        want = E.uf('exp', E.uf('log', b / a) / (N - 1))
        vc.check('the ratio is the (N-1)th root of stop/start', ratio == want)
        x, e = vc.raises(lambda: it.__next__(), StopIteration)
        if e is None:
            vc.check('there are at most N items', k < N)
            vc.check('item k is start * ratio^k', x == a * E.pow(ratio, k))
            vc.check('the position advances by one', it.niter == k + 1)
        else:
            vc.check('there are at least N items', k >= N)
        r = iter(it)
        x, e = vc.raises(lambda: r.__next__(), StopIteration)
        vc.check('restart gives the first item', e is None and x == a)
    else:
        got = list(it)
        vc.check('there are N items', len(got) == N)
        for i, x in enumerate(got):
            vc.check('item k is start*(stop/start)^(k/(N-1))', close(x, a * (b / a) ** (i / (N - 1)), 1e-7))
        vc.check('restart gives the same items', list(it) == got)


@bounded('C06', 'whole sweeps on floats against an independent enumeration', [
    'utils.sweep_iterators:sweep', 'utils.sweep_iterators:sweep_n', 'utils.sweep_iterators:sweep_log',
    'utils.sweep_iterators:sweep_log_n'])
def whole(bx):
    S = bx.mod(M)
    for r in bx.each(6000, 60000):
        scale = r.choice([1, 0.1, 1e-9, 1e6, 0.125])
        a, b = r.randint(-30, 30) * scale, r.randint(-30, 30) * scale
        st = r.choice([1, 2, 3, 7, 0.5]) * scale * r.choice([1, -1])
        if r.random() < .1:
            b = a
        got = list(S.sweep(a, b, st))
        if st < 0 and a < b:
            f, l, d = b, a, st
        elif b < a:
            f, l, d = a, b, -abs(st)
        else:
            f, l, d = a, b, st
        if f == l and d < 0:
            want = [f]
        want = []
        k = 0
        while (d > 0 and f + k * d <= l) or (d < 0 and f + k * d >= l):
            want.append(f + k * d)
            k += 1
        bx.check(len(got) in ((len(want),) if scale in (1, .125, 1e6) else (len(want) - 1, len(want), len(want) + 1)) and
                 all(abs(x - y) <= 1e-9 * max(abs(y), scale) for x, y in zip(got, want)),
                 'linear sweep items', (a, b, st, got, want))
        sw = S.sweep(a, b, st)
        l1 = []
        for x in sw:
            l1.append(x)
            if len(l1) == 3:
                break
        bx.check(list(sw) == got and list(sw) == got, 'a sweep can be iterated again from its start', (a, b, st, got))
        bx.done((a, b, st))
        N = r.randint(2, 40)
        if a != b:
            for _ in range(1):
                l2 = list(S.sweep_n(a, b, N))
                bx.check(len(l2) == N and l2[0] == a and abs(l2[-1] - b) <= 1e-9 * max(abs(a), abs(b)) and
                         all(abs(x - (a + i * (b - a) / (N - 1))) <= 1e-9 * max(abs(a), abs(b)) for i, x in enumerate(l2)),
                         'sweep_n items', (a, b, N, l2))
                s2 = S.sweep_n(a, b, N)
                next(iter(s2))
                bx.check(list(s2) == l2, 'sweep_n restarts', (a, b, N))
        p, q = r.choice([.01, .1, 1, 3, 1e3, 1e6]), r.choice([.02, .5, 7, 1e2, 2e4])
        stp = r.choice([2, 10, 1.5, .5, .1, 3])
        if r.random() < .15:
            q = p * stp ** r.randint(1, 6)
        l3 = list(S.sweep_log(p, q, stp))
        if p < q and stp < 1:
            f, l, m = q, p, stp
        elif q < p and stp > 1:
            f, l, m = p, q, 1 / stp
        else:
            f, l, m = p, q, stp
        want = [f]
        while (f < l and want[-1] * m <= l * (1 + 1e-12)) or (f > l and want[-1] * m >= l * (1 - 1e-12)):
            want.append(want[-1] * m)
        bx.check(len(l3) in (len(want), len(want) - (1 if abs(want[-1] / l - 1) < 1e-9 else 0)) and l3 and
                 all(abs(x / y - 1) < 1e-9 for x, y in zip(l3, want)), 'logarithmic sweep items', (p, q, stp, l3, want))
        s3 = S.sweep_log(p, q, stp)
        next(iter(s3))
        bx.check(list(s3) == l3 and list(s3) == l3, 'logarithmic sweep restarts', (p, q, stp))
        l4 = list(S.sweep_log_n(p, q, N))
        bx.check(len(l4) == N and l4[0] == p and abs(l4[-1] / q - 1) < 1e-9 and
                 all(abs(x / (p * (q / p) ** (i / (N - 1))) - 1) < 1e-9 for i, x in enumerate(l4)),
                 'sweep_log_n items', (p, q, N, l4))
        s4 = S.sweep_log_n(p, q, N)
        it = iter(s4)
        next(it), next(it)
        bx.check(list(s4) == l4, 'sweep_log_n restarts', (p, q, N))
    for n in range(0, 30):
        bx.check(list(S.sweep(n)) == list(range(n + 1)), 'sweep(n) counts from 0 to n', n)
        bx.done(n)
