"""Contract harnesses, symbolic and concrete execution of a harness, verdicts."""
import importlib
import itertools
import json
import math
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

import z3

from . import core, loader
from .core import (Violation, Discard, Stop, PathDone, Infeasible, Unsupported, And, Or, Not, Implies, Iff, Ite, Forall,
                   at, length, is_sym, SInt, SReal, SSeq, SStr, SRef, SBool, RecordType, IntK, RealK, BoolK, StrK, ValK,
                   wrap, to_z3)
from .loader import LoopContract

REGISTRY = {}   # property -> list of harnesses
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Harness:
    def __init__(self, kind, prop, name, fn, functions, opts):
        self.kind, self.prop, self.name, self.fn, self.functions, self.opts = kind, prop, name, fn, functions, opts


def _reg(kind, prop, name, functions, opts):
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            REGISTRY.setdefault(p, []).append(Harness(kind, p, name, fn, list(functions), opts))
        return fn
    return deco


def prove(prop, name, functions=(), **opts):
    """A deductive contract: every obligation on every path must be discharged."""
    return _reg('prove', prop, name, functions, opts)


def bounded(prop, name, functions=(), **opts):
    """A bounded stand-in: the contract is evaluated on the real code over generated inputs.  Never counted as proved."""
    return _reg('bounded', prop, name, functions, opts)


def finding(prop, key):
    """Reproduces a known finding: returns a description while the defect is there, None when it is gone."""
    return _reg('finding', prop, key, (), {})


def int_text(s):
    """int(s) accepts the text"""
    if isinstance(s, SStr):
        return wrap(core._is_int(s.e))
    try:
        int(s)
        return True
    except ValueError:
        return False


def float_text(s):
    """float(s) accepts the text"""
    if isinstance(s, SStr):
        return wrap(core._is_float(s.e))
    try:
        float(s)
        return True
    except ValueError:
        return False


# ---------------------------------------------------------------------------------------------------------------
# symbolic context
# ---------------------------------------------------------------------------------------------------------------

def _pyval(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_string_value(v):
        return v.as_string()
    return str(v)


class SymVC:
    symbolic = True

    def __init__(self, E):
        self.E = E

    # modules
    def mod(self, m):
        return loader.sym(m)

    # inputs
    def _in(self, name, v, get=None):
        self.E.inputs[name] = get or (lambda m, e=v.e: _pyval(m.eval(e, model_completion=True)))
        return v

    def _name(self, name):
        """each request is a value of its own"""
        k, n = name, 1
        while k in self.E.inputs:
            n += 1
            k = f'{name}~{n}'
        return k

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        v = SInt(z3.Int(name))
        self._in(name, v)
        if lo is not None:
            self.E.assume(v >= lo)
        if hi is not None:
            self.E.assume(v <= hi)
        return v

    def real(self, name, lo=None, hi=None):
        name = self._name(name)
        v = SReal(z3.Real(name))
        self._in(name, v)
        if lo is not None:
            self.E.assume(v >= lo)
        if hi is not None:
            self.E.assume(v <= hi)
        return v

    def bool(self, name):
        name = self._name(name)
        return self._in(name, SBool(z3.Bool(name)))

    def str(self, name, maxlen=None, samples=None):
        name = self._name(name)
        v = SStr(z3.String(name))
        return self._in(name, v)

    def choice(self, name, options):
        """case split over a finite list of concrete values"""
        options = list(options)
        j = self.E.branch(len(options))
        self.E.inputs[self._name(name)] = lambda m: j
        return options[j]

    def seq(self, name, kind, n=None, isarray=False, minlen=0, **_):
        name = self._name(name)
        if n is None:
            n = SInt(z3.Int(name + '.len'))
            self.E.assume(n >= minlen)
        arr = z3.Array(name, z3.IntSort(), kind.sort)
        s = SSeq(kind, n, arr, isarray, name)

        def get(m):
            k = _pyval(m.eval(to_z3(n), model_completion=True))
            if k > 200:
                return None
            return [_pyval(m.eval(z3.Select(arr, j), model_completion=True)) for j in range(k)]
        self.E.inputs[name] = get
        return s

    # contracts
    def assume(self, *cs):
        for c in cs:
            self.E.assume(c)

    def check(self, label, c):
        self.E.check(label, c)

    def loop(self, ident, *a, **k):
        self.E.loop_contracts[ident] = LoopContract(*a, **k)

    def rep(self, obj, **attrs):
        """put the object in an arbitrary state of its representation invariant"""
        for k, v in attrs.items():
            if not hasattr(obj, k):
                raise Unsupported(f"the representation has no attribute '{k}' any more")
            setattr(obj, k, v)

    def stub(self, f, name, fn):
        """callee contract: calls to f are replaced by fn, which must have its own proof or is listed as assumed"""
        g = getattr(f, '__func__', f)
        st = type('Stub', (), {})()
        st.name, st.fn, st.keep = name, fn, g
        self.E.stubs[id(g)] = st

    def raises(self, fn, *exc):
        """(result, None) or (None, exception)"""
        try:
            return fn(), None
        except Stop:
            raise
        except exc or Exception as e:
            return None, e

    def len(self, s):
        return length(s)

    def fresh_seq(self, kind, name='s', **k):
        return self.E.fresh_seq(kind, name, **k)

    def note(self, *a):
        pass


class ConcVC:
    symbolic = False

    def __init__(self, rng=None, values=None):
        self.rng = rng or random.Random(0)
        self.given = values or {}
        self.used = {}
        self.labels = set()

    def mod(self, m):
        return loader.real(m)

    def _get(self, name, gen):
        if name in self.used:
            return self.used[name]
        v = self.given.get(name)
        if v is None:
            v = gen()
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        def gen():
            a = lo if lo is not None else (hi - 12 if hi is not None else -6)
            b = hi if hi is not None else a + 12
            return self.rng.randint(a, min(b, a + 40) if self.rng.random() < .8 else b)
        v = int(self._get(name, gen))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard()
        return v

    def real(self, name, lo=None, hi=None):
        def gen():
            r = self.rng
            k = r.random()
            if k < .4:
                v = float(r.randint(-8, 8))
            elif k < .8:
                v = r.randint(-64, 64) / 8
            else:
                v = r.randint(-10 ** 6, 10 ** 6) / 1024
            if lo is not None and v < lo:
                v = lo + abs(v)
            if hi is not None and v > hi:
                v = hi - abs(v - hi) if lo is None else (lo + hi) / 2
            return v
        v = self._get(name, gen)
        v = float(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard()
        return v

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < .5))

    def str(self, name, maxlen=None, samples=None):
        if samples:
            return self._get(name, lambda: self.rng.choice(list(samples)))
        return self._get(name, lambda: ''.join(self.rng.choice('abAB1 .=_') for _ in range(self.rng.randint(0, 6))))

    def choice(self, name, options):
        options = list(options)
        k = self._get(name, lambda: self.rng.randrange(len(options)))
        return options[k]

    def seq(self, name, kind, n=None, isarray=False, minlen=0, elems=None, **_):
        def gen():
            k = n if n is not None else self.rng.randint(minlen, minlen + self.rng.choice([0, 1, 2, 3, 6]))
            r = self.rng
            if elems:
                return [elems(r, i) for i in range(k)]
            if kind is IntK:
                return [r.randint(-3, 6) for _ in range(k)]
            if kind is RealK:
                return [r.randint(-16, 16) / 4 for _ in range(k)]
            if kind is BoolK:
                return [r.random() < .5 for _ in range(k)]
            return [r.choice(['a', 'b', 'c', 'd']) for _ in range(k)]
        v = self._get(name, gen)
        if n is not None and len(v) != n:
            raise Discard()
        if isarray:
            import numpy as np
            return np.array(v, dtype=float if kind is RealK else None)
        return list(v)

    def assume(self, *cs):
        for c in cs:
            if isinstance(c, (list, tuple)):
                self.assume(*c)
                continue
            if isinstance(c, Forall):
                c = c.concrete()
            if not c:
                raise Discard()

    def check(self, label, c):
        self.labels.add(label)
        if isinstance(c, (list, tuple)):
            for i, x in enumerate(c):
                self.check(f"{label}.{i}", x)
            return
        if isinstance(c, Forall):
            c = c.concrete()
        if not c:
            raise Violation(label)

    def loop(self, *a, **k):
        pass

    def stub(self, *a, **k):
        pass

    raises = SymVC.raises

    def len(self, s):
        return len(s)

    def note(self, *a):
        pass


def close(a, b, rel=1e-9, absol=1e-12):
    """equality of reals: exact in the logic, up to rounding on floats"""
    if is_sym(a) or is_sym(b):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= max(absol, rel * max(abs(a), abs(b)))
    return bool(abs(a - b) <= max(absol, rel * max(abs(a), abs(b))))


# ---------------------------------------------------------------------------------------------------------------
# bounded context
# ---------------------------------------------------------------------------------------------------------------

class Endless(BaseException):
    """one case used far more processor time than any case needs"""


CPU_LIMIT = 60


def _endless(*_):
    signal.setitimer(signal.ITIMER_PROF, 0)
    raise Endless(f'more than {CPU_LIMIT} s of processor time')


def watch(seconds=CPU_LIMIT):
    """limit the processor time (not the wall time: the machine may be busy) of one case; 0 ends the watch"""
    try:
        signal.signal(signal.SIGPROF, _endless)
        signal.setitimer(signal.ITIMER_PROF, seconds)
    except ValueError:
        pass        # not the main thread


class Bounded:
    def __init__(self, seed, tier, deadline, tmp, known=()):
        self.seed, self.tier, self.deadline, self.tmp = seed, tier, deadline, tmp
        self.known_keys = set(known)
        self.known_hit = {}
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.rng = random.Random(seed)

    def mod(self, m):
        return loader.real(m)

    def n(self, quick, thorough=None):
        return quick if self.tier == 'quick' else (thorough if thorough is not None else quick * 10)

    def each(self, quick, thorough=None):
        """iterate over per-case random generators until the count or the time is used up"""
        cnt = self.n(quick, thorough)
        for i in range(cnt):
            if time.time() > self.deadline:
                return
            self.case_seed = (self.seed, i)
            watch()
            yield random.Random(f"{self.seed}/{i}")
        watch(0)

    def dir(self):
        d = tempfile.mkdtemp(dir=self.tmp)
        return d

    def done(self, case, nontrivial=True):
        """record a case that was evaluated"""
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hash(repr(case)))
        if len(self.samples) < 3:
            self.samples.append(repr(case)[:400])

    def fail(self, what, detail=None, key=None):
        if key is not None and key in self.known_keys:
            self.known_hit[key] = what
            return
        v = Violation(what, detail)
        raise v

    def check(self, cond, what, detail=None, key=None):
        if not cond:
            self.fail(what, detail, key)
        return bool(cond)


# ---------------------------------------------------------------------------------------------------------------
# running one harness
# ---------------------------------------------------------------------------------------------------------------

def run_symbolic(h, tier):
    o = h.opts
    t0 = time.time()
    budget = o.get('budget', 100 if tier == 'quick' else 500)
    E = core.Engine(max_paths=o.get('max_paths', 6000), timeout_ms=o.get('timeout_ms', 10000 if tier == 'quick' else 30000),
                    unroll=o.get('unroll', 64), deadline=t0 + budget)

    def body(E):
        vc = SymVC(E)
        try:
            h.fn(vc)
        except Stop:
            raise
        except z3.Z3Exception as e:
            raise Unsupported(f"logic: {e}")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = any(f.filename.startswith(loader.REPO) for f in tb)
            where = '; '.join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-3:])
            if o.get('internal') and isinstance(e, (AttributeError, TypeError, NameError, KeyError)):
                raise Unsupported(f"the representation is no longer the one of the contract: {type(e).__name__}: {e} at {where}")
            ours = tb[-1].filename.startswith(os.path.dirname(os.path.abspath(__file__)))
            if isinstance(e, (SyntaxError, RecursionError)) or isinstance(e, (TypeError, AttributeError)) and \
                    (ours or any(w in str(e) for w in ('SRef', 'SSeq', 'SInt', 'SReal', 'SBool', 'SStr', 'SRange', 'SEnum', 'ArithRef', 'z3'))):
                raise Unsupported(f"the verifier does not reach this code: {type(e).__name__}: {e} at {where}")
            if not inrepo and not o.get('own_exceptions'):
                raise Unsupported(f"harness error {type(e).__name__}: {e} at {where}")
            E.check(f"no unexpected exception ({type(e).__name__} in {tb[-1].name}: {str(e)[:60]})", False, 'exception')
    # a failed "no exception" check needs the exception text
    E.explore(body)
    res = dict(obligations=len(E.obligations), paths=E.paths, feasible=E.feasible_seen, solver_s=E.solver_time,
               loops=sorted(E.loops_cut), stubs=sorted(E.stubs_used), unsupported=sorted(set(E.unsupported))[:8],
               labels=sorted(E.labels_reached), wall=time.time() - t0)
    by = {}
    failed = []
    for ob in E.obligations:
        if ob.status == 'proved':
            by[ob.backend] = by.get(ob.backend, 0) + 1
        else:
            failed.append(dict(name=ob.name, kind=ob.kind, status=ob.status, detail=ob.detail, inputs=ob.inputs,
                               path=str(ob.path)[:300]))
    res['backends'] = by
    res['proved'] = sum(by.values())
    res['failed'] = failed
    return res


def run_concrete_once(h, values=None, rng=None):
    """None if the contract held, 'discard', or a dict describing the violation"""
    vc = ConcVC(rng, values)
    watch()
    try:
        h.fn(vc)
        return None, vc
    except Endless as e:
        if h.opts.get('internal'):
            return 'discard', vc
        return dict(label='it comes to an end', detail=''.join(traceback.format_exception(e))[-1500:], inputs=vc.used), vc
    except Discard:
        return 'discard', vc
    except Violation as v:
        return dict(label=v.what, detail=v.detail, inputs=vc.used), vc
    except Stop:
        return 'discard', vc
    except Exception as e:
        if h.opts.get('internal') and isinstance(e, (AttributeError, TypeError, NameError)):
            return 'discard', vc    # the representation the harness builds is no longer the code's
        return dict(label='no unexpected exception', detail=''.join(traceback.format_exception(e))[-1500:],
                    inputs=vc.used), vc
    finally:
        watch(0)


def search_concrete(h, seed, n, budget):
    t0 = time.time()
    ran = 0
    labels = set()
    for i in range(n):
        if time.time() - t0 > budget:
            break
        r, vc = run_concrete_once(h, rng=random.Random(f"{seed}/{h.name}/{i}"))
        if r == 'discard':
            continue
        ran += 1
        labels |= vc.labels
        if r is not None:
            return ran, labels, r
    return ran, labels, None


def worker(prop, idx, tier, seed, out):
    """runs one harness in its own process"""
    loader.install()
    h = REGISTRY[prop][idx]
    res = dict(name=h.name, kind=h.kind, functions=h.functions, violation=None, known={})
    tmp = tempfile.mkdtemp(prefix='pyvc_')
    cwd = os.getcwd()
    os.chdir(tmp)
    t0 = time.time()
    try:
        if h.kind == 'prove':
            if not h.opts.get('concrete_only_for_debug'):
                r = run_symbolic(h, tier)
                res['sym'] = r
                for f in r['failed']:
                    if f['status'] == 'refuted' or f['inputs']:
                        if f['inputs'] is not None:
                            c, vc = run_concrete_once(h, values=f['inputs'])
                            if isinstance(c, dict):
                                res['violation'] = dict(c, obligation=f['name'], source='counterexample of the verifier '
                                                                                        'replayed on the real code')
                                break
            n = h.opts.get('conc', 400 if tier == 'quick' else 4000)
            budget = 12 if tier == 'quick' else 60
            if res['violation'] is None and n:
                if res.get('sym') and res['sym']['failed']:
                    n, budget = n * 20, budget * 3
                ran, labels, v = search_concrete(h, seed, n, budget)
                res['conc'] = dict(ran=ran, labels=sorted(labels))
                if v is not None:
                    res['violation'] = dict(v, obligation=v['label'],
                                            source='contract evaluated on the real code with a generated input')
        elif h.kind == 'bounded':
            b = Bounded(seed, tier, t0 + h.opts.get('budget', 60 if tier == 'quick' else 300), tmp,
                        json.loads(os.environ.get('PYVC_KNOWN', '{}')).get(prop, []))
            try:
                h.fn(b)
            except Endless as e:
                watch(0)
                text = ''.join(traceback.format_exception(e))[-2500:]
                res['violation'] = dict(label='it comes to an end', detail=text, obligation=h.name,
                                        inputs=dict(case_seed=getattr(b, 'case_seed', None)),
                                        source='bounded stand-in on the real code')
            except Violation as v:
                res['violation'] = dict(label=v.what, detail=v.detail, inputs=dict(case_seed=getattr(b, 'case_seed', None)),
                                        obligation=h.name, source='bounded stand-in on the real code')
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                text = ''.join(traceback.format_exception(e))[-2500:]
                inrepo = any(f.filename.startswith(os.path.join(loader.REPO, 'spicelib')) for f in tb)
                res['violation'] = dict(label=('unexpected exception: ' if inrepo else 'result of an unexpected shape: ')
                                        + type(e).__name__ + ': ' + str(e)[:200],
                                        detail=text, inputs=dict(case_seed=getattr(b, 'case_seed', None)),
                                        obligation=h.name, source='bounded stand-in on the real code')
            watch(0)
            res['bounded'] = dict(evaluations=b.evaluations, distinct=len(b.distinct), samples=b.samples)
            res['known'] = b.known_hit
        elif h.kind == 'finding':
            b = Bounded(seed, tier, t0 + 60, tmp)
            d = h.fn(b)
            res['finding'] = d
    except BaseException as e:
        res['error'] = ''.join(traceback.format_exception(e))[-3000:]
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    res['wall'] = time.time() - t0
    with open(out, 'w') as f:
        json.dump(res, f, default=str)
