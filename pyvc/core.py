"""Symbolic values, path exploration and obligations.

The verified program text is /repo's own source, mechanically instrumented (loader.py) and run by CPython on the
symbolic values below.  Every branch on a symbolic condition forks the path; every path is explored; every loop whose
trip count is symbolic is cut by its loop contract (invariant, havoc, variant); every check made on a path becomes one
proof obligation "path condition => goal" that z3 (then cvc5) has to discharge.
"""
import math
import re
import time
import enum
import fractions
import itertools
import z3

Fraction = fractions.Fraction


class Stop(BaseException):
    """Engine control flow; never caught by 'except Exception'."""


class PathDone(Stop):
    pass


class Infeasible(Stop):
    pass


class Unsupported(Stop):
    pass


class Violation(Exception):
    """Raised by a concrete (replay / bounded) run when a contract is broken on the real code."""

    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Discard(Exception):
    """Concrete mode: the generated input does not satisfy the precondition."""


CUR = None  # the current engine


def eng():
    if CUR is None:
        raise RuntimeError("symbolic value used outside of the engine")
    return CUR


# ---------------------------------------------------------------------------------------------------------------
# helpers
# ---------------------------------------------------------------------------------------------------------------

def is_sym(x):
    return isinstance(x, SymBase)


def realval(x):
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator)) / z3.RealVal(str(x.denominator))
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("inf/nan in real arithmetic")
        f = Fraction(repr(x))
        return z3.Q(f.numerator, f.denominator)
    try:
        return realval(float(x))
    except (TypeError, ValueError):
        raise Unsupported(f"not a number: {x!r}")


def to_z3(x):
    if isinstance(x, (SNum, SBool, SStr, SVal)):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, (float, Fraction)):
        return realval(x)
    if isinstance(x, str):
        if '\ue000' in x:
            return _tokens_z3(x)
        return z3.StringVal(x)
    if hasattr(x, 'item') and hasattr(x, 'dtype'):
        return to_z3(x.item())
    raise Unsupported(f"cannot lift {type(x).__name__} into the logic")


def _tokens_z3(s):
    """text formatted from symbolic strings -> concatenation"""
    parts = []
    for p in re.split('(\ue000[0-9]+\ue001)', s):
        if not p:
            continue
        t = eng().tokens.get(p)
        if t is None:
            parts.append(z3.StringVal(p))
        elif isinstance(t[0], SStr) and t[1] in ('', 's', '%s'):
            parts.append(t[0].e)
        else:
            raise Unsupported("text formatted from a symbolic number")
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def wrap(e):
    """z3 expression -> python value (concrete when it is a literal)."""
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_string_value(e):
        return e.as_string()
    s = e.sort()
    if s == z3.BoolSort():
        return SBool(e)
    if s == z3.IntSort():
        return SInt(e)
    if s == z3.RealSort():
        return SReal(e)
    if s == z3.StringSort():
        return SStr(e)
    return SVal(e)


def as_bool(x):
    """python/symbolic truth value -> z3 Bool, without forking"""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SNum):
        return x.e != 0
    if isinstance(x, Forall):
        raise Unsupported("nested quantifier")
    if hasattr(x, 'dtype'):
        return z3.BoolVal(bool(x))
    raise Unsupported(f"not a boolean: {x!r}")


# Connectives usable in contracts, in both modes --------------------------------------------------------------------

def Not(a):
    if isinstance(a, SBool):
        return wrap(z3.Not(a.e))
    return not a


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    if any(is_sym(x) for x in xs):
        return wrap(z3.And(*[as_bool(x) for x in xs]))
    return all(bool(x) for x in xs)


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    if any(is_sym(x) for x in xs):
        return wrap(z3.Or(*[as_bool(x) for x in xs]))
    return any(bool(x) for x in xs)


def Implies(a, b):
    if isinstance(b, Forall):
        return Forall(b.lo, b.hi, lambda *i: Implies(a, b.fn(*i)))
    if is_sym(a) or is_sym(b):
        return wrap(z3.Implies(as_bool(a), as_bool(b)))
    return (not a) or bool(b)


def Iff(a, b):
    if is_sym(a) or is_sym(b):
        return wrap(as_bool(a) == as_bool(b))
    return bool(a) == bool(b)


def Ite(c, a, b):
    if isinstance(c, SBool):
        za, zb = to_z3(a), to_z3(b)
        za, zb = _coerce(za, zb)
        return wrap(z3.If(c.e, za, zb))
    return a if c else b


def _coerce(a, b):
    if a.sort() == b.sort():
        return a, b
    if a.sort() == z3.IntSort() and b.sort() == z3.RealSort():
        return z3.ToReal(a), b
    if a.sort() == z3.RealSort() and b.sort() == z3.IntSort():
        return a, z3.ToReal(b)
    if a.sort() == z3.BoolSort() and b.sort() == z3.IntSort():
        return z3.If(a, z3.IntVal(1), z3.IntVal(0)), b
    raise Unsupported(f"incomparable sorts {a.sort()} {b.sort()}")


class Forall:
    """forall lo <= i < hi . fn(i).  As a goal it is skolemised, as an assumption it becomes a quantifier."""

    def __init__(self, lo, hi, fn):
        self.lo, self.hi, self.fn = lo, hi, fn

    def goal(self, E):
        i = E.fresh_int('sk')
        if z3.is_quantifier(i):
            raise Unsupported()
        r = And(i >= self.lo, i < self.hi)
        body = self.fn(i)
        if isinstance(body, Forall):
            return z3.Implies(as_bool(r), body.goal(E))
        return z3.Implies(as_bool(r), as_bool(body))

    def assumption(self, E, extra=()):
        v = z3.Int(f"q!{next(E.counter)}")
        i = SInt(v)
        body = self.fn(i)
        r = And(i >= self.lo, i < self.hi)
        if isinstance(body, Forall):
            inner = body.assumption(E)
            return z3.ForAll([v], z3.Implies(as_bool(r), inner))
        return z3.ForAll([v], z3.Implies(as_bool(r), as_bool(body)))

    def concrete(self):
        for i in range(self.lo, self.hi):
            r = self.fn(i)
            if isinstance(r, Forall):
                r = r.concrete()
            if not r:
                return False
        return True


# ---------------------------------------------------------------------------------------------------------------
# symbolic scalars
# ---------------------------------------------------------------------------------------------------------------

class SymBase:
    __slots__ = ()

    def __hash__(self):
        raise Unsupported(f"hash of a symbolic {type(self).__name__}")


class SBool(SymBase):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().fork(self.e)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return wrap(self.e == to_z3(o))
        if isinstance(o, (int, SInt)):
            return wrap(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)) == to_z3(o))
        return False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = SymBase.__hash__

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def _int(self):
        return wrap(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __str__(self):
        return eng().token(self, 'b')

    def __repr__(self):
        return f"SBool({self.e})"


class SNum(SymBase):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _o(self, o):
        """lift the other operand or return None"""
        if isinstance(o, SNum):
            return o.e
        if isinstance(o, SBool):
            return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, (int, float, Fraction)):
            return to_z3(o)
        if hasattr(o, 'dtype') and hasattr(o, 'item') and getattr(o, 'ndim', 0) == 0:
            return to_z3(o.item())
        return None

    def _bin(self, o, f, refl=False):
        b = self._o(o)
        if b is None:
            return NotImplemented
        a, b = _coerce(self.e, b)
        return wrap(f(b, a) if refl else f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    def __neg__(self):
        return wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.e >= 0, self.e, -self.e))

    def _div(self, a, b):
        if eng().fork(b == 0):
            raise ZeroDivisionError("division by zero")
        if a.sort() == z3.IntSort():
            a = z3.ToReal(a)
        if b.sort() == z3.IntSort():
            b = z3.ToReal(b)
        return wrap(a / b)

    def __truediv__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else self._div(self.e, b)

    def __rtruediv__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else self._div(b, self.e)

    @staticmethod
    def _floordiv(a, b):
        if eng().fork(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if a.sort() == z3.IntSort() and b.sort() == z3.IntSort():
            # z3: a = b*q + r with 0 <= r < |b|; Python: floor
            q = a / b
            r = a % b
            return z3.If(z3.Or(b > 0, r == 0), q, q - 1)
        a, b = _coerce(a, b)
        return z3.ToReal(z3.ToInt(a / b))

    def __floordiv__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else wrap(self._floordiv(self.e, b))

    def __rfloordiv__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else wrap(self._floordiv(b, self.e))

    @staticmethod
    def _mod(a, b):
        q = SNum._floordiv(a, b)
        a, b = _coerce(a, b)
        q, b = _coerce(q, b)
        return a - b * q

    def __mod__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else wrap(self._mod(self.e, b))

    def __rmod__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else wrap(self._mod(b, self.e))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        if isinstance(o, int) and not isinstance(o, bool):
            if o == 0:
                return 1 if isinstance(self, SInt) else wrap(z3.RealVal(1))
            r = self
            for _ in range(abs(o) - 1):
                r = r * self
            return r if o > 0 else 1 / r
        if isinstance(o, SInt):
            return eng().pow(self, o)
        if isinstance(o, float) and o == 0.5:
            if self < 0:
                raise Unsupported("square root of a negative number")
            r = eng().fresh_real('sqrt')
            eng().assume(r >= 0)
            eng().assume(r * r == self)
            return r
        raise Unsupported("symbolic power")

    def __rpow__(self, o):
        if isinstance(self, SInt):
            return eng().pow(o, self)
        if isinstance(o, (int, float)) and o > 0:
            return eng().uf('rpow', o, self)    # o ** x for any real x
        raise Unsupported("symbolic power")

    def _cmp(self, o, f):
        b = self._o(o)
        if b is None:
            if isinstance(o, float):
                return NotImplemented
            return NotImplemented
        a, b = _coerce(self.e, b)
        return wrap(f(a, b))

    def __lt__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o > 0
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o > 0
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o < 0
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o < 0
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        b = self._o(o)
        if b is None:
            return False
        a, b = _coerce(self.e, b)
        return wrap(a == b)

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = SymBase.__hash__

    def __bool__(self):
        return eng().fork(self.e != 0)

    def __str__(self):
        return eng().token(self, '')

    def __format__(self, spec):
        return eng().token(self, spec)

    def __repr__(self):
        return f"{type(self).__name__}({self.e})"


class SInt(SNum):
    __slots__ = ()

    def __index__(self):
        return eng().concretize(self)

    def __int__(self):
        return eng().concretize(self)

    def bit_length(self):
        raise Unsupported("bit_length")

    def _bits(self, o, name):
        # exact for operands the path condition confines to 0..2^12-1
        E = eng()
        w = 13
        a, b = self.e, to_z3(o)
        for t in (a, b):
            if not E.entails(z3.And(t >= 0, t < 2 ** (w - 1))):
                raise Unsupported("bit operation on an unbounded integer")
        x, y = z3.Int2BV(a, w), z3.Int2BV(b, w)
        r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[name]
        return wrap(z3.BV2Int(r))

    def __and__(self, o):
        return self._bits(o, 'and')

    __rand__ = __and__

    def __or__(self, o):
        return self._bits(o, 'or')

    __ror__ = __or__

    def __xor__(self, o):
        return self._bits(o, 'xor')

    __rxor__ = __xor__

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (2 ** o)
        raise Unsupported("symbolic shift")

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (2 ** o)
        raise Unsupported("symbolic shift")


class SReal(SNum):
    __slots__ = ()

    def is_integer(self):
        return wrap(z3.IsInt(self.e))

    def __float__(self):
        raise Unsupported("float() of a symbolic real by C code")

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0


class SVal(SymBase):
    """Opaque value of an uninterpreted sort (or any other sort): only equality."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, SVal) and o.e.sort() == self.e.sort():
            return wrap(self.e == o.e)
        return False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = SymBase.__hash__

    def __bool__(self):
        raise Unsupported("truth value of an opaque value")

    def __str__(self):
        return eng().token(self, '')

    def __repr__(self):
        return f"SVal({self.e})"


_lower = z3.Function('str.lower', z3.StringSort(), z3.StringSort())
_upper = z3.Function('str.upper', z3.StringSort(), z3.StringSort())
_strip = z3.Function('str.strip', z3.StringSort(), z3.StringSort())
_split_n = z3.Function('str.split.n', z3.StringSort(), z3.IntSort())
_split = z3.Function('str.split', z3.StringSort(), z3.ArraySort(z3.IntSort(), z3.StringSort()))
_is_int = z3.Function('str.is_int', z3.StringSort(), z3.BoolSort())
_int_of = z3.Function('str.int_of', z3.StringSort(), z3.IntSort())
_is_float = z3.Function('str.is_float', z3.StringSort(), z3.BoolSort())
_float_of = z3.Function('str.float_of', z3.StringSort(), z3.RealSort())


class SStr(SymBase):
    """Symbolic string (z3 sequence theory)."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return wrap(self.e == to_z3(o))
        return False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = SymBase.__hash__

    def __add__(self, o):
        if isinstance(o, (str, SStr)):
            return wrap(z3.Concat(self.e, to_z3(o)))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return wrap(z3.Concat(to_z3(o), self.e))
        return NotImplemented

    def __bool__(self):
        return eng().fork(z3.Length(self.e) > 0)

    def len_(self):
        return wrap(z3.Length(self.e))

    def startswith(self, p):
        if isinstance(p, tuple):
            return Or([self.startswith(x) for x in p])
        return wrap(z3.PrefixOf(to_z3(p), self.e))

    def endswith(self, p):
        if isinstance(p, tuple):
            return Or([self.endswith(x) for x in p])
        return wrap(z3.SuffixOf(to_z3(p), self.e))

    def __contains__(self, p):
        return bool(wrap(z3.Contains(self.e, to_z3(p))))

    def lower(self):
        E = eng()
        r = _lower(self.e)
        E.assume_z3(_lower(r) == r)
        E.assume_z3(z3.Length(r) == z3.Length(self.e))
        return SStr(r)

    casefold = lower

    def upper(self):
        E = eng()
        r = _upper(self.e)
        E.assume_z3(_upper(r) == r)
        E.assume_z3(z3.Length(r) == z3.Length(self.e))
        return SStr(r)

    def strip(self, chars=None):
        """text without the blanks around it: a part of it that neither starts nor ends with a blank; a text that
        starts and ends with printable ASCII is unchanged"""
        if chars is not None:
            raise Unsupported("str.strip of given characters")
        E = eng()
        r = _strip(self.e)
        n, m = z3.Length(self.e), z3.Length(r)
        E.assume_z3(z3.And(_strip(r) == r, m <= n, z3.Contains(self.e, r)))
        for c in ' \t\n\r':
            E.assume_z3(z3.And(z3.Not(z3.PrefixOf(z3.StringVal(c), r)), z3.Not(z3.SuffixOf(z3.StringVal(c), r))))
        ink = z3.Range('!', '~')
        E.assume_z3(z3.Implies(z3.And(n > 0, z3.InRe(z3.SubString(self.e, 0, 1), ink),
                                      z3.InRe(z3.SubString(self.e, n - 1, 1), ink)), r == self.e))
        E.assume_z3(z3.Implies(n == 0, m == 0))
        return SStr(r)

    def split(self, sep=None, maxsplit=-1):
        """words of the text: an uninterpreted sequence of the text"""
        if sep is not None or maxsplit != -1:
            raise Unsupported("str.split with a separator")
        n = wrap(_split_n(self.e))
        eng().assume(n >= 0)
        return SSeq(StrK, n, _split(self.e), False, 'words')

    def find(self, sub, start=0):
        return wrap(z3.IndexOf(self.e, to_z3(sub), to_z3(start)))

    def index(self, sub, start=0):
        r = self.find(sub, start)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def __getitem__(self, k):
        n = self.len_()
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("stepped string slice")
            lo, hi = slice_bounds(k, n)
            return wrap(z3.SubString(self.e, to_z3(lo), to_z3(hi - lo)))
        k = norm_index(k, n, "string index out of range")
        return wrap(z3.SubString(self.e, to_z3(k), z3.IntVal(1)))

    def __str__(self):
        return eng().token(self, '')

    def __format__(self, spec):
        return eng().token(self, spec)

    def __repr__(self):
        return f"SStr({self.e})"

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f"str.{name} on a symbolic string")


def norm_index(k, n, msg):
    if isinstance(k, SymBase) and not isinstance(k, SInt):
        raise Unsupported("index kind")
    if not is_sym(k) and not is_sym(n):
        if k < 0:
            k += n
        if not 0 <= k < n:
            raise IndexError(msg)
        return k
    if bool(wrap(to_z3(k) < 0)):
        k = k + n
    if not bool(And(k >= 0, k < n)):
        raise IndexError(msg)
    return k


def slice_bounds(s, n):
    """Python slice clamping as terms (no forks when provable)."""
    def clamp(v, default):
        if v is None:
            return default
        v = Ite(_b(v < 0), v + n, v)
        v = Ite(_b(v < 0), 0, v)
        return Ite(_b(v > n), n, v)
    lo = clamp(s.start, 0)
    hi = clamp(s.stop, n)
    hi = Ite(_b(hi < lo), lo, hi)
    return lo, hi


def _b(x):
    return x


# ---------------------------------------------------------------------------------------------------------------
# kinds and sequences
# ---------------------------------------------------------------------------------------------------------------

class Kind:
    """How an element is represented in the logic."""

    def __init__(self, name, sort):
        self.name, self.sort = name, sort

    def wrap(self, e):
        return wrap(e)

    def unwrap(self, v):
        e = to_z3(v)
        if e.sort() != self.sort:
            e, _ = _coerce(e, z3.Const('dummy', self.sort))
        return e


IntK = Kind('int', z3.IntSort())
RealK = Kind('real', z3.RealSort())
BoolK = Kind('bool', z3.BoolSort())
StrK = Kind('str', z3.StringSort())
_valsort = z3.DeclareSort('Val')
ValK = Kind('val', _valsort)


class SEnumV(SymBase):
    """An unknown member of an enumeration."""
    __slots__ = ('e', 'k')

    def __init__(self, e, k):
        self.e, self.k = e, k

    def __eq__(self, o):
        if isinstance(o, SEnumV) or isinstance(o, enum.Enum):
            return wrap(self.e == self.k.unwrap(o))
        return False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = SymBase.__hash__

    def __repr__(self):
        return f"SEnumV({self.e})"


class EnumK(Kind):
    """members of a Python enumeration, numbered in definition order"""

    def __init__(self, cls):
        super().__init__(cls.__name__, z3.IntSort())
        self.cls, self.members = cls, list(cls)

    def wrap(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e) and 0 <= e.as_long() < len(self.members):
            return self.members[e.as_long()]
        return SEnumV(e, self)

    def unwrap(self, v):
        if isinstance(v, SEnumV):
            return v.e
        return z3.IntVal(self.members.index(v))


class RecordType(Kind):
    """Reference to a record with mutable fields; the heap of each field is an array Int -> sort held by the engine.
    Two references are the same object iff their ids are equal."""

    def __init__(self, name, fields, methods=None):
        super().__init__(name, z3.IntSort())
        self.fields, self.methods = fields, methods or {}

    def wrap(self, e):
        return SRef(self, z3.simplify(e))

    def unwrap(self, v):
        if isinstance(v, SRef):
            return v._id
        raise Unsupported(f"{v!r} is not a {self.name}")


class SRef(SymBase):
    def __init__(self, rt, i):
        object.__setattr__(self, '_rt', rt)
        object.__setattr__(self, '_id', i)

    def __getattr__(self, name):
        rt = object.__getattribute__(self, '_rt')
        if name in rt.fields:
            return rt.fields[name].wrap(z3.Select(eng().heap(rt, name), self._id))
        if name in rt.methods:
            m = rt.methods[name]
            return lambda *a, **k: m(self, *a, **k)
        if name in getattr(rt, 'props', ()):
            return rt.props[name](self)
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f"attribute {name} of {rt.name} has no contract")

    def __setattr__(self, name, v):
        rt = self._rt
        if name not in rt.fields:
            raise Unsupported(f"attribute {name} of {rt.name} has no contract")
        E = eng()
        E.set_heap(rt, name, z3.Store(E.heap(rt, name), self._id, rt.fields[name].unwrap(v)))

    def __eq__(self, o):
        if isinstance(o, SRef) and o._rt is self._rt:
            return wrap(self._id == o._id)
        return False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = SymBase.__hash__

    def __bool__(self):
        return True

    def __repr__(self):
        return f"{self._rt.name}@{self._id}"

    __str__ = __repr__


class SSeq(SymBase):
    """Sequence of symbolic length (list, or 1-D numpy array when isarray)."""

    def __init__(self, kind, n, arr, isarray=False, name='seq'):
        self.kind, self.n, self.arr, self.isarray, self.name = kind, n, arr, isarray, name
        self.version = 0

    # --- specification access (no bound checks)
    def at(self, i):
        return self.kind.wrap(z3.Select(self.arr, to_z3(i)))

    def copy(self):
        return SSeq(self.kind, self.n, self.arr, self.isarray, self.name)

    # --- program access
    def len_(self):
        return self.n

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("stepped slice")
            lo, hi = slice_bounds(k, self.n)
            return self._slice(lo, hi)
        k = norm_index(k, self.n, "list index out of range")
        return self.at(k)

    def _slice(self, lo, hi):
        i = z3.Int('i!sl')
        if not is_sym(lo) and lo == 0:
            arr = self.arr
        else:
            arr = z3.Lambda([i], z3.Select(self.arr, i + to_z3(lo)))
        return SSeq(self.kind, hi - lo, arr, self.isarray, self.name + '[:]')

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            if k != slice(None, None, None) or not self.isarray or isinstance(v, (SSeq, list, tuple)):
                raise Unsupported("slice assignment")
            self.arr = z3.K(z3.IntSort(), self.kind.unwrap(v))
            self.version += 1
            return
        k = norm_index(k, self.n, "list assignment index out of range")
        self.arr = z3.Store(self.arr, to_z3(k), self.kind.unwrap(v))
        self.version += 1

    def append(self, v):
        self.arr = z3.Store(self.arr, to_z3(self.n), self.kind.unwrap(v))
        self.n = self.n + 1
        self.version += 1

    def pop(self, k=-1):
        if self.isarray:
            raise Unsupported("pop on an array")
        if not bool(self.n > 0):
            raise IndexError("pop from empty list")
        last = (k == -1) if not is_sym(k) else False
        k = norm_index(k, self.n, "pop index out of range")
        v = self.at(k)
        if not last:
            i = z3.Int('i!pop')
            self.arr = z3.Lambda([i], z3.If(i < to_z3(k), z3.Select(self.arr, i), z3.Select(self.arr, i + 1)))
        self.n = self.n - 1
        self.version += 1
        return v

    def insert(self, k, v):
        lo, _ = slice_bounds(slice(k, None), self.n)
        i = z3.Int('i!ins')
        z = to_z3(lo)
        self.arr = z3.Lambda([i], z3.If(i < z, z3.Select(self.arr, i),
                                        z3.If(i == z, self.kind.unwrap(v), z3.Select(self.arr, i - 1))))
        self.n = self.n + 1
        self.version += 1

    def __delitem__(self, k):
        self.pop(k)

    def clear(self):
        self.n = 0
        self.version += 1

    def extend(self, o):
        if isinstance(o, (list, tuple)):
            for x in o:
                self.append(x)
            return
        if not isinstance(o, SSeq) or o.kind is not self.kind:
            raise Unsupported("extend")
        i = z3.Int('i!ext')
        z = to_z3(self.n)
        self.arr = z3.Lambda([i], z3.If(i < z, z3.Select(self.arr, i), z3.Select(o.arr, i - z)))
        self.n = self.n + o.n
        self.version += 1

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if self.isarray:
            return self.map(lambda x: x + o)
        r = self.copy()
        r.extend(o)
        return r

    def __radd__(self, o):
        if self.isarray:
            return self.map(lambda x: o + x)
        if not isinstance(o, list):
            return NotImplemented
        r = SSeq(self.kind, 0, self.arr, False, self.name)
        r.extend(o)
        r.extend(self)
        return r

    def map(self, f):
        i = z3.Int(f'i!map{next(eng().counter)}')
        v = f(self.kind.wrap(z3.Select(self.arr, i)))
        e = to_z3(v)
        kind = {z3.IntSort(): IntK, z3.RealSort(): RealK, z3.BoolSort(): BoolK, z3.StringSort(): StrK}.get(e.sort())
        return SSeq(kind, self.n, z3.Lambda([i], e), self.isarray, self.name + '|map')

    def __abs__(self):
        return self.map(abs)

    def __mul__(self, o):
        if self.isarray:
            return self.map(lambda x: x * o)
        raise Unsupported("list repetition")

    def member(self, x):
        """`x in self` as a term: a predicate C and a witness W with C(x) -> self[W(x)] == x, and C(self[q]) for all q"""
        E = eng()
        if '_member' not in self.__dict__ or self._member[0] != (self.version, self.arr.get_id()):
            srt = self.kind.unwrap(x).sort()
            nm = f"in!{next(E.counter)}"
            C, W = z3.Function(nm, srt, z3.BoolSort()), z3.Function(nm + 'w', srt, z3.IntSort())
            q, v = z3.Int(f"q!{nm}"), z3.Const(f"v!{nm}", srt)
            n = to_z3(self.n)
            E.define(z3.ForAll([v], z3.Implies(C(v), z3.And(W(v) >= 0, W(v) < n, z3.Select(self.arr, W(v)) == v)),
                               patterns=[C(v)]))
            E.define(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), C(z3.Select(self.arr, q)))))
            self._member = ((self.version, self.arr.get_id()), C)
        return wrap(self._member[1](self.kind.unwrap(x)))

    def __contains__(self, x):
        return bool(self.member(x))

    def index(self, x):
        """first position of x (defined by what it is)"""
        E = eng()
        k = E.fresh_int('index')
        q = z3.Int(f"q!{next(E.counter)}")
        xe, n = self.kind.unwrap(x), to_z3(self.n)
        E.assume_z3(z3.And(k.e >= 0, k.e <= n, z3.Implies(k.e < n, z3.Select(self.arr, k.e) == xe),
                           z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k.e), z3.Select(self.arr, q) != xe))))
        if not bool(k < self.n):
            raise ValueError('not in list')
        return k

    def remove(self, x):
        self.pop(self.index(x))

    def __iter__(self):
        if is_sym(self.n):
            raise Unsupported(f"iteration over {self.name} without a loop contract")
        return iter([self.at(i) for i in range(self.n)])

    def __bool__(self):
        if self.isarray:
            raise Unsupported("truth value of an array")
        return bool(self.n > 0) if is_sym(self.n) else self.n > 0

    def __eq__(self, o):
        if o is self:
            return True
        if o is None:
            return False
        raise Unsupported("sequence equality")

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = SymBase.__hash__

    def __repr__(self):
        return f"SSeq({self.name}, n={self.n})"

    def __str__(self):
        return f"<{self.name}>"

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name == 'dtype':
            if self.isarray:
                return self.kind
            raise AttributeError(name)
        if name == 'tolist' and self.isarray:
            return lambda: SSeq(self.kind, self.n, self.arr, False, self.name)
        raise Unsupported(f"list/array method {name}")


class SRange(SymBase):
    def __init__(self, lo, hi, step=1):
        if is_sym(step):
            if bool(step == 0):
                raise ValueError("range() arg 3 must not be zero")
            if not bool(step > 0):
                raise Unsupported("range with an unknown negative step")
        elif step == 0:
            raise ValueError("range() arg 3 must not be zero")
        self.lo, self.hi, self.step = lo, hi, step
        self.n = None

    def len_(self):
        s = self.step
        if is_sym(s):   # the number of k >= 0 with lo + k * step < hi
            if self.n is None:
                E = eng()
                n = self.n = E.fresh_int('range.len')
                E.assume(And(n >= 0, Iff(n == 0, self.lo >= self.hi), self.lo + n * s >= self.hi,
                             Implies(n > 0, self.lo + (n - 1) * s < self.hi)))
            return self.n
        d = self.hi - self.lo if s > 0 else self.lo - self.hi
        s = abs(s)
        n = (d + (s - 1)) // s
        return Ite(n < 0, 0, n)

    def at(self, i):
        v = self.lo + i * self.step
        if is_sym(self.step):
            eng().assume(Implies(And(i >= 0, i < self.len_()), And(v >= self.lo, v < self.hi)))
        return v

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range without a loop contract")

    def __contains__(self, x):
        if self.step != 1:
            raise Unsupported("in range step")
        return bool(And(x >= self.lo, x < self.hi))

    def __repr__(self):
        return f"SRange({self.lo},{self.hi},{self.step})"


class SEnum(SymBase):
    def __init__(self, seq, start=0):
        self.seq, self.start = seq, start

    def len_(self):
        return self.seq.len_()

    def at(self, i):
        return (i + self.start, self.seq.at(i))

    def __iter__(self):
        raise Unsupported("enumerate over a symbolic sequence without a loop contract")


class SZip(SymBase):
    def __init__(self, seqs):
        self.seqs = seqs

    def len_(self):
        n = None
        for s in self.seqs:
            m = s.len_() if is_sym(s) else len(s)
            n = m if n is None else Ite(m < n, m, n)
        return n

    def at(self, i):
        return tuple(at(s, i) for s in self.seqs)

    def __iter__(self):
        raise Unsupported("zip over a symbolic sequence without a loop contract")


class SComp(SymBase):
    """Result of a filtering comprehension over a symbolic sequence: the subsequence of the source made of the
    indices at which the condition holds, in order, mapped through elt."""


def at(s, i):
    if hasattr(s, 'at') and is_sym(s):
        return s.at(i)
    if is_sym(i):
        # concrete list read at a symbolic position in a specification
        n = len(s)
        if n == 0:
            raise Unsupported("at() on an empty list")
        r = s[n - 1]
        for j in range(n - 2, -1, -1):
            r = Ite(wrap(to_z3(i) == j), s[j], r)
        return r
    return s[i]


def length(s):
    return s.len_() if is_sym(s) else len(s)


def absv(x):
    return abs(x)


# ---------------------------------------------------------------------------------------------------------------
# engine
# ---------------------------------------------------------------------------------------------------------------

class Obligation:
    __slots__ = ('name', 'kind', 'status', 'backend', 'time', 'model', 'path', 'goal', 'detail', 'inputs')

    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.status, self.backend, self.time, self.model, self.detail = None, None, 0.0, None, None
        self.path = None
        self.goal = None
        self.inputs = None


class Engine:
    def __init__(self, max_paths=4000, timeout_ms=8000, unroll=64, deadline=None):
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.unroll = unroll
        self.deadline = deadline
        self.obligations = []
        self.paths = 0
        self.solver_time = 0.0
        self.unsupported = []
        self.loop_contracts = {}
        self.feasible_seen = 0
        self.labels_reached = set()
        self.loops_cut = set()
        self.cache = {}
        self.solver_calls = 0
        self.unroll_limit = unroll
        self.stubs = {}
        self.stubs_used = set()

    # --- exploration
    def explore(self, fn):
        """fn(engine) is executed once per path."""
        global CUR
        work = [[]]
        while work:
            if self.paths >= self.max_paths:
                self.unsupported.append("path budget exhausted")
                return
            if self.deadline and time.time() > self.deadline:
                self.unsupported.append("time budget exhausted")
                return
            prefix = work.pop()
            self._begin(prefix, work)
            prev, CUR = CUR, self
            try:
                fn(self)
                self.feasible_seen += 1
            except PathDone:
                self.feasible_seen += 1
            except Infeasible:
                pass
            except Unsupported as u:
                self.unsupported.append(str(u))
                if len(self.unsupported) > 20:
                    return
            except RecursionError:
                self.unsupported.append("recursion limit")
            finally:
                CUR = prev
            self.paths += 1

    def _begin(self, prefix, work):
        self.prefix = list(prefix)
        self.pos = 0
        self.trail = []
        self.work = work
        self.pc = []
        self.defs = []
        self.sums = {}
        self.counter = itertools.count()
        self.inputs = {}
        self.tokens = {}
        self.heaps = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', 1500)
        self.sub = None
        self.tick_counts = {}
        self.extra_axioms = {}

    def assume_z3(self, e):
        e = z3.simplify(e) if not z3.is_quantifier(e) else e
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible()
        self.pc.append(e)
        self.solver.add(e)

    def define(self, e):
        """axiom that defines a fresh symbol (a conservative extension): it holds on every branch of a merged body"""
        if _free_comp(e):
            raise Unsupported("definition inside a comprehension over its variable")
        self.defs.append(e)
        self.assume_z3(e)

    def assume(self, c):
        if isinstance(c, Forall):
            self.assume_z3(c.assumption(self))
            return
        if isinstance(c, (list, tuple)):
            for x in c:
                self.assume(x)
            return
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self.assume_z3(as_bool(c))

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        self.solver_calls += 1
        return r

    def entails(self, e):
        return self._check(z3.Not(e)) == z3.unsat

    def fork(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(d)
            self.assume_z3(e if d else z3.Not(e))
            return d
        if len(self.trail) > 3000:
            raise Unsupported("path too long")
        rt = self._check(e)
        if rt == z3.unsat:
            d, other = False, False
            # the path itself is feasible iff Not(e) is
        else:
            rf = self._check(z3.Not(e))
            if rf == z3.unsat:
                d, other = True, False
            else:
                d, other = True, True
        if other:
            self.work.append(self.trail + [False])
        self.pos += 1
        self.prefix.append(d)
        self.trail.append(d)
        self.assume_z3(e if d else z3.Not(e))
        return d

    def branch(self, n):
        """case split over 0..n-1 without asking the solver"""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if not (isinstance(d, tuple) and d[0] == 'branch'):
                raise Unsupported("non-deterministic replay")
        else:
            for j in range(1, n):
                self.work.append(self.trail + [('branch', j)])
            d = ('branch', 0)
            self.prefix.append(d)
        self.pos += 1
        self.trail.append(d)
        return d[1]

    def concretize(self, x, limit=40):
        """Case split on the values of a symbolic integer."""
        e = x.e
        for _ in range(limit):
            if self.pos < len(self.prefix):
                # replay: the value asked for is recorded in the trail as an int
                d = self.prefix[self.pos]
                if isinstance(d, tuple):
                    self.pos += 1
                    self.trail.append(d)
                    v, yes = d
                    self.assume_z3(e == v if yes else e != v)
                    if yes:
                        return v
                    continue
                raise Unsupported("non-deterministic replay")
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                raise Unsupported("cannot enumerate the values of an index")
            v = self.solver.model().eval(e, model_completion=True).as_long()
            if self._check(e != v) != z3.unsat:
                self.work.append(self.trail + [(v, False)])
            self.pos += 1
            self.prefix.append((v, True))
            self.trail.append((v, True))
            self.assume_z3(e == v)
            return v
        raise Unsupported("index with too many values")

    # --- fresh symbols
    def fresh(self, base, sort):
        return z3.Const(f"{base}!{next(self.counter)}", sort)

    def fresh_int(self, base='i'):
        return SInt(self.fresh(base, z3.IntSort()))

    def fresh_real(self, base='r'):
        return SReal(self.fresh(base, z3.RealSort()))

    def fresh_bool(self, base='b'):
        return SBool(self.fresh(base, z3.BoolSort()))

    def fresh_seq(self, kind, base='s', isarray=False, n=None):
        if n is None:
            n = self.fresh_int(base + '_n')
            self.assume_z3(n.e >= 0)
        arr = self.fresh(base + '_a', z3.ArraySort(z3.IntSort(), kind.sort))
        return SSeq(kind, n, arr, isarray, base)

    def fresh_like(self, v, base='h'):
        if isinstance(v, (bool, SBool)):
            return self.fresh_bool(base)
        if isinstance(v, (int, SInt)):
            return self.fresh_int(base)
        if isinstance(v, (float, SReal, Fraction)):
            return self.fresh_real(base)
        if isinstance(v, SStr) or isinstance(v, str):
            return SStr(self.fresh(base, z3.StringSort()))
        if isinstance(v, SSeq):
            return self.fresh_seq(v.kind, base, v.isarray)
        if isinstance(v, SRef):
            return SRef(v._rt, self.fresh(base, z3.IntSort()))
        if isinstance(v, SVal):
            return SVal(self.fresh(base, v.e.sort()))
        raise Unsupported(f"cannot havoc {base} of type {type(v).__name__}")

    # --- heaps
    def heap(self, rt, f):
        k = (rt.name, f)
        if k not in self.heaps:
            self.heaps[k] = z3.Const(f"heap_{rt.name}_{f}", z3.ArraySort(z3.IntSort(), rt.fields[f].sort))
        return self.heaps[k]

    def set_heap(self, rt, f, arr):
        self.heap(rt, f)
        self.heaps[(rt.name, f)] = arr

    # --- uninterpreted arithmetic
    def pow(self, b, n):
        f = z3.Function('rpow', z3.RealSort(), z3.IntSort(), z3.RealSort())
        be = realval(b) if not is_sym(b) else to_z3(b)
        if be.sort() == z3.IntSort():
            be = z3.ToReal(be)
        ne = to_z3(n)
        self.assume_z3(f(be, z3.IntVal(0)) == 1)
        if z3.is_rational_value(be) and be.as_fraction() != 0:
            for e in range(-6, 7):      # ground instances of the definition
                self.assume_z3(f(be, z3.IntVal(e)) == z3.RealVal(str(be.as_fraction() ** e)))
        for m in (ne, ne + 1):
            self.assume_z3(z3.Implies(m >= 1, f(be, m) == be * f(be, m - 1)))
            self.assume_z3(z3.Implies(z3.And(be > 0, m >= 0), f(be, m) > 0))
        return SReal(f(be, ne))

    def uf(self, name, *args, ret=None):
        es = [to_z3(a) for a in args]
        es = [z3.ToReal(e) if e.sort() == z3.IntSort() else e for e in es]
        f = z3.Function(name, *[e.sort() for e in es], ret if ret is not None else z3.RealSort())
        return wrap(f(*es))

    # --- formatted text
    def token(self, v, spec):
        k = len(self.tokens)
        t = f"\ue000{k}\ue001"
        self.tokens[t] = (v, spec)
        return t

    def untoken(self, s):
        """value and format spec if the whole string is one token"""
        return self.tokens.get(s)

    # --- obligations
    def check(self, name, cond, kind='post'):
        self.labels_reached.add(name)
        if isinstance(cond, (list, tuple)):
            for i, c in enumerate(cond):
                self.check(f"{name}.{i}", c, kind)
            return
        n0 = len(self.pc)
        if isinstance(cond, Forall):
            goal = cond.goal(self)
        elif isinstance(cond, bool):
            goal = z3.BoolVal(cond)
        else:
            goal = as_bool(cond)
        ob = Obligation(name, kind)
        ob.path = list(self.trail)
        self._discharge(ob, goal)
        self.obligations.append(ob)
        if ob.status != 'proved':
            # continue under the assumption so that later obligations are independent
            pass
        if not isinstance(cond, bool):
            self.assume_z3(goal)
        elif not cond:
            raise PathDone()

    def _discharge(self, ob, goal):
        goal = z3.simplify(goal)
        t = time.time()
        if z3.is_true(goal):
            ob.status, ob.backend = 'proved', 'simplifier'
            return
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        s.add(*self.pc)
        s.add(z3.Not(goal))
        key = s.sexpr()
        if key in self.cache:
            ob.status, ob.backend, ob.inputs = self.cache[key]
            return
        r = s.check()
        ob.backend = 'z3'
        if r == z3.unsat:
            ob.status = 'proved'
        elif r == z3.sat:
            ob.status = 'refuted'
            m = s.model()
            ob.inputs = self.read_inputs(m)
            ob.detail = str(goal)[:800]
        else:
            ob.status = 'unknown'
            ob.detail = s.reason_unknown()
            if cvc5_check(key, self.timeout_ms):
                ob.status, ob.backend = 'proved', 'cvc5'
            else:
                try:
                    ob.inputs = self.read_inputs(s.model())
                except z3.Z3Exception:
                    pass
        ob.time = time.time() - t
        self.solver_time += ob.time
        self.cache[key] = (ob.status, ob.backend, ob.inputs)

    def read_inputs(self, model):
        out = {}
        for name, (get) in self.inputs.items():
            try:
                out[name] = get(model)
            except Exception as e:  # the replay then falls back to search
                out[name] = None
        return out

    def vacuity(self):
        """is the current path condition satisfiable?"""
        r = self._check()
        return r != z3.unsat


def cvc5_check(smt2, timeout_ms):
    """second back end: True iff cvc5 proves unsat"""
    try:
        import cvc5
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(timeout_ms))
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2 + "\n(check-sat)\n", 'q')
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            res = c.invoke(slv, sm)
        return res is not None and str(res).strip() == 'unsat'
    except BaseException:
        return False


# ---------------------------------------------------------------------------------------------------------------
# merging of small pure functions (comprehension bodies)
# ---------------------------------------------------------------------------------------------------------------

def _free_comp(e):
    seen, work = set(), [e]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            work.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and '!comp' in x.decl().name():
                return True
            work.extend(x.children())
    return False


def seq_sum(s):
    """sum of the elements: one function of the length per array, unfolded at 0 and at the length"""
    E = eng()
    real = s.kind is RealK
    if not real and s.kind is not IntK:
        raise Unsupported("sum of a symbolic sequence")
    srt = z3.RealSort() if real else z3.IntSort()
    S = E.sums.get(s.arr.get_id())
    if S is None:
        S = z3.Function(f"sum!{next(E.counter)}", z3.IntSort(), srt)
        E.sums[s.arr.get_id()] = (S, s.arr)
        n = to_z3(s.n)
        E.define(S(0) == (z3.RealVal(0) if real else z3.IntVal(0)))
        E.define(z3.Implies(n > 0, S(n) == S(n - 1) + z3.Select(s.arr, n - 1)))
    else:
        S = S[0]
    return wrap(S(to_z3(s.n)))


def merged(fn, *args, under=None):
    """Evaluate fn(*args) exploring its forks and merge the results into one term.  Exceptions are not allowed."""
    E = eng()
    saved = (E.prefix, E.pos, E.trail, E.work)
    results = []
    d0 = len(E.defs)
    work = [[]]
    while work:
        pre = work.pop()
        E.prefix, E.pos, E.trail, E.work = list(pre), 0, [], work
        pc0 = list(E.pc)
        E.solver.push()
        n0 = len(E.pc) + (0 if under is None else 1)
        try:
            if under is not None:   # what is known where the body runs: not a condition of the merged value
                E.pc.append(under)
                E.solver.add(under)
            v = fn(*args)
            cond = [c for c in E.pc[n0:] if not any(c.eq(d) for d in E.defs[d0:])]
            results.append((cond, v))
        except Infeasible:
            pass
        except Stop:
            raise
        except Exception as e:
            raise Unsupported(f"comprehension body may raise {e!r}")
        finally:
            E.solver.pop()
            E.pc = pc0
            E.prefix, E.pos, E.trail, E.work = saved
    for d in E.defs[d0:]:
        E.assume_z3(d)
    if not results:
        raise Infeasible()
    r = results[-1][1]
    for cond, v in reversed(results[:-1]):
        c = wrap(z3.And(*cond)) if cond else True
        if v is r:
            continue
        r = Ite(c, v, r)
    return r
