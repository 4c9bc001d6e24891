"""C05: engineering notation keeps the value."""
import math
import random

from pyvc.api import *
from pyvc import core as _core

M = 'utils.float_unit'
ASSUMPTIONS = ["the digits of a number are an opaque run: float() of a plain decimal text is its value",
               "math.log(x, 1000) is an uninterpreted function that is exact at the powers of 1000 (float rounding at those "
               "points is covered by the bounded harness)", "formatting with :g/:E prints the number within the digits (bounded harness)"]

# documented multipliers; M alone is mega and m milli (the package documents that only there the case matters), F is the unit
SUFFIX = {'f': 1e-15, 'p': 1e-12, 'P': 1e-12, 'n': 1e-9, 'N': 1e-9, 'u': 1e-6, 'U': 1e-6, '\u00b5': 1e-6, '\u03bc': 1e-6, 'm': 1e-3,
          'k': 1e3, 'K': 1e3, 'M': 1e6, 'meg': 1e6, 'Meg': 1e6, 'MEG': 1e6, 'mEg': 1e6, 'MeG': 1e6, 'G': 1e9, 'g': 1e9, 'T': 1e12,
          't': 1e12, '%': 1e-2}
UNITS = ['', 'V', 'Ohm', 'Hz', 's', '\u03a9', 'A']


# --- ghost text: concrete parts and runs of digits of any length ------------------------------------------------------

class Run:
    def __init__(self, vc, name, kind):
        self.kind = kind
        self.n = vc.int('len_' + name, 1)
        self.v = vc.real('val_' + name)


class GChar:
    """any character of a run"""

    def __init__(self, run):
        self.run = run

    def vc_within(self, s):
        digits = all(c in s for c in '0123456789')
        if self.run.kind == 'digits' and digits:
            return True
        if self.run.kind == 'number' and digits and '.' in s and '+' in s and '-' in s:
            return True
        if any(c in s for c in '0123456789.+-'):
            raise Unsupported('character class')
        return False

    def upper(self):
        return self


class GText:
    def __init__(self, parts):
        self.parts = [p for p in parts if not (isinstance(p, str) and p == '')]

    def __len__(self):
        r = 0
        for p in self.parts:
            r = r + (len(p) if isinstance(p, str) else p.n)
        return r

    def strip(self):
        return self

    def upper(self):
        return GText([p.upper() if isinstance(p, str) else p for p in self.parts])

    def startswith(self, s):
        p = self.parts[0] if self.parts else ''
        if any(c in s for c in '0123456789.+-'):
            raise Unsupported('startswith a digit')
        return isinstance(p, str) and p.startswith(s)

    def __getitem__(self, k):
        if isinstance(k, slice):
            lo = self._split(k.start or 0)
            hi = self._split(len_(self) if k.stop is None else k.stop)
            return join([p for p in self._cut(lo, hi)])
        pos = 0
        for p in self.parts:
            if isinstance(p, str):
                for t in range(len(p)):
                    if bool(k == pos + t):
                        return p[t]
                pos = pos + len(p)
            else:
                if bool(k < pos + p.n):
                    return GChar(p)
                pos = pos + p.n
        raise IndexError('string index out of range')

    def _split(self, k):
        """(part, offset within a concrete part) of a position; a position inside a run is out of reach"""
        pos = 0
        for i, p in enumerate(self.parts):
            if bool(pos == k):
                return i, 0
            if isinstance(p, str):
                for t in range(1, len(p)):
                    if bool(k == pos + t):
                        return i, t
                pos = pos + len(p)
            else:
                pos = pos + p.n
        if bool(k >= pos):
            return len(self.parts), 0
        raise Unsupported('a cut inside a run of digits')

    def _cut(self, lo, hi):
        (i, s), (j, t) = lo, hi
        if (i, s) >= (j, t):
            return []
        out = [self.parts[i][s:t] if i == j else (self.parts[i][s:] if s else self.parts[i])]
        if i < j:
            out += self.parts[i + 1:j]
            if t:
                out.append(self.parts[j][:t])
        return out

    def __add__(self, o):
        return join(self.parts + (o.parts if isinstance(o, GText) else [o]))

    def __radd__(self, o):
        return join([o] + self.parts)

    def __bool__(self):
        return bool(self.parts)

    def vc_float(self):
        p = self.parts
        if len(p) == 1 and isinstance(p[0], Run) and p[0].kind == 'number':
            return p[0].v
        if len(p) == 3 and isinstance(p[0], Run) and p[1] == '.' and isinstance(p[2], Run):
            return joined(p[0], p[2])
        if len(p) in (3,) and isinstance(p[0], Run) and p[1].upper() in ('E', 'E-', 'E+') and isinstance(p[2], Run):
            return scientific(p[0], p[1].upper(), p[2])
        raise ValueError('could not convert string to float')


def len_(t):
    return t.__len__()


def join(parts):
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    return GText(parts)


def joined(a, b):
    return _core.eng().uf('decimal', a.v, b.v)


def scientific(a, e, b):
    return _core.eng().uf('scientific' + e, a.v, b.v)


def digits(r, first=False):
    s = ''.join(r.choice('0123456789') for _ in range(r.randint(1, 4)))
    return s


def number(r):
    s = r.choice(['', '', '-', '+']) + digits(r)
    if r.random() < .5:
        s += '.' + digits(r)
    return s


def build(vc, form, suffix, unit, space):
    """the text and the number it denotes"""
    if vc.symbolic:
        a, b = Run(vc, 'a', 'number'), Run(vc, 'b', 'digits')
        if form == 'plain':
            return GText([a, space, suffix, unit]), a.v * SUFFIX.get(suffix, 1.0)
        if form == 'embedded':
            return GText([a, suffix, b, unit]), joined(a, b) * SUFFIX.get(suffix, 1.0)
        e = vc.choice('exponent', ['e', 'E', 'e-', 'E-', 'E+'])
        return GText([a, e, b, space, unit]), scientific(a, e.upper(), b)
    r = random.Random(vc.int('digits', 0, 10 ** 6))
    if form == 'plain':
        t = number(r)
        return t + space + suffix + unit, float(t) * SUFFIX.get(suffix, 1.0)
    if form == 'embedded':
        a, b = r.choice(['', '-']) + digits(r), digits(r)
        return a + suffix + b + unit, float(a + '.' + b) * SUFFIX.get(suffix, 1.0)
    t = number(r) + vc.choice('exponent', ['e', 'E', 'e-', 'E-', 'E+']) + str(r.randint(0, 20))
    return t + space + unit, float(t)


def reading(vc, form, suffixes, units=UNITS, spaces=('', ' ')):
    F = vc.mod(M)
    suffix = vc.choice('suffix', suffixes)
    unit = vc.choice('unit', units)
    space = vc.choice('space', spaces)
    text, value = build(vc, form, suffix, unit, space)
    n1 = length(text.parts[0]) if False else (text.parts[0].n if vc.symbolic else 0)
    vc.loop(M + ':parse_value#0', lambda L, i: {'within the number': And(L.i >= 0, L.i <= n1), 'length': L.l == len_(text)},
            variant=lambda L, i: n1 - L.i)
    if vc.symbolic and form != 'plain':
        mid = suffix if form == 'embedded' else text.parts[1]
        lo = n1 + (1 if form == 'scientific' else len(mid))
        hi = n1 + len(mid) + text.parts[2].n
        run = {'embedded': '#3', 'scientific': '#1'}[form]
        vc.loop(M + ':parse_value' + run,
                lambda L, i: {'within the digits': And(L.i >= lo, L.i <= hi)}, variant=lambda L, i: hi - L.i)
    v, e = vc.raises(lambda: F.scan_eng(text), ValueError)
    vc.check('a number is accepted', e is None)
    if e is None:
        vc.check('the text is read as the number it denotes', close(v, value, 1e-12, 0))


for _f, _s, _u, _p in [('plain', [''], UNITS, ['', ' ', '  ']), ('plain', [s for s in SUFFIX], ['', 'V', 'Ohm'], ['']),
                       ('plain', ['k', 'u', 'm', 'M', 'meg', '%'], ['', 'Hz'], [' ', '\t']),
                       ('embedded', [s for s in SUFFIX if s != '%'] + ['R', 'r'], ['', 'V'], ['']),
                       ('scientific', [''], UNITS, ['', ' '])]:
    prove('C05', f"reading {_f} numbers of any length{' with a suffix' if len(_s) > 1 else ''}{' after a space' if _p == [' ', chr(9)] else ''}",
          ['utils.float_unit:parse_value', 'utils.float_unit:scan_eng'], unroll=12)(
        lambda vc, a=(_f, _s, _u, _p): reading(vc, *a))


@prove('C05', 'the suffix is the one of the power of 1000 and the mantissa times it is the number', ['utils.float_unit:format_eng'])
def writing(vc):
    F = vc.mod(M)
    v = vc.real('value')
    if vc.symbolic:
        def log(x, base):
            vc.check('the logarithm is the one to base 1000', base == 1000)
            l = _core.eng().fresh_real('log')
            for e in range(-8, 8):
                p = 1000 ** e if e >= 0 else 1 / (1000 ** -e * (1 + 0 * v))
                vc.assume(Iff(l < e, x < p))
            return l
        vc.stub(math.log, 'math.log', log)
    text = F.format_eng(v)
    if not vc.symbolic:
        return vc.check('the printed number is the value', abs(parse_back(text) - v) <= 5.1e-6 * abs(v))
    E = _core.eng()
    k = text.rfind('\ue001') + 1
    tok = E.tokens.get(text[:k])
    vc.check('a single number is printed, followed by its suffix', tok is not None)
    if tok is None:
        return
    val, spec = tok
    suffix = text[k:]
    vc.check('the suffix is documented', suffix in SUFFIX or suffix == '')
    from fractions import Fraction
    import z3
    mult = z3.RealVal(str(Fraction(10) ** round(math.log10(SUFFIX[suffix])))) if suffix else z3.RealVal(1)
    vc.check('mantissa times suffix is the value', _core.wrap(val.e * mult == v.e))
    m = abs(val)
    if suffix or spec == 'g':
        vc.check('the mantissa is between 1 and 1000', Or(v == 0, And(m >= 1, m < 1000)))
    else:
        vc.check('plain exponents only outside the range of the suffixes', Or(m < Fraction_(1, 10 ** 15), m >= 10 ** 15))


def Fraction_(a, b):
    import z3
    return _core.wrap(z3.RealVal(f'{a}/{b}'))


def parse_back(t):
    """independent reading of engineering notation"""
    for s in sorted(SUFFIX, key=len, reverse=True):
        if t.endswith(s) and s not in ('%',):
            return float(t[:-len(s)]) * SUFFIX[s]
    return float(t)


def anyvalue(r):
    k = r.random()
    if k < .15:
        return r.choice([0.0, -0.0, 1.0, 10.0, 100.0, 1000.0, 999.9996, 999999.6, 1e-15, 1e15, 999e-18, 5e-324, 1.7976931348623157e308]) * r.choice([1, -1])
    if k < .3:
        return r.choice([1, -1]) * 1000.0 ** r.randint(-7, 7)
    if k < .4:
        return r.randint(-10 ** 7, 10 ** 7)
    if k < .5:
        return float(f'{r.choice([1, -1]) * r.uniform(1, 10):.{r.randint(0, 4)}f}e{r.randint(-18, 18)}')
    if k < .6:
        x = 1000.0 ** r.randint(-6, 6)
        return math.nextafter(x, r.choice([0, math.inf]))
    return r.choice([1, -1]) * r.uniform(1, 10) * 10.0 ** r.randint(-25, 25)


@bounded('C05', 'format_eng and float_unit: print and read back', ['utils.float_unit:format_eng', 'utils.float_unit:float_unit.__str__'])
def roundtrip(bx):
    F = bx.mod(M)
    for r in bx.each(20000, 200000):
        v = anyvalue(r)
        t = F.format_eng(v)
        bx.check(abs(parse_back(t) - v) <= 5.1e-6 * abs(v) or abs(v) < 1e-300, 'the printed number is the value', (v, t))
        bx.check(F.scan_eng(t) == parse_back(t) or math.isclose(F.scan_eng(t), parse_back(t), rel_tol=1e-14), 'printed numbers can be read', (v, t))
        s = t.lstrip('-').rstrip('fpnumkMegt')
        m = abs(float(s))
        if t[-1] in 'fpnumkgt' :
            bx.check(.999999 <= m <= 1000, 'the mantissa carries the suffix of its power of 1000', (v, t))
        elif v and 'E' not in t:
            bx.check(.999999 <= m <= 1000, 'no suffix between 1 and 1000', (v, t))
        elif v and 'E' in t:
            bx.check(abs(v) < 1.0001e-15 or abs(v) >= 9.999e14, 'exponents outside the suffixes only', (v, t))
        if v == 0:
            bx.check(float(t) == 0, 'zero stays zero', (v, t))
        u = F.float_unit(v)
        bx.check(float(u) == float(v) and F.to_float(v) == v, 'a number stays the number', (v, u))
        bx.check(F.scan_eng(str(u)) == F.scan_eng(t), 'text of a value with unit', (v, str(u)))
        unit = r.choice(['V', 'A', 'Hz', 's', 'W'])
        w = F.float_unit(float(v), unit)
        bx.check(str(w) == t + unit, 'the unit follows the suffix', (v, str(w)))
        bx.check(F.scan_eng(str(w)) == F.scan_eng(t), 'text with a unit is read back', (v, str(w)))
        x = F.float_unit(str(w))
        bx.check(str(x) == str(w) and str(x.clean()) == F.format_eng(float(x)) + unit, 'text is kept until it is cleaned', (v, str(x)))
        bx.done((v, t))


@bounded('C05', 'value texts in every documented form', ['utils.float_unit:parse_value', 'utils.float_unit:to_float', 'utils.float_unit:scan_eng'])
def texts(bx):
    F = bx.mod(M)
    P = bx.mod('editor.primitives')
    for r in bx.each(20000, 200000):
        form = r.choice(['plain', 'suffix', 'embedded', 'sci', 'bad'])
        unit = r.choice(UNITS + ['Farad', 'H', 'F', 'volts', 'rad'])
        sp = r.choice(['', '', ' ', '  '])
        if form == 'plain':
            n = number(r)
            t, v = n + sp + r.choice(['', 'V', 'Ohm', 'Hz', 's', 'A', '\u03a9', 'H', 'F', 'C', 'J', 'W']), float(n)
        elif form == 'suffix':
            n, s = number(r), r.choice(list(SUFFIX))
            t, v = n + sp + s + unit, float(n) * SUFFIX[s]
        elif form == 'embedded':
            s = r.choice([x for x in SUFFIX if x != '%'] + ['R', 'r'])
            a, b = r.choice(['', '-', '+']) + digits(r), digits(r)
            t, v = a + s + b + r.choice(['', 'V', 'Ohm', ' Hz']), float(a + '.' + b) * SUFFIX.get(s, 1.0)
        elif form == 'sci':
            n = number(r) + r.choice('eE') + r.choice(['', '+', '-']) + str(r.randint(0, 30))
            t, v = n + sp + r.choice(UNITS), float(n)
        else:
            t = r.choice(['abc', '', ' ', 'R', '{R1}', 'k7', '.model', '1.2.3', '--1', '+', '-', '1e', '1E+', '5-3', 'V1', '{2*3}', 'nan', 'inf',
                          '"1"', '1..2', '1+2', 'AC 1', 'SINE(0 1 1k)', '=1', '.', 'Meg', '1.2.3k', '1.5k7', '-e3', '2*x', '1k+5', '1/3', '3 4', '2*(3+b)', '1k*2', '1e3*x', '2.2Meg/2', '1;x', '2}', '1e3 5', '4k7 8', '2x+1'])
            bx.check(F.to_float(t) == t and isinstance(F.to_float(t), str) and not isinstance(F.to_float(t), float), 'text stays text', t)
            for f in (lambda: F.to_float(t, accept_invalid=False), lambda: F.scan_eng(t), lambda: P.scan_eng(t)):
                try:
                    x = f()
                    bx.fail('text that is not a number is rejected', (t, x))
                except ValueError:
                    pass
            x = P.try_value(t) if hasattr(P, 'try_value') else t
            bx.check(x == t and isinstance(x, str), 'text is returned unchanged', (t, x))
            bx.done(t)
            continue
        t = r.choice(['', '', ' ']) + t + r.choice(['', '', ' '])
        for what, x in (('scan_eng', F.scan_eng(t)), ('to_float', F.to_float(t)), ('float_unit', F.float_unit(t)), ('strict', F.to_float(t, False))):
            bx.check(math.isclose(float(x), v, rel_tol=1e-12), f'{what} reads the number the text denotes', (t, v, float(x)))
        bx.check(str(F.to_float(t)) == t.strip(), 'the text is kept', (t, str(F.to_float(t))))
        bx.done(t)
