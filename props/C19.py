"""C19: numbers in logs and exports are converted to the number they denote."""
import itertools
import math
import os
import re

from pyvc.api import *
from props import loggen

M = 'log.logfile_data'
ASSUMPTIONS = ["int() and float() of a text are Python's (the texts they accept and the number they give are uninterpreted in the proof)",
               "the text of a complex value is split by the regular expression LTComplex.complex_match: assumed in the proof of the "
               "conversion, checked on generated texts by the bounded harness",
               "cos, sin and 10**x are uninterpreted functions with cos^2 + sin^2 = 1; machine arithmetic is treated as mathematical"]


@prove('C19', 'a field that denotes an integer, a real or a complex number becomes that number, other text stays text',
       [M + ':try_convert_value'])
def convert(vc):
    P = vc.mod(M)
    if vc.symbolic:
        s = vc.str('field')
        iscx = core.eng().fresh_bool('denotes a complex number')

        def cx(cls, text):
            if text is s and bool(iscx):
                return ('complex', text)
            raise ValueError("Invalid complex value format")
        vc.stub(P.LTComplex, 'LTComplex', lambda text: cx(None, text))
        kind = vc.choice('kind', ['text', 'int', 'real', 'list', 'bool'])
        if kind == 'text':
            r = P.try_convert_value(s)
            if isinstance(r, SInt):
                vc.check('an integer is the number of an integer text', And(int_text(s), r == core.wrap(core._int_of(s.e))))
            elif isinstance(r, SReal):
                vc.check('a real is the number of a real text that is no integer', And(float_text(s), Not(int_text(s)), r == core.wrap(core._float_of(s.e))))
            elif isinstance(r, tuple):
                vc.check('a complex number is read from a text that is no other number', And(Not(int_text(s)), Not(float_text(s)), iscx, r[1] == s))
            else:
                vc.check('text that is no number stays text', And(Not(int_text(s)), Not(float_text(s)), Not(iscx), r == s.strip()))
        elif kind == 'list':
            a, b = vc.int('a'), vc.real('b')
            r = P.try_convert_value([a, 'x', [b]])
            vc.check('a list is converted item by item', And(r[0] == a, r[1] == 'x', r[2][0] == b, len(r) == 3))
        else:
            v = vc.int('v') if kind == 'int' else vc.real('v') if kind == 'real' else vc.bool('v')
            vc.check('a number stays the number', P.try_convert_value(v) == v)
        return
    t, v = loggen.num(vc_rng(vc))
    c = vc.choice('case', ['number', 'text', 'bytes', 'list', 'same'])
    if c == 'number':
        vc.check('number', loggen.same(P.try_convert_value(t), v))
    elif c == 'bytes':
        vc.check('bytes', loggen.same(P.try_convert_value(t.encode()), v))
    elif c == 'list':
        vc.check('list', loggen.same(P.try_convert_value([t, 'abc', [t]]), [v, 'abc', [v]]))
    elif c == 'same':
        vc.check('a number stays the number', loggen.same(P.try_convert_value(v), v))
    else:
        w = vc.choice('word', ['1.2.3', '2N2222', '1k', '4.7µ', '(1,2', '(1;2)', '(a,b)', '--1', '1e', '(1,2)x', '(1,2)(3,4)', 'V(1,2)', '()', '(,)', '(1dB,)', '1 2'])
        vc.check('text', P.try_convert_value('  ' + w + ' ') == w)


def vc_rng(vc):
    import random
    return random.Random(vc.int('seed', 0, 10 ** 9))


class Parts:
    """contract of complex_match: the texts of the two numbers and which marks were present"""

    def __init__(self, groups):
        self.groups = groups

    def __call__(self, text, *a):
        return self

    match = fullmatch = search = __call__

    def group(self, name):
        return self.groups[name]

    def __bool__(self):
        return True


@prove('C19', 'a complex value has the magnitude and phase, or the parts, that its text gives', [M + ':LTComplex.__new__'], internal=True, conc=0)
def complex_parts(vc):
    if not vc.symbolic:
        return vc.assume(False)
    P = vc.mod(M)
    E = core.eng()
    mag, ph = vc.str('mag'), vc.str('ph')
    form = vc.choice('form', ['dB', 'magnitude', 'rectangular'])
    parts = Parts({'mag': mag, 'ph': ph, 'dB': 'dB' if form == 'dB' else None, 'degrees': None if form == 'rectangular' else '°'})
    P.LTComplex.complex_match = parts
    made = []

    def new(cls, re, im=0):
        made.append((re, im))
        return 'made'
    vc.stub(complex.__new__, 'complex', new)
    vc.assume(float_text(mag), float_text(ph))
    a, b = core.wrap(core._float_of(mag.e)), core.wrap(core._float_of(ph.e))
    P.LTComplex.__new__(P.LTComplex, 'text')
    vc.check('one number is made', len(made) == 1)
    re, im = made[0]
    if form == 'rectangular':
        vc.check('the parts are those of the text', And(re == a, im == b))
        return
    m = E.uf('rpow', 10, a / 20) if form == 'dB' else a
    ang = b * math.pi / 180
    c, s = E.uf('cos', ang), E.uf('sin', ang)
    vc.check('real part is magnitude * cos(phase)', re == m * c)
    vc.check('imaginary part is magnitude * sin(phase)', im == m * s)
    vc.assume(c * c + s * s == 1)
    vc.check('the magnitude of the number is the magnitude of the text', re * re + im * im == m * m)


class _Complex(core.SymBase):
    """a complex value of a log: its parts and its text"""

    def __init__(self, re, im, strvalue, parts):
        self.real, self.imag, self.strvalue, self.complex_match = re, im, strvalue, parts

    def __abs__(self):
        return core.eng().uf('sqrt', self.real * self.real + self.imag * self.imag)

    def conjugate(self):
        return _Complex(self.real, -self.imag, self.strvalue, self.complex_match)

    def __getattr__(self, name):
        d = _Complex.cls.__dict__.get(name)
        if d is None:
            raise core.Unsupported(f'{name} of a complex value')
        return d.__get__(self, _Complex)


@prove('C19', 'the magnitude, the phase in degrees and radians, the decibels and the unit of a complex value are those of the number',
       [M + ':LTComplex.mag', M + ':LTComplex.ph', M + ':LTComplex.mag_db', M + ':LTComplex.ph_rad', M + ':LTComplex.unit'], internal=True, conc=0)
def complex_queries(vc):
    if not vc.symbolic:
        return vc.assume(False)
    P, E = vc.mod(M), vc.E
    re_, im = vc.real('re'), vc.real('im')
    form = vc.choice('form', ['dB', 'magnitude'])
    parts = Parts({'mag': '1', 'ph': '2', 'dB': 'dB' if form == 'dB' else None, 'degrees': '°'})
    _Complex.cls = P.LTComplex
    v = _Complex(re_, im, 'text', parts)
    power = re_ * re_ + im * im
    mag, ang = E.uf('sqrt', power), E.uf('atan2', im, re_)
    # logarithm of a square root, and the square root of a square
    vc.assume(mag >= 0, mag * mag == power, 2 * E.uf('log10', mag) == E.uf('log10', power))
    vc.check('the magnitude is that of the number', v.mag == mag)
    vc.check('the phase in degrees is the angle of the number', v.ph * math.pi == ang * 180)
    vc.check('the phase in radians is the angle of the number', v.ph_rad() == ang)
    vc.check('the decibels are those of the magnitude', v.mag_db() == 20 * E.uf('log10', mag))
    vc.check('the unit is dB exactly for a value written in dB', v.unit == ('dB' if form == 'dB' else None))


class _Char(core.SymBase):
    """a character of a line"""

    def __init__(self, code):
        self.code = code

    def __eq__(self, o):
        if not isinstance(o, str) or len(o) != 1:
            return NotImplemented
        return self.code == ord(o)

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None


class _Part(core.SymBase):
    """the characters lo..hi-1 of the line"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class _Line(core.SymBase):
    def __init__(self, n, code):
        self.n, self.code = n, code

    def len_(self):
        return self.n

    def at(self, i):
        return _Char(self.code(i))

    def __getitem__(self, k):
        if not isinstance(k, slice) or k.step not in (None, 1):
            raise core.Unsupported('characters of the line')
        return _Part(0 if k.start is None else k.start, self.n if k.stop is None else k.stop)


@prove('C19', 'a line without brackets is split into its words: each one once, whole, converted and in order, with None between two commas',
       [M + ':split_line_into_values'], internal=True, conc=0)
def words(vc):
    if not vc.symbolic:
        return vc.assume(False)
    import z3
    P, E = vc.mod(M), vc.E
    z = core.to_z3
    I = z3.IntSort()
    fcode, femit, fstart, fval = z3.Function('code', I, I), z3.Function('values_before', I, I), z3.Function('start_of_word', I, I), z3.Function('value_of', I, I, I)
    n, K = vc.int('length', 1), vc.int('K', 0)

    def comma(i):
        return Or(code(i) == ord(','), code(i) == ord(';'))

    def sep(i):
        c = code(i)
        return Or(*[c == ord(x) for x in ' \t\r\n,;'])

    def code(i):
        c = wrap(fcode(z(i)))
        E.assume(And(*[c != ord(x) for x in '()[]{}']))
        return c

    def word_ends(i):
        """a word ends before the separator at i"""
        return And(sep(i), i > 0, Not(sep(i - 1)))

    def nothing(i):
        """a comma with no word before it"""
        return And(comma(i), Or(i == 0, sep(i - 1)))

    def count(i):
        return wrap(femit(z(i)))

    def start(i):
        """where the word that the character at i belongs to starts (recursive definition)"""
        r = wrap(fstart(z(i)))
        E.assume(r == Ite(Or(i == 0, sep(i - 1)), i, wrap(fstart(z(i - 1)))))
        return r

    def unfold(i):
        E.assume(Implies(i >= 0, count(i + 1) == count(i) + Ite(Or(word_ends(i), nothing(i)), 1, 0)))
    E.assume(count(0) == 0)

    def convert(p):
        if not isinstance(p, _Part):
            raise core.Unsupported('something else is converted')
        v = wrap(fval(z(p.lo), z(p.hi)))
        E.assume(v >= 0)
        return v
    vc.stub(P.try_convert_value, 'try_convert_value (proved separately)', convert)

    class Values(core.Kind):
        def unwrap(self, v):
            return z3.IntVal(-1) if v is None else super().unwrap(v)
    kind = Values('value', I)

    def found(vals, upto):
        return {'the word K is there, whole and at its place': Implies(And(K < upto, word_ends(K)), And(
                    0 <= count(K), count(K) < count(upto), at(vals, count(K)) == wrap(fval(z(start(K - 1)), z(K))))),
                'so is the empty field at K': Implies(And(K < upto, nothing(K)), And(0 <= count(K), count(K) < count(upto), at(vals, count(K)) == -1))}

    def inv(L, i):
        if isinstance(L.values, list):
            return {'nothing before the line': i == 0}
        unfold(i)
        unfold(i - 1)
        unfold(K)
        out = {'values so far': And(length(L.values) == count(i), count(i) >= 0),
               'where the next word starts': And(0 <= L.value_start, L.value_start <= i, Implies(And(i > 0, Not(sep(i - 1))), L.value_start < i),
                                                  L.value_start == Ite(i == 0, 0, Ite(sep(i - 1), i, start(i - 1)))),
               'no bracket is open': len(L.parenthesis) == 0, 'no group': L.group_end is None,
               'the last character': L.i == Ite(i == 0, 0, i - 1)}
        out.update(found(L.values, i))
        return out
    vc.loop(M + ':split_line_into_values#0', inv, havoc_vals={'values': lambda E, old, L: E.fresh_seq(kind, 'values'),
            'group_end': lambda E, old, L: None, 'parenthesis': lambda E, old, L: []})
    line = _Line(n, code)
    r = P.split_line_into_values(line)
    if isinstance(r, list):
        return vc.check('no value in an empty line', And(n == 0, not r))
    unfold(K)
    rest = And(n > 0, Not(sep(n - 1)))
    vc.check('as many values as words and empty fields', length(r) == count(n) + Ite(rest, 1, 0))
    for what, c in found(r, n).items():
        vc.check(what, c)
    vc.check('the last word is the last value', Implies(rest, at(r, count(n)) == wrap(fval(z(start(n - 1)), z(n)))))


@prove('C19', 'a line of the Fourier table gives its six numbers', ['log.ltsteps:HarmonicData.from_line'], internal=True, conc=0)
def harmonic(vc):
    if not vc.symbolic:
        return vc.assume(False)
    H = vc.mod('log.ltsteps').HarmonicData
    texts = [vc.str(f'field {k}') for k in range(6)]

    class Angle:
        """a text that may end in a degree sign"""

        def __init__(self, s):
            self.s = s

        def rstrip(self, c=None):
            if c != '°':
                raise core.Unsupported('another end of the text')
            return self.s

        removesuffix = rstrip

    class Line:
        def split(self, sep=None):
            if sep is not None:
                raise core.Unsupported('another separator')
            return texts[:4] + [Angle(t) for t in texts[4:]]
    vc.assume(int_text(texts[0]), *[float_text(t) for t in texts[1:]])
    r = H.from_line(Line())
    num = lambda k: core.wrap((core._int_of if k == 0 else core._float_of)(texts[k].e))
    for k, name in enumerate(['harmonic_number', 'frequency', 'fourier_component', 'normalized_component', 'phase', 'normalized_phase']):
        vc.check('the ' + name.replace('_', ' '), getattr(r, name) == num(k))


# ------------------------------------------------------------------------------------------------------------------
# bounded
# ------------------------------------------------------------------------------------------------------------------

@bounded('C19', 'complex texts are read as the number they denote', [M + ':LTComplex.__new__', M + ':LTComplex.mag', M + ':LTComplex.ph',
                                                                   M + ':LTComplex.mag_db', M + ':LTComplex.ph_rad', M + ':LTComplex.unit', M + ':try_convert_value'])
def complex_texts(bx):
    P = bx.mod(M)
    for rng in bx.each(400, 20000):
        c = loggen.Cplx(rng)
        if rng.random() < 0.3:
            f = rng.choice(['{:.3g}', '{:+.4f}', '{:.6e}', '{:d}', '{:.0f}.'])
            x, y = rng.uniform(-80, 80), rng.uniform(-170, 170)
            x, y = (int(x), int(y)) if 'd' in f else (x, y)
            a, b = f.format(x), f.format(y)
            c.text = f'({a}dB,{b}°)'
            c.form = 'dB'
            c.value = 10 ** (float(a) / 20) * complex(math.cos(math.radians(float(b))), math.sin(math.radians(float(b))))
        how = rng.choice([str, lambda t: t.encode('utf-8'), lambda t: ' ' + t, lambda t: t + '\n'])
        got = P.try_convert_value(how(c.text))
        case = (c.text, got, c.value)
        bx.check(isinstance(got, P.LTComplex) and abs(got - c.value) <= 1e-9 * (abs(c.value) + 1e-300), 'a complex text is that number', case)
        bx.check(close(got.mag, abs(c.value), 1e-9, 1e-15), 'its magnitude', case)
        if abs(c.value) > 1e-12:
            w = math.degrees(math.atan2(c.value.imag, c.value.real))
            d = (got.ph - w) % 360
            bx.check(min(d, 360 - d) < 1e-7, 'its phase in degrees', case)
            d = (got.ph_rad() - math.radians(w)) % (2 * math.pi)
            bx.check(min(d, 2 * math.pi - d) < 1e-9 and abs(got.ph_rad() - math.radians(got.ph)) < 1e-9, 'its phase in radians', case)
            bx.check(abs(got.ph) <= 180 + 1e-9, 'a phase is from -180 to 180 degrees', case)
            bx.check(close(got.mag_db(), 20 * math.log10(abs(c.value)), 1e-9, 1e-9), 'its magnitude in dB', case)
        bx.check(got.unit == ('dB' if c.form == 'dB' else None), 'its unit', case)
        bx.check(str(got).strip() == c.text, 'its text', case)
        if c.form == 'dB':
            a = float(c.text[1:].split('dB')[0])
            bx.check(close(got.mag_db(), a, 1e-9, 1e-9), 'a value in dB has that many dB', case)
        bx.done(c.text)


def fields(line):
    """reference reading of a line: fields between blanks or , ; with (groups) as lists"""
    out, i, n = [], 0, len(line)
    pair = {'(': ')', '[': ']', '{': '}'}
    fresh = True    # nothing since the last separator
    while i < n:
        c = line[i]
        if c in ' \t\r\n':
            i += 1
            fresh = True
        elif c in ',;':
            if fresh:
                out.append(None)
            fresh = True
            i += 1
        elif c in pair:
            depth, j = [pair[c]], i + 1
            while j < n and depth:
                if line[j] in pair:
                    depth.append(pair[line[j]])
                elif line[j] == depth[-1]:
                    depth.pop()
                j += 1
            if depth:
                return ValueError
            sub = fields(line[i + 1:j - 1])
            if sub is ValueError:
                return ValueError
            out.append(sub)
            i, fresh = j, False
        else:
            j = i
            while j < n and line[j] not in ' \t\r\n,;':
                j += 1
            out.append(word(line[i:j]))
            i, fresh = j, False
    return out


def word(t):
    for f in (int, float):
        try:
            return f(t)
        except ValueError:
            pass
    return t


def plain(line):
    """lines whose reading is not ambiguous: groups stand alone, separators follow a field, no empty group"""
    prev = ' '
    depth = 0
    for k, c in enumerate(line):
        if c in '([{':
            if prev not in ' \t,;([{':
                return False
            depth += 1
        elif c in ')]}':
            if depth == 0 or prev in '([{,;':
                return False
            depth -= 1
        elif c in ',;':
            if prev in ' \t':
                return False
        elif c not in ' \t' and prev in ')]}':
            return False
        elif c in ' \t' and depth and prev in '([{' + ',;':
            return False
        prev = c
    return True


@bounded('C19', 'a line is split into the values it holds', [M + ':split_line_into_values'])
def split_lines(bx):
    split = bx.mod(M).split_line_into_values

    def case(line):
        if not plain(line) or not line.strip():
            return False
        want = fields(line)
        try:
            got = split(line)
        except ValueError:
            got = ValueError
        bx.check((got is want) if ValueError in (got, want) else loggen.same(got, want), 'the values of a line', (line, got, want))
        bx.done(line)
        return True
    for size in range(1, 6):
        for t in itertools.product('1a ,()', repeat=size):
            case(''.join(t))
    for rng in bx.each(300, 12000):
        items = []
        for _ in range(rng.randint(1, 6)):
            k = rng.random()
            if k < 0.6:
                items.append(loggen.num(rng)[0])
            elif k < 0.75:
                items.append(rng.choice(['abc', 'x1', '1.2.3', '400m']))
            else:
                o, c = rng.choice(['()', '[]', '{}'])
                inner = rng.choice([',', ', ', ' ', ';']).join(loggen.num(rng)[0] for _ in range(rng.randint(1, 3)))
                if rng.random() < 0.2:
                    inner = f'({inner}),{loggen.num(rng)[0]}'
                items.append(o + inner + c)
        line = rng.choice(['', '  ', '\t']) + rng.choice([' ', '   ', '\t', ',', ', ', ';']).join(items) + rng.choice(['', ' ', '\n', '\r\n'])
        case(line)


EXPRS = ['V(out)', 'RMS(v(out))', 'vout_rms/vin_rms', 'v(vout)=vmax/sqrt(2)', 'MAX(mag(v(out)))', 'time', '(a+b)*2', 'v(a,b)', "d(v(x))", '']


@bounded('C19', 'a measurement line yields its name, result and condition values', ['log.ltsteps:LTSpiceLogReader.__init__'])
def measurement_lines(bx):
    R = bx.mod('log.ltsteps').LTSpiceLogReader
    d = bx.dir()
    path = os.path.join(d, 'a.log')
    for rng in bx.each(250, 9000):
        lines, want = ['Circuit: * top.net', ''], {}
        for name in rng.sample(loggen.NAMES, rng.randint(1, 4)):
            v = loggen.cell(rng, rng.random() < 0.3)
            a, b = loggen.num(rng), loggen.num(rng)
            kind = rng.choice(['plain', 'from', 'at', 'AT'])
            ex = rng.choice(EXPRS)
            want[name.lower()] = [v[1]]
            tail = ''
            if kind == 'from':
                tail = f' FROM {a[0]} TO {b[0]}'
                want[name.lower() + '_from'], want[name.lower() + '_to'] = [a[1]], [b[1]]
            elif kind in ('at', 'AT'):
                tail = f' {kind} {a[0]}'
                want[name.lower() + '_at'] = [a[1]]
            lines.append((f'{name}: {ex}=' if ex else f'{name}=') + v[0] + tail)
        text = '\n'.join(lines) + '\n'
        loggen.write(path, text, rng)
        got = R(path)
        bx.check(sorted(got.dataset) == sorted(want), 'the names of the measurements', (text, list(got.dataset)))
        for k, v in want.items():
            bx.check(loggen.same(list(got.dataset[k]), v), 'the values of a measurement', (text, k, got.dataset[k], v))
            bx.check(loggen.same(got.get_measure_value(k), v[0]), 'the value of a measurement', (text, k))
        bx.done(text)


@bounded('C19', 'fields of stepped logs, QSPICE logs and exports are the numbers they denote',
         ['log.ltsteps:LTSpiceLogReader.__init__', 'log.qspice_log_reader:QspiceLogReader.__init__',
          'log.qspice_log_reader:QspiceLogReader.parse_meas_file', 'log.ltsteps:LTSpiceExport.__init__', 'log.ltsteps:HarmonicData.from_line'])
def whole_files(bx):
    S, Q = bx.mod('log.ltsteps'), bx.mod('log.qspice_log_reader')
    d = bx.dir()
    path, meas = os.path.join(d, 'a.log'), os.path.join(d, 'a.meas')
    for rng in bx.each(150, 5000):
        for log, read in ((loggen.Log(rng), lambda: S.LTSpiceLogReader(path)),
                          (loggen.QLog(rng), lambda: Q.QspiceLogReader(path, read_measures=False))):
            q = isinstance(log, loggen.QLog)
            loggen.write(path, log.text, rng, ('utf-8',) if q else ('utf-8', 'utf-16', 'cp1252'))
            got = read()
            if q:
                loggen.write(meas, log.meas, rng, ('utf-8',))
                got.parse_meas_file(meas)
            for kind, want, has in (('step', log.steps, got.stepset), ('measurement', log.data, got.dataset)):
                bx.check(sorted(want) == sorted(has), f'the {kind} names', (log.text, list(has)))
                for k, v in want.items():
                    bx.check(loggen.same(list(has[k]), v), f'a {kind} value is the number of its text', (log.text, k, has[k], v))
            if not q:
                four = {s: [(p, (f.n_periods, f.dc_component, f.thd, f.phd,
                                 [[h.harmonic_number, h.frequency, h.fourier_component, h.normalized_component, h.phase, h.normalized_phase] for h in f]))
                            for p, f in enumerate(fs)] for s, fs in got.fourier.items()}
                want = {s: [(p, f[1]) for p, f in enumerate(fs)] for s, fs in log.fourier.items()}
                bx.check(four == want, 'a number of the Fourier table is that of its text', (log.text, four, want))
            bx.done(log.text)
        ex = loggen.Export(rng)
        loggen.write(path, ex.text, rng)
        got = S.LTSpiceExport(path)
        for i, h in enumerate(ex.headers):
            w = [r[i] for _, rows, _ in ex.runs for r in rows]
            bx.check(loggen.same(got.dataset[h.lower()], w), 'an exported value is the number of its text', (ex.text, h, got.dataset[h.lower()], w))
        bx.done(ex.text)


@bounded('C19', 'a field is a number only when its whole text is the spelling of one', [M + ':try_convert_value'])
def spellings(bx):
    conv = bx.mod(M).try_convert_value
    INT, REAL = re.compile(r'[+-]?\d+'), re.compile(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?|[+-]?(inf|nan)', re.I)
    pieces = ['1', '0', '07', '25', '.', 'e', 'E', '-', '+', '5e3', 'x1A', 'b1', 'o7', ',', '(', ')', 'dB', '°', ' ', 'inf', 'k', 'meg', "'", '%', '_a', '\t', 'N', '=']
    for k, rng in enumerate(bx.each(1500, 60000)):
        t = ''.join(rng.choice(pieces) for _ in range(rng.randint(1, 5))) if k >= 12 else \
            ['0x1A', '010', '1,5', '0b11', '0o17', '1e', '1.5k', '1 2', '--1', '(1', '1)', '(1,2'][k]
        if '_' in t and re.search(r'\d_\d', t) or re.search(r'\(.*,.*\)', t):
            continue
        s = t.strip()
        for how in (t, t.encode('utf-8')):
            got = conv(how)
            if INT.fullmatch(s):
                bx.check(type(got) is int and got == int(s), 'an integer', (how, got))
            elif REAL.fullmatch(s):
                bx.check(type(got) is float and (got == float(s) or got != got), 'a real number', (how, got))
            else:
                bx.check(got == s and type(got) is str, 'other text', (how, got))
        bx.done(t)
