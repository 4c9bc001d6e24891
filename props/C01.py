"""C01: what the RAW writer saves, the RAW reader reads back."""
import os
import warnings

import numpy as np

from pyvc.api import *
from props import rawgen
from pyvc import core
from .C10 import TOKEN, Grown, Rows, Sections, same_text

ASSUMPTIONS = ["numpy's tobytes/frombuffer/astype store and load the IEEE representation of a sample"]


@prove('C01', 'the type a sample is stored with is the one the reader expects for it', ['raw.raw_write:RawWrite._storage_type'],
       internal=True, conc=50)
def storage(vc):
    W = vc.mod('raw.raw_write')
    num = vc.choice('numtype', ['real', 'double', 'complex'])
    plot = vc.choice('plot', ['Transient Analysis', 'AC Analysis', 'DC transfer characteristic', 'Operating Point', None])
    i = vc.int('index', 0)
    w = W.RawWrite(plot_name=plot, numtype=num)
    t = w._storage_type(i)
    if num == 'complex' or plot == 'AC Analysis':
        vc.check('complex samples take two doubles', t is np.complex128)
    elif num == 'double':
        vc.check('all samples are doubles', t is np.float64)
    else:
        vc.check('the axis is stored in double precision', Iff(i == 0, t is np.float64))
        vc.check('the others in single precision', Iff(i != 0, t is np.float32))


class _Added(core.SymBase):
    """the traces of a file: any number of them, of which the first is known; what is appended is recorded"""

    def __init__(self, n, first):
        self.n, self.first, self.added = n, first, []

    def len_(self):
        return self.n + len(self.added)

    def __getitem__(self, i):
        if isinstance(i, slice) or not bool(i == 0) or not bool(self.n > 0):
            raise core.Unsupported('another trace')
        return self.first

    def append(self, t):
        self.added.append(t)

    def __bool__(self):
        return bool(self.len_() > 0)


@prove('C01', 'a trace is added after the others, only when it has as many samples as the axis; the first one decides what the file says it holds',
       ['raw.raw_write:RawWrite.add_trace', 'raw.raw_write:RawWrite.__init__'], internal=True, conc=0)
def adding(vc):
    """any number of traces before it, of any length"""
    if not vc.symbolic:
        return vc.assume(False)
    W = vc.mod('raw.raw_write')
    plot = vc.choice('plot', [None, '', 'Noise Spectral Density', 'AC Analysis', 'Transient Analysis'])
    flag = vc.choice('numtype', ['auto', 'real', 'complex', 'double'])
    kind = vc.choice('kind', ['time', 'frequency', 'voltage', 'current', 'param', 'another'])
    num = vc.choice('numerical_type', ['real', 'double', 'complex'])

    def trace(tag):
        t = W.Trace.__new__(W.Trace)
        t.name, t.whattype, t.numerical_type, t.data = tag, kind, num, vc.seq(tag, RealK)
        t.datalen = vc.len(t.data)
        return t
    axis, new = trace('axis'), trace('new')
    n = vc.int('n', 0)
    w = W.RawWrite(plot_name=plot, numtype=flag)
    vc.check('a new file has no traces, and the flags and the name that are given', And(len(w._traces) == 0, w.flag_numtype == flag, w.plot_name == plot))
    before = _Added(n, axis)
    vc.rep(w, _traces=before)
    _, exc = vc.raises(lambda: w.add_trace(new), IndexError, ValueError)
    vc.check('the traces there were stay', w._traces is before)
    if bool(n > 0):
        same = vc.len(new.data) == vc.len(axis.data)
        vc.check('rejected exactly when it is not as long as the axis', Iff(exc is not None, Not(same)))
        vc.check('a later trace changes neither flags nor name', And(w.flag_numtype == flag, w.plot_name == plot))
    else:
        vc.check('the first trace is rejected only for its kind', (exc is not None) == (kind == 'another'))
        if exc is None:
            vc.check('a name that was given is kept', w.plot_name == plot if plot else bool(w.plot_name))
            cx = kind == 'frequency' and num == 'complex' and 'Noise' not in (plot or '')
            vc.check('it is complex exactly for a complex frequency axis, unless it was given', w.flag_numtype == (flag if flag != 'auto' else 'complex' if cx else 'real'))
            if not plot and flag == 'auto':
                vc.check('an AC analysis is what has complex samples', (w.plot_name == 'AC Analysis') == cx)
    vc.check('it is added once, or not at all', [x is new for x in before.added] == ([] if exc is not None else [True]))


class _Sample:
    def __init__(self, log, v, i):
        self.log, self.v, self.i = log, v, i

    def tobytes(self):
        return ('sample', self.v, self.i)


class _Data:
    """ghost samples of one variable: what is written is recorded with its variable and its point"""

    def __init__(self, v, n):
        self.v, self.n = v, n

    def astype(self, t, copy=True):
        return self

    def tobytes(self):
        return ('whole', self.v)

    def __getitem__(self, i):
        return _Sample(None, self.v, i)

    def __len__(self):
        return self.n


class _Trace:
    def __init__(self, v, n):
        self.data, self.name, self.whattype, self.n = _Data(v, n), f'v{v}', 'voltage', n
        self.numerical_type = 'real'

    def __len__(self):
        return self.n


class _File:
    """ghost file: the header is ignored, the binary part is recorded"""

    def __init__(self, nv, seq):
        self.nv, self.out, self.cols = nv, seq, []

    def write(self, b):
        if isinstance(b, bytes):
            return len(b)
        if b[0] == 'whole':
            self.cols.append(b[1])
        else:
            self.out.append(b[2] * self.nv + b[1])
        return 4

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def layout(vc, nv):
    """for any number of points: the k-th sample written is sample k // nv of variable k % nv (interleaved), or the whole
    variables one after the other (fast access)"""
    if not vc.symbolic:
        return vc.assume(False)
    W = vc.mod('raw.raw_write')
    E = core.eng()
    n = vc.int('points', 1)
    fast = vc.choice('fast', [False, True])
    w = W.RawWrite(plot_name='Transient Analysis', fastacces=fast, numtype=vc.choice('numtype', ['real', 'complex', 'double']))
    w._traces = [_Trace(v, n) for v in range(nv)]
    out = E.fresh_seq(IntK, 'written', n=0)
    f = _File(nv, out)
    vc.stub(open, 'open', lambda *a, **k: f)

    def inv(L, i):
        return {'count': out.len_() == i * nv, 'order': Forall(0, i * nv, lambda k: out.at(k) == k)}

    def havoc(E, L):
        out.arr, out.n = E.fresh_seq(IntK, 'written').arr, E.fresh_int('n')
        return [out]
    vc.loop('raw.raw_write:RawWrite.save#2', inv, havoc=havoc)
    w.save('/nowhere/x.raw')
    if fast:
        vc.check('fast access: the variables are written whole and in order', f.cols == list(range(nv)))
        vc.check('fast access: nothing else is written', out.len_() == 0)
    else:
        vc.check('interleaved: every sample is written once', out.len_() == n * nv)
        vc.check('interleaved: point by point, variables in order', Forall(0, n * nv, lambda k: out.at(k) == k))
        vc.check('interleaved: nothing is written whole', f.cols == [])


for _nv in (1, 2, 3):
    prove('C01', f'order of the samples in the file, any number of points, {_nv} variable{"s" if _nv > 1 else ""}',
          ['raw.raw_write:RawWrite.save'], conc=0, internal=True)(lambda vc, k=_nv: layout(vc, k))


class _Stop(Exception):
    pass


@prove('C01', 'the header: plot name, flags, counts, and one line for each variable, in order, with its number, name and kind',
       ['raw.raw_write:RawWrite.save', 'raw.raw_write:RawWrite._str_flags'], internal=True, conc=0)
def header(vc):
    """any number of variables of any names and kinds, any number of points"""
    if not vc.symbolic:
        return vc.assume(False)
    W = vc.mod('raw.raw_write')
    enc = vc.choice('encoding', ['utf_16_le', 'utf_8'])
    points = vc.int('points', 1)

    def make(n):
        t = W.Trace.__new__(W.Trace)
        t.name, t.whattype, t.data = f"{vc.str(n + ' name')}", f"{vc.str(n + ' kind')}", _Data(0, points)
        return t
    rows = Rows(vc, 'variables', make)
    vc.assume(rows.n >= 1)
    flags = {n: vc.choice(n, [False, True]) for n in ('forward', 'log', 'stepped', 'fastaccess')}
    w = W.RawWrite(plot_name=f"{vc.str('plot')}", fastacces=flags['fastaccess'], numtype=f"{vc.str('numtype')}", encoding=enc)
    w.flag_forward, w.flag_log, w.flag_stepped = flags['forward'], flags['log'], flags['stepped']
    w._traces = rows
    out = Sections(vc)
    opened = []

    class F:
        def write(self, b):
            if not isinstance(b, bytes):
                raise core.Unsupported('something else is written')
            t = b.decode(enc)
            out.write(t)
            if out.text.endswith('Binary:\n'):
                raise _Stop
            return len(b)

        def close(self):
            pass
        __enter__ = lambda self: self
        __exit__ = lambda self, *a: False
    vc.stub(open, 'open', lambda *a, **k: opened.append(a) or F())
    seen = {}

    def start():
        lines = out.text.split('\n')
        kv = dict(l.split(':', 1) for l in lines if l)
        seen.update(kv)
        return out.text if lines[-2:] == ['Variables:', ''] else None

    def before():
        t = start()
        if t is None:
            return 'Variables:\n'
        return t

    def line(t):
        i = out.k['raw.raw_write:RawWrite.save#0']
        return f'\t{i}\t{t.name}\t{t.whattype}\n'
    out.loop('raw.raw_write:RawWrite.save#0', rows, before, line)
    try:
        w.save('x.raw')
        return vc.check('the samples follow', False)
    except _Stop:
        pass
    vc.check('the samples follow the variables', out.text == 'Binary:\n')
    vc.check('the file that was asked for', opened == [('x.raw', 'wb')])
    names = ['forward', 'log', 'stepped', 'fastaccess']
    vc.check('the plot name', same_text(vc, seen['Plotname'], f' {w.plot_name}'))
    vc.check('the flags', same_text(vc, seen['Flags'], ' ' + ' '.join([w.flag_numtype] + [n for n in names if flags[n]])))
    vc.check('the number of variables', same_text(vc, seen['No. Variables'].strip(), f'{rows.n}'))
    tok = TOKEN.split(seen['No. Points'].strip())
    n = vc.E.untoken(tok[1]) if len(tok) == 3 and tok[0] == tok[2] == '' else None
    if n is None or not n[1].rstrip('d').lstrip('<>').isdigit() and n[1] not in ('', 'd'):
        raise core.Unsupported('the number of points is written in another way')
    vc.check('the number of points', n[0] == points)
    vc.check('the first line tells the encoding', list(seen)[0] == 'Title')
    vc.check('the dialect', 'ltspice' in seen['Command'].lower())


class _Run:
    """characters of one line of a file, from its start on"""

    def __init__(self, text, n):
        self.text, self.n = text, n

    def __add__(self, ch):
        if not isinstance(ch, _Char):
            raise core.Unsupported('something else is added to a line')
        self.text.vc.check('characters are joined in the order of the file', ch.n == self.n)
        return _Run(self.text, self.n + 1)

    __iadd__ = __add__

    def decode(self, encoding='utf-8', errors='strict'):
        self.text.vc.check('a line is decoded in the encoding of the file', encoding == self.text.enc)
        self.text.vc.check('a whole line is decoded', self.n == self.text.n)
        return self.text.text


class _Char:
    def __init__(self, text, n):
        self.text, self.n = text, n

    def __len__(self):
        return 1

    def __eq__(self, o):
        return False

    __hash__ = None

    def __radd__(self, o):
        if o != b'':
            raise core.Unsupported('something else is joined to a character')
        self.text.vc.check('characters are joined in the order of the file', self.n == 0)
        return _Run(self.text, 1)


class _Header(Grown):
    """the lines of the header read so far"""

    def __init__(self, stop):
        Grown.__init__(self)
        self.stop = stop

    def __iter__(self):
        return self.stop(self)

    def new(self):
        return list(list.__iter__(self))


class _Infos(Grown):
    def __iter__(self):
        raise _Stop

    def new(self):
        return list(list.__iter__(self))


PARAMS = ['Title: * t', 'Date: Mon Jan 1', 'Plotname: {plot}', 'Flags: {flags}', 'No. Variables: {nv}', 'No. Points: {np}', 'Offset:   0.0000000000000000e+00',
          'Command: {command}', 'Variables:']


def reading(vc, then):
    """PlotData.__init__ on a file; `then(header)` is what comes after the header was split into lines"""
    P = vc.mod('raw.plot_data')
    enc = vc.choice('encoding', ['utf_8', 'utf_16_le'])
    text = vc.choice('the line', ['Binary:', 'Values:', 'other', 'empty'])
    cr = vc.choice('its end', ['', '\r'])
    line = type('Line', (), {})()
    line.plain = {'other': f"{vc.str('text')}", 'empty': ''}.get(text, text)
    line.text, line.enc, line.n = line.plain + cr, enc, vc.int('characters', 0)
    vc.assume(Iff(line.n == 0, line.text == ''))
    line.vc = vc
    st = type('State', (), {'pos': None, 'event': None})()
    end = vc.int('position after the header')
    start = vc.int('position of the header', 0)
    vc.stub(P.get_remaining_bytes, 'get_remaining_bytes: at least the fewest', lambda f: P.MIN_BYTES_IN_FILE)
    vc.stub(P.raw_detect_encoding, 'raw_detect_encoding: the encoding of the file', lambda f, o=0: enc)
    given = vc.choice('the encoding is given', [True, False])

    class F:
        def read(self, n):
            vc.check('one character is read at a time', n == (2 if enc == 'utf_16_le' else 1))
            if st.pos is None or st.event:
                raise core.Unsupported('reads more than a character in each step')
            if vc.bool('end of the file'):
                st.event = 'eof'
                return b''
            if st.pos == line.n:
                st.event = 'nl'
                return '\n'.encode(enc)
            st.event = 'char'
            return _Char(line, st.pos)

        def tell(self):
            return start if st.event is None else end

        def seek(self, *a):
            raise core.Unsupported('moves in the file')
    header = _Header(then)

    def inv(L, i=None):
        if st.pos is None:
            return {'no line at first': L.self.header == [], 'no characters at first': L.line == b'', 'no data known': L.self._raw_type is None}
        if st.event == 'nl':
            return {'the line is kept, without its end': L.self.header is header and same_list(vc, header.new(), [line.plain]),
                    'the next line starts empty': L.line == b'',
                    'data is announced by a line of its own': L.self._raw_type is None and text in ('other', 'empty')}
        if st.event == 'char':
            return {'the character is joined': isinstance(L.line, _Run) and L.line.n == st.pos + 1,
                    'no line is made of a part': L.self.header is header and header.new() == []}
        return []

    def havoc(E_, L):
        L.self.header = header
        at()
        return [L.self, L.self.header]

    def at():
        if st.pos is None:
            st.pos = vc.int('characters read', 0)
            vc.assume(st.pos <= line.n)

    def runs(E_, old, L):
        at()
        return b'' if st.pos == 0 else _Run(line, st.pos)
    vc.loop('raw.plot_data:PlotData.__init__#0', inv, havoc=havoc, havoc_vals={'line': runs})
    return P, F(), enc if given else '', header, line, text, st, start, end


def same_list(vc, a, b):
    if len(a) != len(b):
        return False
    return And(*[same_text(vc, x, y) for x, y in zip(a, b)]) if a else True


@prove('C01', 'the header is read line by line up to the line that announces the data, for any text', ['raw.plot_data:PlotData.__init__'], internal=True, conc=0)
def split(vc):
    """a file of any number of lines of any length, ended by a line feed, with or without a carriage return"""
    if not vc.symbolic:
        return vc.assume(False)

    def stop(header):
        raise _Stop
    P, f, enc, header, line, text, st, start, end = reading(vc, stop)
    p = P.PlotData.__new__(P.PlotData)
    try:
        P.PlotData.__init__(p, f, _Path(), 1, enc, None, False)
        vc.check('nothing is read of a header without data', And(st.event == 'eof', p._raw_type is None))
        return
    except _Stop:
        pass
    vc.check('the data starts after the line that announces it', And(st.event == 'nl', text in ('Binary:', 'Values:')))
    vc.check('the line that announces the data is the last of the header', same_list(vc, header.new(), [line.plain]))
    vc.check('the kind of the data', p._raw_type == line.plain.lower())
    vc.check('where the header was', p._fpos_header == start)
    vc.check('where the data starts', p._fpos_data == end)


class _Path:
    def as_posix(self):
        return 'x.raw'


@prove('C01', 'each variable of the header is read with its name, its kind and its type, in order', ['raw.plot_data:PlotData.__init__'], internal=True, conc=0)
def variables(vc):
    """any number of variables of any names and kinds, any number of points"""
    if not vc.symbolic:
        return vc.assume(False)
    plot = vc.choice('plot', ['Transient Analysis', 'AC Analysis', 'Operating Point', 'Noise Spectral Density'])
    flags = vc.choice('flags', ['real forward', 'complex forward log', 'real double', 'real'])
    command = vc.choice('command', ['Linear Technology Corporation LTspice XVII', 'QSPICE64', 'ngspice-44', 'Xyce'])
    nv, np_ = vc.int('number of variables', 1), vc.int('number of points', 1)
    lines = [l.format(plot=plot, flags=flags, nv=f'{nv}', np=f'{np_}', command=command) for l in PARAMS]
    indent = vc.choice('indent', ['\t', ' ', '\t\t'])
    more = vc.choice('more', ['', '\tindex=1'])
    info = {}

    def make(n):
        name, kind = f"{vc.str(n + ' name')}", f"{vc.str(n + ' kind')}"
        l = f"{indent}{vc.int(n + ' number')}\t{name}\t{kind}{more}"
        info[l] = (name, kind)
        return l
    rows = Rows(vc, 'variables', make)
    vc.assume(rows.n == nv)
    P = vc.mod('raw.plot_data')

    class H(list):
        """a header: its first lines, the lines of the variables, and the line that announces the data"""

        def __iter__(self):
            yield from lines
            raise core.Unsupported('the lines of the variables are read in another way')

        def index(self, l, *a):
            return lines.index(l, *a)

        def __getitem__(self, k):
            if isinstance(k, slice) and (k.start, k.stop, k.step) == (len(lines), -1, None):
                return rows
            raise core.Unsupported('the lines of the header are taken in another way')

        def __len__(self):
            raise core.Unsupported('the number of lines of the header')

        def append(self, l):
            vc.check('the header ends where the data is announced', l == 'Binary:')

    class F:
        def tell(self):
            return 0

        def read(self, n):
            return b'\n'
    vc.stub(P.get_remaining_bytes, 'get_remaining_bytes: at least the fewest', lambda f: P.MIN_BYTES_IN_FILE)
    infos = _Infos()
    st = type('State', (), {'i': None})()

    def havoc0(E_, L):
        L.self.header = H()
        return [L.self]

    complex_ = 'complex' in flags or plot == 'AC Analysis'
    double = not command.startswith('Linear') or 'double' in flags
    TYPES = ('complex', 'complex') if complex_ else ('d', 'd') if double else ('d', 'f')
    if complex_ and command.startswith('QSPICE'):
        TYPES = ('d', 'complex')

    def inv(L, i):
        if L.seq is not rows:
            raise core.Unsupported('a loop over something else')
        if st.i is None:
            return {'none before': len(L.self._trace_info) == 0}
        if L.self._trace_info is not infos:
            raise core.Unsupported('the variables are kept in another way')
        new = infos.new()
        if not new and st.i == 'at':
            st.i = i
            return {'each line makes one': L.ivar == i}
        name, kind = info[rows.at(st.i)]
        ok = len(new) == 1
        return {'each line makes one': And(ok, L.ivar == i),
                'the name': ok and same_text(vc, new[0].name, name), 'the kind': ok and same_text(vc, new[0].var_type, kind),
                'the type of the first': Implies(st.i == 0, ok and new[0].dtype == TYPES[0]),
                'the type of the others': Implies(st.i != 0, ok and new[0].dtype == TYPES[1])}

    def havoc(E_, L):
        L.self._trace_info = infos
        st.i = 'at'
        return [L.self, L.self._trace_info]
    vc.loop('raw.plot_data:PlotData.__init__#2', inv, havoc=havoc)
    vc.loop('raw.plot_data:PlotData.__init__#0', lambda L, i=None: [], havoc=havoc0, havoc_vals={'line': lambda E_, old, L: b'Binary:'})
    p = P.PlotData.__new__(P.PlotData)
    try:
        P.PlotData.__init__(p, F(), _Path(), 1, 'utf_8', None, False)
        raise core.Unsupported('the variables are not used')
    except _Stop:
        pass
    vc.check('the number of points', p._nPoints == np_)
    vc.check('the number of variables', p._nVariables == nv)
    vc.check('the plot name', p._raw_params['Plotname'] == plot)
    vc.check('the flags', p._flags == flags.split())
    vc.check('whether there is an axis', p._has_axis == (plot != 'Operating Point'))
    vc.check('the dialect', p._dialect in command.lower())


def f32(a):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return np.asarray(a).astype(np.float32)


@bounded('C01', 'write and read back', ['raw.raw_write:RawWrite.save', 'raw.raw_write:RawWrite.add_trace', 'raw.raw_write:Trace.__init__',
                                        'raw.plot_data:PlotData.__init__', 'raw.plot_data:PlotData.read_trace_data',
                                        'raw.raw_read:RawRead.__init__'])
def roundtrip(bx):
    W, R = bx.mod('raw.raw_write'), bx.mod('raw.raw_read')
    d = bx.dir()
    for r in bx.each(1500, 15000):
        kind = r.choice(['tran', 'tran', 'ac', 'dc', 'op', 'noise', 'tf'])
        n = r.choice([1, 2, 3, 5, 8, 17, 64]) if kind not in ('op', 'tf') else r.choice([1, 1, 2, 3])
        nv = r.choice([1, 2, 3, 4, 7, 13])
        fast = r.random() < .5
        enc = r.choice(['utf_16_le', 'utf_8'])
        cplx = kind == 'ac'
        names, types = rawgen.names_for(r, nv, kind)
        numtype = r.choice(['auto', 'auto', 'double'])
        if kind == 'op':
            types[0] = r.choice(['voltage', 'param'])
            names[0] = 'p1' if types[0] == 'param' else names[0]
        if kind == 'tf':
            types[0] = 'param'
        if cplx:
            numtype = r.choice(['auto', 'complex'])
        plot = rawgen.PLOTS[kind]
        give_plot = {'op': types[0] != 'param', 'tf': True}.get(kind, r.random() < .4)
        w = W.RawWrite(plot_name=plot if give_plot else None, fastacces=fast, numtype=numtype, encoding=enc)
        data = [rawgen.axis(r, n) if kind in ('tran', 'ac', 'noise', 'dc') else rawgen.samples(r, n)]
        if kind == 'dc' and r.random() < .3:
            data[0] = data[0][::-1].copy()
        data += [rawgen.samples(r, n, cplx) for _ in range(nv - 1)]
        for i, (nm, ty, c) in enumerate(zip(names, types, data)):
            form = r.choice(['array', 'list'])
            v = c if form == 'array' else c.tolist()
            kw = {}
            if nm == 'frequency':
                kw['numerical_type'] = 'complex' if cplx and (numtype != 'complex' or r.random() < .5) else 'double'
            elif kind == 'tran' and nm == 'time' and r.random() < .5:
                pass
            elif i == 0:
                kw['numerical_type'] = 'double'
            elif cplx:
                kw = {'numerical_type': 'complex'} if r.random() < .5 else {}
                v = c if kw else c.tolist()
            elif numtype == 'double':
                kw['numerical_type'] = 'double'
            v = v.copy()
            w.add_trace(W.Trace(nm, v, whattype=ty, **kw))
            if isinstance(v, np.ndarray):
                v[:] = -7   # the caller uses the same buffer again
            else:
                v[0] = -7
        f = os.path.join(d, 'x.raw')
        w.save(f)
        case = (kind, nv, n, fast, enc, numtype, names)
        for lazy in (None, '*'):
            raw = R.RawRead(f, traces_to_read=lazy, verbose=False)
            bx.check(raw.get_trace_names() == names, 'variable names and order', (case, raw.get_trace_names()))
            bx.check(raw.get_plot_name() == w.plot_name and raw.get_plot_name() == plot, 'plot name', (case, raw.get_plot_name()))
            bx.check(raw.nPoints == n and raw.nVariables == nv, 'point and variable count', (case, raw.nPoints, raw.nVariables))
            if kind not in ('op', 'tf'):
                bx.check(len(raw.get_axis()) == n and np.array_equal(np.real(raw.get_axis()), np.real(data[0])), 'the axis', case)
            for i, (nm, ty, c) in enumerate(zip(names, types, data)):
                t = raw.get_trace(nm)
                bx.check(t.whattype == ty and t.name == nm, 'kind of the variable', (case, nm, t.whattype))
                g = np.array(raw.get_wave(nm))
                bx.check(len(g) == n, 'number of samples', (case, nm, len(g)))
                if i == 0 or numtype == 'double' or cplx:
                    ok = np.array_equal(g, c)
                else:
                    ok = np.array_equal(f32(g), f32(c))
                bx.check(ok, 'samples', (case, nm, list(g[:5]), list(c[:5])))
        # saving again in the other layout gives the same data, and the writer still has what was added
        w.flag_fastaccess = not fast
        w.save(f)
        raw2 = R.RawRead(f, verbose=False)
        for nm in names:
            bx.check(np.array_equal(raw2.get_wave(nm), raw.get_wave(nm)), 'both layouts hold the same samples', (case, nm))
        bx.done(case)
