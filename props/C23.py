"""C23: text files are decoded with an encoding that reads them, and found where they are."""
import codecs
import itertools
import os
import random
import re
import zipfile

import z3

from pyvc import core
from pyvc.api import *
from pyvc.core import SymBase, wrap, eng

D = 'utils.detect_encoding'
S = 'utils.file_search'
ASSUMPTIONS = ["decoding is Python's: in the proof a file is what each encoding makes of it (unreadable, or a text with a length, a second character and a verdict "
               "of the pattern); real codecs are exercised by the bounded harnesses",
               "re.match is Python's and gives the same verdict on the same text",
               "os.walk lists every file below a directory, os.path.exists tells what exists, zipfile lists and extracts members (bounded harness: the real ones)",
               "the search in a list of paths is proved for up to 4 paths (each with any number of files); the search in one directory and in one zip file has no bound"]

CANDIDATES = ('utf-8', 'utf-16', 'windows-1252', 'cp1250', 'shift_jis')
NORM = {'cp1252': 'windows-1252', 'utf_16_le': 'utf-16', 'utf-16-le': 'utf-16', 'utf_8': 'utf-8', 'utf8': 'utf-8', 'utf_8_sig': 'utf-8-sig'}


# ---------------------------------------------------------------------------------------------------------------
# detect_encoding

class Text(SymBase):
    """what an encoding makes of the file: length > 0, second character and the verdict of the pattern are unknown"""

    def __init__(self, matches, second):
        self.matches, self.second = matches, second

    def len_(self):
        return 2 if self.second else 0

    def __bool__(self):
        return bool(self.second)

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start == 1 and k.stop == 2:
            return self.second
        if k == 1 and self.second:
            return self.second
        raise core.Unsupported("another part of the text")

    def __eq__(self, o):
        if o == '':
            return not self.second
        raise core.Unsupported("comparison of the text")

    __hash__ = None


@prove('C23', 'the encoding of a file', [D + ':detect_encoding'])
def detect(vc):
    """the encoding returned reads the whole file as a text that is not empty and matches the pattern; UTF-16 needs its mark or a null second
    byte; UTF-8 is preferred; the documented error is raised only when no candidate will do"""
    if not vc.symbolic:
        return detect_real(vc)
    M = vc.mod(D)
    start = vc.choice('first bytes', [b'', b'V', b'Ve', b'V\0', codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE, codecs.BOM_UTF8, b'\xef\xbb'])
    pattern = vc.choice('pattern', ['', '^x'])
    E = eng()
    empty = start == b''
    out, bad_kind = {}, []

    def outcome(enc):
        enc = NORM.get(enc.lower(), enc.lower())
        if enc not in out:
            if empty:
                o = 'empty'
            elif enc == 'utf-8' and start in (codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE):
                o = 'unreadable'  # neither is UTF-8
            elif enc == 'utf-8-sig' and start != codecs.BOM_UTF8:
                o = outcome('utf-8')  # the same thing without the mark
            elif bool(E.fresh_bool('readable as ' + enc)):
                o = 'good' if not pattern or bool(E.fresh_bool('matches as ' + enc)) else 'no match'
                if start == b'V\0' and enc in ('utf-8', 'utf-8-sig'):
                    o = 'null'
            else:
                o = 'unreadable'
            out[enc] = o
        return out[enc]

    class File(SymBase):
        def __init__(self, enc):
            self.enc = enc

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

        def seek(self, n):
            pass

        def read(self, n=None):
            if self.enc is None:
                if n is None or n > 3:
                    raise core.Unsupported("reads the bytes of the file")
                return start[:n]
            if n is not None:
                raise core.Unsupported("reads a part of the text")
            o = outcome(self.enc)
            if o == 'unreadable':
                if not bad_kind:
                    bad_kind.append(bool(E.fresh_bool('a decoding error')))
                if bad_kind[0]:
                    raise UnicodeDecodeError(self.enc, b'', 0, 1, 'x')
                raise UnicodeError("UTF-16 stream does not start with BOM")
            return Text(o == 'good' or o == 'null', '' if o == 'empty' else '\0' if o == 'null' else 'x')

    def open_(path, mode='r', *a, encoding=None, **k):
        if a or k or path != 'the file' or mode not in ('r', 'rb', 'rt'):
            raise core.Unsupported("open of something else")
        if mode == 'rb':
            return File(None)
        return File(encoding)

    class Re:
        def __getattr__(self, n):
            return getattr(re, n)

        def match(self, p, text, flags=0):
            if p != pattern or not isinstance(text, Text):
                raise core.Unsupported("another match")
            return text.matches or None
    M.re = Re()
    M.open = open_
    try:
        got, exc = vc.raises(lambda: M.detect_encoding('the file', pattern), M.EncodingDetectError)
    finally:
        del M.open
    u16 = start in (codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE, b'V\0')
    eligible = [c for c in CANDIDATES if c != 'utf-16' or u16]
    vc.check('whichever error', exc is None or isinstance(exc, M.EncodingDetectError))
    if exc is None:
        g = NORM.get(got.lower(), got.lower())
        vc.check('it reads the file and what is read is not empty and matches', outcome(g) == 'good')
        vc.check('UTF-16 only with its mark or a null second byte', u16 or not g.startswith('utf-16'))
        if g not in ('utf-8', 'utf-8-sig'):
            vc.check('UTF-8 is preferred', outcome('utf-8') != 'good')
        if u16 and g != 'utf-16' and g != 'utf-8':
            vc.check('then UTF-16', outcome('utf-16') != 'good')
        vc.check('a mark is not part of the text', g != 'utf-8' or start != codecs.BOM_UTF8 or outcome('utf-8-sig') != 'good')
    else:
        vc.check('no candidate will do', all(outcome(c) != 'good' for c in eligible))


ALPHABET = 'aVR1.* =+-_()\tµΩé°ü€'
CP = 'aVR1.* =+-_()\tµé°ü€'


def sample(rng, enc, first):
    """a text of a few lines, with a letter that is not ASCII now and then"""
    alpha = (CP if enc == 'cp1252' else ALPHABET)
    k = rng.choice([0, 3, 20, 400])
    body = ''.join(rng.choice(alpha if rng.random() < .5 else alpha[:12]) if rng.random() > .1 else '\n' for _ in range(k))
    if rng.random() < .08:      # a long file; what tells the encodings apart comes late
        body = ('R1 in out 10k ; a line of the file\n' * rng.choice([30, 130, 300, 700])) + body
    return first + body


ENC = ['ascii', 'utf-8', 'utf-8-sig', 'utf-16', 'utf-16-be', 'utf-16-le', 'cp1252']


def encode(text, enc):
    if enc == 'ascii':
        return ''.join(c for c in text if ord(c) < 128).encode('ascii')
    if enc == 'utf-16':
        return codecs.BOM_UTF16_LE + text.encode('utf-16-le')
    if enc == 'utf-16-be':
        return codecs.BOM_UTF16_BE + text.encode('utf-16-be')
    return text.encode(enc)


def detect_real(vc):
    import tempfile
    M = vc.mod(D)
    rng = random.Random(vc.int('seed', 0, 10 ** 9))
    with tempfile.TemporaryDirectory() as tmp:
        encoding_case(rng, M, os.path.join(tmp, 'f'), lambda c, w, d=None: vc.check(w, c))


def encoding_case(rng, M, path, check):
    enc = rng.choice(ENC)
    first = rng.choice(['Version 4\n', '* title\n', 'Circuit: x\n', 'V', 'a', 'R1'])
    text = sample(rng, enc, first)
    data = encode(text, enc)
    if enc == 'ascii':
        text = data.decode()
    with open(path, 'wb') as f:
        f.write(data)
    pattern, flags = rng.choice([('', 0), (re.escape(first[:3]), 0), (re.escape(first.upper()[:3]), re.IGNORECASE), ('nothing of it', 0)])
    try:
        got = M.detect_encoding(path, pattern, flags)
    except M.EncodingDetectError:
        check(pattern == 'nothing of it', "a readable file is refused", dict(text=text[:60], encoding=enc, pattern=pattern, data=data[:80].hex()))
        return enc, text
    check(pattern != 'nothing of it', "the pattern is not in the text", dict(text=text[:60], got=got))
    try:
        with open(path, encoding=got, newline='') as f:
            back = f.read()
    except UnicodeError as e:
        check(False, "the encoding does not read the file", dict(text=text[:60], encoding=enc, got=got, error=str(e)))
        return enc, text
    if enc == 'cp1252':
        try:
            data.decode('utf-8')
            return enc, text  # also valid UTF-8
        except UnicodeDecodeError:
            pass
    check(back == text, "the text read is not the text of the file", dict(text=text[:80], back=back[:80], encoding=enc, got=got))
    return enc, text


@bounded('C23', 'files in every encoding are read as they were written', [D + ':detect_encoding'])
def encodings(bx):
    M = bx.mod(D)
    d = bx.dir()
    for rng in bx.each(400, 6000):
        encoding_case(rng, M, os.path.join(d, 'f'), bx.check)
        bx.done('text')
        # bytes of no particular encoding: what is returned reads them, an error says that nothing does
        k = rng.choice([0, 1, 2, 3, 5, 40])
        data = rng.choice([b'', codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE, codecs.BOM_UTF8, b'V\0', b'\0V']) + bytes(
            rng.choice(b'\x81\x8d\x90\x83\x98 aA\0\n\xff\xfe\xe9') for _ in range(k))
        if rng.random() < .1:
            data = b'V a line of text\n' * rng.choice([100, 600, 2000]) + data[-3:]
        p = os.path.join(d, 'g')
        with open(p, 'wb') as f:
            f.write(data)
        pattern = rng.choice(['', 'a', '.?V', r'[\s\S]'])
        try:
            got = M.detect_encoding(p, pattern)
        except M.EncodingDetectError:
            for c in ('utf-8', 'windows-1252', 'cp1250', 'shift_jis'):
                try:
                    t = data.decode(c)
                except UnicodeError:
                    continue
                bx.check(not t or (pattern and not re.match(pattern, t)) or (c == 'utf-8' and t[1:2] == '\0'), "a candidate reads the file", dict(data=data[:100].hex(), size=len(data), end=data[-20:].hex(), encoding=c, pattern=pattern))
        else:
            try:
                with open(p, encoding=got) as f:
                    t = f.read()
            except UnicodeError as e:
                bx.fail("the encoding does not read the file", dict(data=data[:100].hex(), size=len(data), end=data[-20:].hex(), got=got, error=str(e)))
                continue
            bx.check(t and (not pattern or re.match(pattern, t)), "what is read is empty or has not the pattern", dict(data=data[:100].hex(), size=len(data), end=data[-20:].hex(), got=got, pattern=pattern))
        bx.done('bytes')


NET = "* {t}\nR1 in out {v}\nC1 out 0 10n\nV1 in 0 1\n.param gain={g}\n* caf\u00e9 10\u00b5\n.tran 1m\n.end\n"
ASC = ("Version 4\nSHEET 1 880 680\nWIRE 0 0 64 0\nFLAG 64 0 out\nSYMBOL res 16 32 R0\nSYMATTR InstName R1\nSYMATTR Value {v}\n"
       "TEXT 0 200 Left 2 !.param gain={g}\nTEXT 0 300 Left 2 ;caf\u00e9 10\u00b5\n")
ASY = "Version 4\nSymbolType CELL\nLINE Normal 0 0 16 16\nWINDOW 0 8 8 Left 2\nSYMATTR Value {v}\nSYMATTR Description caf\u00e9\nPIN 0 0 NONE 8\nPINATTR PinName {t}\nPINATTR SpiceOrder 1\n"
LOG = "Circuit: * {t}\ncaf\u00e9\n\ngain: v(out)={g}\nDate: x\n"
EXPORT = "time\tV({t})\n0\t{g}\n1\t{g}\n"
LIB = "* lib caf\u00e9\n.subckt {t} a b\nR1 a b {v}\n.ends\n"


@bounded('C23', 'every reader reads a file the same in every encoding',
         ['editor.spice_editor:SpiceEditor.__init__', 'editor.asc_editor:AscEditor.__init__', 'editor.asy_reader:AsyReader.__init__',
          'log.ltsteps:LTSpiceLogReader.__init__', 'log.ltsteps:LTSpiceExport.__init__', 'editor.spice_subcircuit:SpiceCircuit.find_subckt_in_lib'])
def readers(bx):
    SE, AE, AR, L = bx.mod('editor.spice_editor'), bx.mod('editor.asc_editor'), bx.mod('editor.asy_reader'), bx.mod('log.ltsteps')
    SC = bx.mod('editor.spice_subcircuit')
    d = bx.dir()
    for rng in bx.each(60, 900):
        kw = dict(t=rng.choice(['abc', 'In', 'x\u00b5y', 'sub1']), v=rng.choice(['1k', '{gain}', '4.7', '10Meg']), g=rng.choice(['2.5', '1e-3', '100']))
        enc = rng.choice([e for e in ENC if e != 'ascii'])
        nl = rng.choice(['\n', '\r\n'])
        det = dict(encoding=enc, newline=repr(nl), **kw)

        def put(name, text):
            p = os.path.join(d, name)
            with open(p, 'wb') as f:
                f.write(encode(text.format(**kw).replace('\n', nl), enc))
            return p
        try:
            n = SE.SpiceEditor(put('a.net', NET))
            bx.check(n.get_component_value('R1') == kw['v'] and n.get_parameter('gain') == kw['g'] and n.get_components() == ['R1', 'C1', 'V1'],
                     "netlist", dict(det, got=[n.get_components(), n.get_component_value('R1')]))
            out = os.path.join(d, 'b.net')
            n.set_component_value('R1', '2k')
            n.save_netlist(out)
            with open(out, 'rb') as f:
                raw = f.read()
            m = SE.SpiceEditor(out)
            bx.check(m.get_component_value('R1') == '2k' and m.get_components() == ['R1', 'C1', 'V1'], "netlist saved", det)
            back = raw.decode(n.encoding).replace('\r\n', '\n')
            bx.check(back.lstrip('\ufeff') == NET.format(**dict(kw, v='2k')), "text saved", dict(det, back=back, enc2=n.encoding))
            with open(os.path.join(d, 'res.asy'), 'w') as f:
                f.write('Version 4\nSymbolType CELL\nSYMATTR Prefix R\nSYMATTR Value R\nPIN 16 16 NONE 0\nPINATTR PinName A\nPINATTR SpiceOrder 1\n')
            a = AE.AscEditor(put('a.asc', ASC))
            bx.check(a.get_component_value('R1') == kw['v'] and a.get_parameter('gain') == kw['g'] and a.get_components() == ['R1'], "schematic", det)
            bx.check(any('caf\u00e9 10\u00b5' in t.text for t in a.directives), "schematic comment", dict(det, got=[t.text for t in a.directives]))
            y = AR.AsyReader(put('a.asy', ASY))
            bx.check(y.attributes.get('Value') == kw['v'] and y.attributes.get('Description') == 'caf\u00e9' and len(y.pins) == 1, "symbol", dict(det, got=dict(y.attributes)))
            g = L.LTSpiceLogReader(put('a.log', LOG))
            bx.check(g.dataset.get('gain') == [float(kw['g'])], "log", dict(det, got=g.dataset))
            x = L.LTSpiceExport(put('a.txt', EXPORT))
            bx.check(x.dataset == {'time': [0, 1], f"v({kw['t'].lower()})": [float(kw['g'])] * 2}, "export", dict(det, got=x.dataset))
            s = SC.SpiceCircuit.find_subckt_in_lib(put('a.lib', LIB), kw['t'])
            bx.check(s is not None and s.get_component_value('R1') == kw['v'], "library", det)
        except Exception as e:
            import traceback
            bx.fail("a file is not read", dict(det, error=repr(e), where=traceback.format_exc()[-500:]))
        bx.done('files')


# ---------------------------------------------------------------------------------------------------------------
# file search

_low = z3.Function('lower of a name', core._valsort, core._valsort)
_root = z3.Function('folder', z3.IntSort(), core._valsort)
_nf = z3.Function('number of files', z3.IntSort(), z3.IntSort())
_file = z3.Function('file', z3.IntSort(), z3.IntSort(), core._valsort)


class Txt(SymBase):
    """a name: compared, and folded to lower case"""

    def __init__(self, e, tag=None):
        self.e, self.tag = e, tag

    def __eq__(self, o):
        if isinstance(o, Txt):
            return wrap(self.e == o.e)
        raise core.Unsupported("comparison with something else")

    def __ne__(self, o):
        return core.Not(self == o)

    __hash__ = SymBase.__hash__

    def lower(self):
        e = _low(self.e)
        eng().assume_z3(_low(e) == e)
        return Txt(e)

    casefold = lower

    def __str__(self):
        return 'a name'

    def __format__(self, spec):
        return 'a name'

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise core.Unsupported(f"str.{n} on a name")


class NameK(core.Kind):
    def __init__(self, tag):
        super().__init__('name', core._valsort)
        self.tag = tag

    def wrap(self, e):
        return Txt(e, self.tag)


class FolderK(core.Kind):
    """what os.walk gives: the folder, the folders in it and its files (any number)"""

    def __init__(self):
        super().__init__('folder', z3.IntSort())

    def wrap(self, e):
        e = z3.simplify(e)
        eng().assume_z3(_nf(e) >= 0)
        j = z3.Int('j!files')
        return (Txt(_root(e), ('folder', e)), [], core.SSeq(NameK(('file of', e)), wrap(_nf(e)), z3.Lambda([j], _file(e, j)), name='files'))


class FakeOs:
    """os.walk of any tree, and the parts of os.path used, as terms"""

    def __init__(self, vc, has_path, walked):
        self.path, self.has_path, self.walked = self, has_path, walked

    def split(self, f):
        if f == 'a name given':
            return 'its path' if self.has_path else '', self.name
        raise core.Unsupported("split of something else")

    def join(self, *a):
        return ('join',) + a

    def walk(self, top):
        self.top = top
        return self.walked

    curdir = '.'

    def __getattr__(self, n):
        raise core.Unsupported(f"os.{n}")


@prove('C23', 'the search of a directory', [S + ':find_file_in_directory'], internal=True, conc=0)
def directory(vc):
    """a file is returned iff there is one of that name (whatever the letter case) in the directory named or below; it is the first one"""
    if not vc.symbolic:
        return vc.assume(False)
    M = vc.mod(S)
    E = eng()
    has_path = vc.choice('path in the name', [False, True])
    n = vc.int('folders', 0)
    seq = core.SSeq(FolderK(), n, z3.Lambda([z3.Int('i!f')], z3.Int('i!f')), name='walk')
    fake = FakeOs(vc, has_path, seq)
    fake.name = Txt(z3.Const('the name', core._valsort))
    M.os = fake
    low = _low(fake.name.e)

    def none(i, nj):
        j = z3.Int('j!none')
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nj), _low(_file(i, j)) != low))

    def none_before(i):
        q, j = z3.Int('q!none'), z3.Int('j!none')
        return wrap(z3.ForAll([q, j], z3.Implies(z3.And(q >= 0, q < i, j >= 0, j < _nf(q)), _low(_file(q, j)) != low)))

    def t(i):
        return core.to_z3(i)
    cur = {}

    def inner(L, i):
        cur['i'] = L.root.tag[1]
        cur['j'] = i
        return [wrap(none(L.root.tag[1], t(i)))]
    vc.loop(f'{S}:find_file_in_directory#0', lambda L, i: [none_before(t(i))])
    vc.loop(f'{S}:find_file_in_directory#1', inner)
    got = M.find_file_in_directory('the directory', 'a name given')
    vc.check('the directory searched', fake.top == (('join', 'the directory', 'its path') if has_path else 'the directory'))
    if got is None:
        vc.check('nothing is found: no file has that name', none_before(t(n)))
    else:
        ok = isinstance(got, tuple) and got[0] == 'join' and len(got) == 3 and got[1].tag[0] == 'folder' and got[2].tag == ('file of', got[1].tag[1])
        vc.check('the path of a file that is there', ok)
        if ok:
            i = got[1].tag[1]
            vc.check('it has that name', wrap(_low(got[2].e) == low))
            vc.check('folders before have no such file', none_before(i))


class Zip(SymBase):
    def __init__(self, E, k):
        self.n = E.fresh_int('members')
        E.assume(self.n >= 0)
        self.seq = core.SSeq(NameK(('member', k)), self.n, E.fresh('members', z3.ArraySort(z3.IntSort(), core._valsort)), name='members')
        self.k = k

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def namelist(self):
        return self.seq

    def extract(self, f, path=None):
        return ('extracted', self.k, f, path)


class Container(str):
    """a path of the list (each one is its own)"""


@prove('C23', 'the search of a list of paths', [S + ':search_file_in_containers'], internal=True, conc=0)
def containers(vc):
    """the file is the one of the first path that has it, paths that do not exist are skipped; nothing is returned only when no path has it"""
    if not vc.symbolic:
        return vc.assume(False)
    M = vc.mod(S)
    E = eng()
    k = vc.choice('paths', [0, 1, 2, 3, 4])
    name = Txt(z3.Const('the name', core._valsort))
    low = _low(name.e)
    kinds, cs = [], []
    for i in range(k):
        kinds.append(vc.choice(f'path {i}', ['missing', 'zip', 'directory']))
        cs.append(f'/p{i}' + ('.zip' if kinds[i] == 'zip' else ''))
    has = [None] * k
    zips = {}
    made = []

    def number(p):
        if p not in cs:
            raise core.Unsupported("another path")
        return cs.index(p)

    def exists(p):
        if isinstance(p, str) and p in cs:
            return kinds[number(p)] != 'missing'
        return bool(made)  # the folder for what is extracted

    def find(d, f):
        i = number(d)
        if f is not name:
            raise core.Unsupported("search of another file")
        if kinds[i] != 'directory':
            vc.check('only directories are searched', False)
        has[i] = bool(E.fresh_bool('has it'))
        return ('found', i) if has[i] else None

    def member(z, upto):
        j = z3.Int('j!m')
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < core.to_z3(upto)), _low(z3.Select(z.seq.arr, j)) != low))

    class Zf:
        def ZipFile(self, p, mode='r', **k2):
            i = number(p)
            if kinds[i] != 'zip':
                vc.check('only zip files are opened', False)
            zips[i] = Zip(E, i)
            cur.append(zips[i])
            return zips[i]

    cur = []

    class Os(FakeOs):
        pass
    fake = Os(vc, False, None)
    fake.exists = exists
    fake.makedirs = lambda p, **kk: made.append(p)
    fake.isdir = lambda p: kinds[number(p)] == 'directory'
    M.os, M.zipfile = fake, Zf()
    vc.stub(M.find_file_in_directory, 'find_file_in_directory (its own contract)', find)
    vc.loop(f'{S}:search_file_in_containers#1', lambda L, i: [wrap(member(cur[-1], i))], havoc_vals={'filefound': lambda E, old, L: None})
    got = M.search_file_in_containers(name, *cs)

    def without(i):
        if kinds[i] == 'missing':
            return True
        if kinds[i] == 'directory':
            return has[i] is False
        return i in zips and wrap(member(zips[i], zips[i].n))
    if got is None:
        for i in range(k):
            vc.check('nothing found: no path has it', without(i))
        return
    ok = isinstance(got, tuple) and got[0] in ('found', 'extracted')
    vc.check('a file', ok)
    if ok:
        for i in range(got[1]):
            vc.check('the paths before have it not', without(i))
        if got[0] == 'found':
            vc.check('the file that is in the path', has[got[1]] is True)
        else:
            vc.check('a member of that name', And(got[2].tag == ('member', got[1]), wrap(_low(got[2].e) == low)))


def tree(rng, d, names, depth=0):
    """files below d -> list of (relative path, content)"""
    out = []
    os.makedirs(d, exist_ok=True)
    for _ in range(rng.choice([0, 1, 2, 3])):
        n = rng.choice(names)
        n = rng.choice([n, n.upper(), n.capitalize()])
        c = f"{d}/{n}/{rng.random()}"
        with open(os.path.join(d, n), 'w') as f:
            f.write(c)
        out.append((n, c))
    if depth < 3:
        for _ in range(rng.choice([0, 0, 1, 2])):
            s = rng.choice(['sub', 'sub', 'sym', 'Lib', 'x y', '_own', '.cache', 'v1.zip.d'])
            out += [(s + '/' + r, c) for r, c in tree(rng, os.path.join(d, s), names, depth + 1)]
    return list(dict(out).items())


@bounded('C23', 'files are found where they are', [S + ':find_file_in_directory', S + ':search_file_in_containers'])
def search(bx):
    M = bx.mod(S)
    home = os.getcwd()
    for rng in bx.each(300, 2500):
        d = bx.dir()
        os.chdir(d)
        try:
            names = rng.sample(['a.lib', 'b.asy', 'opamp.lib', 'amp.lib', 'a.lib.txt', 'noext', 'z.sub'], 3)
            paths, has = [], []
            kinds = rng.choice([['dir', 'dir', 'zip', 'missing', 'file']] * 3 + [['zip']])
            for i in range(rng.choice([1, 2, 3, 4])):
                kind = rng.choice(kinds)
                p = os.path.join(rng.choice(['.', d, '']), f'p{i}')
                if kind == 'dir':
                    has.append(tree(rng, p, names))
                elif kind == 'zip':
                    p += '.zip'
                    ms = []
                    with zipfile.ZipFile(p, 'w') as z:
                        for n in rng.sample(names, rng.choice([0, 1, 2] if len(kinds) > 1 else [1, 2, 3])):
                            n = rng.choice(['', '', 'sub/', 'sub/sym/']) + rng.choice([n, n.upper()])
                            c = f"{p}/{n}/{rng.random()}"
                            z.writestr(n, c)
                            ms.append((n, c))
                    has.append(ms)
                else:
                    if kind == 'file':
                        with open(p, 'w') as f:
                            f.write('x')
                    has.append([])
                paths.append((kind, p))
            want = rng.choice(names + names + ['other.lib', names[0][1:], names[0][2:], names[0][:-1], names[0] + 'x', 'lib'])
            want = rng.choice([want, want.upper()])
            folder = rng.choice(['', '', '', 'sub', 'Lib', 'sub/sub', 'sub/sym', 'Lib/sub'])
            ask = os.path.join(folder, want)
            det = dict(ask=ask, paths=paths, files=[[r for r, _ in h] for h in has])
            hits = []
            for (kind, p), h in zip(paths, has):
                if kind == 'zip':
                    hits.append([c for r, c in h if r.lower() == ask.lower()])
                else:
                    hits.append([c for r, c in h if r.split('/')[-1].lower() == want.lower() and (not folder or r.startswith(folder + '/'))])
            for order in ([1, -1] if len(paths) > 1 else [1]):       # a second search, the paths the other way round
                got = M.search_file_in_containers(ask, *[p for _, p in paths[::order]])
                first = next((x for x in hits[::order] if x), None)
                det['order'] = order
                if first is None:
                    bx.check(got is None, "found a file that is nowhere", dict(det, got=got))
                elif bx.check(got is not None and os.path.isfile(got), "a file that is there is not found", dict(det, got=got)):
                    with open(got) as f:
                        c = f.read()
                    bx.check(c in first, "another file was found", dict(det, got=got, content=c))
                    bx.check(os.path.basename(got).lower() == want.lower(), "another name", dict(det, got=got))
            # one directory
            for (kind, p), h, x in zip(paths, has, hits):
                if kind in ('dir', 'missing'):
                    g = M.find_file_in_directory(p, ask)
                    bx.check((g is None) == (not x), "the search of one directory", dict(det, directory=p, got=g))
                    if g is not None and bx.check(os.path.isfile(g), "not a file", dict(det, got=g)):
                        with open(g) as f:
                            bx.check(f.read() in x, "another file of the directory", dict(det, directory=p, got=g))
        finally:
            os.chdir(home)
        bx.done('search')
