"""C10 - an LTspice schematic is saved with everything it was loaded with."""
import copy
import io
import os
import re
from pyvc import core
from pyvc.api import *
from . import ascgen

M = 'editor.asc_editor'
L = 'editor.ltspice_utils'
ASSUMPTIONS = ["blanks around a text are not part of it; DATAFLAG placeholders are documented as ignored"]


@prove('C10', 'rotation and alignment codes survive reading and writing',
       [f'{L}:asc_text_align_set', f'{L}:asc_text_align_get'])
def codes(vc):
    U = vc.mod(L)
    B = vc.mod('editor.base_schematic')
    code = vc.choice('alignment', ascgen.ALIGN)
    lower = vc.choice('case', [False, True])
    x, y = vc.int('x'), vc.int('y')
    size = vc.int('size')
    t = B.Text(B.Point(x, y), 'text', size=size)
    # whatever the text carried before
    t.visible = vc.choice('visible', [True, False]) or not lower
    t = U.asc_text_align_set(t, code.lower() if lower else code)
    if 'Invisible' not in code and not t.visible:
        return vc.check('only invisible text is written as invisible', U.asc_text_align_get(t).endswith('Invisible'))
    vc.check('the alignment is written back', U.asc_text_align_get(t) == code)
    vc.check('nothing else changes', And(t.coord.X == x, t.coord.Y == y, t.size == size, t.text == 'text'))
    rot = vc.choice('rotation', ascgen.ROT)
    vc.check('the rotation is written back', U.ASC_INV_ROTATION_DICT[U.ASC_ROTATION_DICT[rot]] == rot)
    vc.check('every rotation is told apart', len({U.ASC_ROTATION_DICT[k] for k in ascgen.ROT}) == 8)


@prove('C10', 'a position set is the position read, on the component alone', ['editor.base_schematic:BaseSchematic.set_component_position',
                                                                             'editor.base_schematic:BaseSchematic.get_component_position'])
def position(vc):
    B = vc.mod('editor.base_schematic')
    ed = B.BaseSchematic.__new__(type('Ed', (B.BaseSchematic,), {m: (lambda *a: None) for m in B.BaseSchematic.__abstractmethods__}))
    x, y = vc.int('x'), vc.int('y')
    a, b = B.SchematicComponent(ed, ''), B.SchematicComponent(ed, '')
    ed.components = {'R1': a, 'R2': b}
    ed.canvas_updated = False
    b.position = B.Point(x, y)
    rot = vc.choice('rotation', [k for k in B.ERotation])
    u, v = vc.int('u'), vc.int('v')
    ed.set_component_position('R1', B.Point(u, v), rot)
    p, r = ed.get_component_position('R1')
    vc.check('position read', And(p.X == u, p.Y == v))
    vc.check('rotation read', r == rot)
    vc.check('the schematic counts as changed', ed.canvas_updated)
    vc.check('the other component stays', And(b.position.X == x, b.position.Y == y, b.rotation == B.ERotation.R0))


# ---------------------------------------------------------------------------------------------------------------

ENC = [('utf-8', b''), ('utf-16-le', b'\xff\xfe'), ('latin-1', b''), ('utf-8', b''), ('utf-16-le', b'')]


def put(r, path, text):
    enc, bom = r.choice(ENC)
    nl = r.choice(['\n', '\r\n'])
    with open(path, 'wb') as f:
        f.write(bom + text.replace('\n', nl).encode(enc))
    return enc


def reread(ed, path):
    raw = open(path, 'rb').read()
    t = raw.decode(ed.encoding)
    return t.lstrip('\ufeff')


def saved(ed, d, r, name='out.asc'):
    """the text of the schematic as saved"""
    p = os.path.join(d, name)
    if r.random() < .2:
        s = io.StringIO()
        ed.save_netlist(s)
        return s.getvalue()
    ed.save_netlist(p if r.random() < .5 else __import__('pathlib').Path(p))
    return reread(ed, p)


@bounded('C10', 'untouched schematics', [f'{M}:AscEditor.reset_netlist', f'{M}:AscEditor.save_netlist', f'{M}:AscEditor.save_as'])
def untouched(bx):
    E = bx.mod(M)
    d = bx.dir()
    ascgen.library(d)
    for r in bx.each(500, 8000):
        sh = ascgen.Sheet(r)
        text = sh.text(r)
        f = os.path.join(d, 'in.asc')
        put(r, f, text)
        ed = E.AscEditor(f)
        want = ascgen.canon(text)
        got = saved(ed, d, r)
        bx.check(ascgen.canon(got) == want, 'the schematic is saved with what it was loaded with', (text, got))
        if r.random() < .3:
            ed.reset_netlist()
            bx.check(saved(ed, d, r) == got, 'loading again changes nothing', (text,))
        g = os.path.join(d, 'again.asc')
        ed.save_as(g)
        ed2 = E.AscEditor(g)
        again = saved(ed2, d, r, 'out2.asc')
        bx.check(again == got, 'the saved schematic loads as the same', (text, got, again))
        bx.check(list(ed2.components) == list(ed.components) and len(ed2.ports) == sum(1 for x in sh.flags if x[3]),
                 'same components and ports', text)
        bx.done(text, nontrivial=bool(sh.syms or sh.wires))


def split_line(line):
    """settings of a SpiceLine: name -> text"""
    return {m.group(1): m.group(2) for m in re.finditer(r'(?:^|(?<=\s))([A-Za-z]\w*)\s*=\s*(\{[^}]*\}|"[^"]*"|\S+)', line)}


@bounded('C10', 'edited schematics', [f'{M}:AscComponent.set_value', f'{M}:AscComponent.set_parameters', f'{M}:AscEditor.set_component_attribute',
                                      f'{M}:AscEditor.set_parameter', f'{M}:AscEditor.remove_component', f'{M}:AscEditor.add_instruction',
                                      f'{M}:AscEditor.remove_instruction', 'editor.base_schematic:BaseSchematic.set_component_position'])
def edited(bx):
    E = bx.mod(M)
    B = bx.mod('editor.base_schematic')
    from spicelib.utils.float_unit import format_eng
    d = bx.dir()
    ascgen.library(d)
    for r in bx.each(800, 10000):
        sh = ascgen.Sheet(r)
        text = sh.text()
        f = os.path.join(d, 'in.asc')
        put(r, f, text)
        ed = E.AscEditor(f)
        log = [text]
        sub_edit = None
        for _ in range(r.randint(1, 8)):
            op = r.choice(['value', 'value', 'attr', 'param', 'pos', 'pos', 'sline', 'rem', 'add', 'del', 'reset', 'sub', 'remx', 'model'])
            s = r.choice(sh.syms) if sh.syms else None
            v = r.choice(['47k', '{x+1}', 2200, 0.5, 'AC 1 0', 1e-9])
            txt = v if isinstance(v, str) else format_eng(v)
            if op == 'value' and s and 'Value' in s.attrs:
                log.append((op, s.ref, v))
                how = r.randint(0, 3)
                if how == 0:
                    ed.set_component_value(s.ref, v)
                elif how == 1:
                    ed[s.ref].value = v
                elif how == 2:
                    ed[s.ref] = v
                else:
                    ed.set_component_values(**{s.ref: v})
                s.attrs['Value'] = txt
                if 'Value2' not in s.attrs:
                    bx.check(ed.get_component_value(s.ref) == txt, 'the value set is read', log)
            elif op == 'attr' and s:
                k = r.choice(['Mfg', 'Type', 'Description', 'NewOne'])
                t = r.choice(['some text', 'some text', ''])
                log.append((op, s.ref, k, t))
                ed.set_component_attribute(s.ref, k, t)
                s.attrs[k] = t
                bx.check(ed.get_component_attribute(s.ref, k) == t, 'the attribute set is read', log)
            elif op == 'model' and s and s.name != 'block':
                t = r.choice(ascgen.SYMS)
                log.append((op, s.ref, t))
                ed.set_element_model(s.ref, t)
                s.name = t
            elif op == 'param' and s:
                k = r.choice(['Value2', 'SpiceModel', 'SpiceLine', 'SpiceLine2'])
                t = {'SpiceLine': 'a=1 b=2', 'SpiceLine2': 'c=3'}.get(k, 'text 1')
                if r.random() < .3:
                    t = None
                log.append((op, s.ref, k, t))
                ed.set_component_parameters(s.ref, **{k: t})
                if t is None:
                    s.attrs.pop(k, None)
                else:
                    s.attrs[k] = t
            elif op == 'sline' and s:
                k = r.choice(['Rser', 'temp', 'tc', 'x', 'b', 'V', 'newone', 'Lser', 'mfg'])
                t = r.choice([v, v, v, None]) if not isinstance(v, str) or '{' in v else '{zz}'
                tt = None if t is None else t if isinstance(t, str) else format_eng(t)
                log.append((op, s.ref, k, t))
                before = {q: s.attrs.get(q, '') for q in ('SpiceLine', 'SpiceLine2')}
                if r.random() < .5 or t is None:
                    ed.set_component_parameters(s.ref, **{k: t})
                else:
                    ed[s.ref].set_parameter(k, t)
                hit = False
                for q in before:
                    now = ed[s.ref].attributes.get(q, '')
                    was, cur = split_line(before[q]), split_line(now)
                    if k in was:
                        hit = True
                        if tt is None:
                            was.pop(k)
                        else:
                            was[k] = tt
                    elif k in cur and q == 'SpiceLine':
                        was[k] = tt
                    bx.check(was == cur, 'one setting of the line changes and the others stay as written', (log, before, now))
                    if 'noiseless' in before[q]:
                        bx.check('noiseless' in now.split(), 'a keyword on the line stays', (log, before, now))
                    if now:
                        s.attrs[q] = now
                    else:
                        s.attrs.pop(q, None)
                if tt is not None:
                    bx.check(any(split_line(s.attrs.get(q, '')).get(k) == tt for q in before), 'the setting is on the line', (log, s.attrs))
            elif op == 'pos' and s:
                x, y, rot = ascgen.num(r), ascgen.num(r), r.choice(ascgen.ROT)
                log.append((op, s.ref, x, y, rot))
                ed.set_component_position(s.ref, B.Point(x, y), getattr(B.ERotation, rot))
                s.x, s.y, s.rot = x, y, rot
                p, q = ed.get_component_position(s.ref)
                bx.check((p.X, p.Y, q.name) == (x, y, rot), 'the position set is read', log)
                bx.check(ed.updated(), 'a moved component is a change', log)
            elif op == 'add':
                t = r.choice(['.save V(q)', '.meas qq MAX V(q)', '.temp 30', '.ic V(q)=1'])
                if any(t in u[5] for u in sh.texts):
                    continue
                log.append((op, t))
                ed.add_instruction(t)
                x = ed.directives[-1]
                sh.texts.append([x.coord.X, x.coord.Y, 'Left', 2, '!', t])
            elif op == 'rem':
                ts = [u for u in sh.texts if u[4] == '!' and not any(w is not u and w[4] == '!' and u[5] in w[5] for w in sh.texts)]
                if ts:
                    u = r.choice(ts)
                    log.append((op, u[5]))
                    bx.check(ed.remove_instruction(u[5]) is True, 'the instruction is found', log)
                    sh.texts.remove(u)
                    bx.check(ed.remove_instruction('.nothing like it') is False, 'an instruction that is not there is not removed', log)
            elif op == 'remx':
                c = r.choice([r'\.(save|meas)', r'\.(save|meas)', r'(V\(|tran|FIND|10)', r'.*V\(out'])
                log.append((op, c))
                hit = False
                for u in [u for u in sh.texts if u[4] == '!']:
                    lines = u[5].split('\\n')
                    keep = [ln for ln in lines if not re.match(c, ln, re.I)]
                    hit = hit or keep != lines
                    if not keep:
                        sh.texts = [x for x in sh.texts if x is not u]
                    u[5] = '\\n'.join(keep)
                bx.check(ed.remove_Xinstruction(c) is hit, 'instructions found by pattern', log)
            elif op == 'del' and s and len(sh.syms) > 1:
                log.append((op, s.ref))
                ed.remove_component(s.ref)
                sh.syms.remove(s)
            elif op == 'reset' and r.random() < .3:
                ed.reset_netlist()
                bx.check(ascgen.canon(saved(ed, d, r)) == ascgen.canon(text), 'a reset restores the schematic', log)
                log = log + ['reset']
                sh2 = copy.deepcopy(sh)
                break
        else:
            got = saved(ed, d, r)
            want = sh.canon()
            bx.check(ascgen.canon(got) == want, 'the change is saved and nothing else changes', (log, got))
            bx.done(str(log))


@bounded('C10', 'schematics within schematics', [f'{M}:AscEditor.save_netlist', f'{M}:AscEditor.set_component_value', f'{M}:AscEditor._get_subcircuit'])
def nested(bx):
    E = bx.mod(M)
    B = bx.mod('editor.base_schematic')
    for r in bx.each(60, 600):
        d = bx.dir()
        ascgen.library(d)
        block = os.path.join(d, 'block.asc')
        inner = ascgen.Sheet(r, block=False)
        if not any(s.ref == 'R1' for s in inner.syms):
            s = ascgen.Sym(r, 'R1')
            inner.syms.append(s)
        s = [s for s in inner.syms if s.ref == 'R1'][0]
        s.attrs['Value'] = '1k'
        s.attrs.pop('Value2', None)
        with open(block, 'w', encoding='utf-8') as f:
            f.write(inner.text())
        before = open(block, 'rb').read()
        f = os.path.join(d, 'top.asc')
        with open(f, 'w') as h:
            h.write('Version 4\nSHEET 1 10 10\nSYMBOL block 0 0 R0\nSYMATTR InstName X1\nSYMBOL res 5 5 R90\nSYMATTR InstName R1\nSYMATTR Value 9k\n')
        top = open(f).read()
        ed = E.AscEditor(f)
        what = r.choice(['nothing', 'value', 'position', 'param'])
        if what == 'value':
            ed.set_component_value('X1:R1', '2k2')
            s.attrs['Value'] = '2k2'
            bx.check(ed.get_component_value('X1:R1') == '2k2' and ed.get_component_value('R1') == '9k', 'read through the path', what)
        elif what == 'position':
            ed.set_component_position('X1:R1', B.Point(7, -9), B.ERotation.M90)
            s.x, s.y, s.rot = 7, -9, 'M90'
        elif what == 'param':
            ed.set_component_parameters('X1:R1', SpiceModel='mm')
            s.attrs['SpiceModel'] = 'mm'
        ed.save_netlist(os.path.join(d, 'top2.asc'))
        bx.check(ascgen.canon(open(os.path.join(d, 'top2.asc')).read()) == ascgen.canon(top), 'the outer schematic is unchanged', what)
        if what == 'nothing':
            bx.check(open(block, 'rb').read() == before, 'an untouched inner schematic is not written', what)
        else:
            got = open(block, encoding='utf-8').read()
            bx.check(ascgen.canon(got) == inner.canon(), 'the inner schematic shows the change only', (what, inner.text(), got))
        bx.done((what, inner.text()))


# --- every line becomes an object, and every object a line -------------------------------------------------------------

TOKEN = re.compile('(\ue000\\d+\ue001)')


def same_text(vc, a, b):
    """two texts that hold unknown numbers and names are the same"""
    pa, pb = TOKEN.split(a), TOKEN.split(b)
    if len(pa) != len(pb):
        return False
    out = []
    for x, y in zip(pa, pb):
        tx, ty = vc.E.untoken(x), vc.E.untoken(y)
        if tx and ty:
            if tx[1] != ty[1] or type(tx[0]) is not type(ty[0]):
                return False
            out.append(tx[0] == ty[0])
        elif x != y:
            return False
    return And(*out) if out else True


class Rows(core.SymBase):
    """a sequence of any length, made element by element"""

    def __init__(self, vc, name, make):
        self.vc, self.name, self.make, self.n, self.made = vc, name, make, vc.int('number of ' + name, 0), {}

    def len_(self):
        return self.n

    def at(self, i):
        k = str(core.to_z3(i))
        if k not in self.made:
            self.made[k] = self.make(f'{self.name} {len(self.made)}')
        return self.made[k]

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise core.Unsupported('a part of a sequence of any length')
        return self.at(i)

    def values(self):
        return self


class Sections:
    """the text of the loops that write it: what is written before each loop, and by each iteration of it"""

    def __init__(self, vc):
        self.vc, self.text, self.k = vc, '', {}

    def write(self, s):
        self.text = self.text + s

    def loop(self, ident, rows, before, line):
        vc, state = self.vc, {'at': None}

        def havoc(E, L):
            self.text, state['at'] = '', 'next'
            return [self]

        def inv(L, i):
            seq = getattr(L, 'seq')
            if (seq.seq if isinstance(seq, core.SEnum) else seq) is not rows:
                raise core.Unsupported('a loop over something else')
            if state['at'] is None:
                return {'what is written before': same_text(vc, self.text, before())}
            if isinstance(state['at'], str):
                state['at'] = i
                self.k[ident] = i
                return []
            return {'each one is written': same_text(vc, self.text, line(rows.at(state['at'])))}
        vc.loop(ident, inv, havoc=havoc)


@prove('C10', 'saving writes one line for each wire, label, port, text, line and shape, and the lines of each symbol, in order and with what they hold',
       [f'{M}:AscEditor.save_netlist'], internal=True, conc=0, budget=400)
def written(vc):
    """any number of objects at any coordinates; the attributes of a symbol are one of a few lists of any texts"""
    if not vc.symbolic:
        return vc.assume(False)
    E, B, T = vc.mod(M), vc.mod('editor.base_schematic'), vc.mod(L)
    ed = E.AscEditor.__new__(E.AscEditor)
    ed.version, ed.sheet, ed.encoding = f"{vc.str('version')}", f"{vc.str('sheet')}", 'utf-8'
    P = lambda n: B.Point(vc.int(n + ' x'), vc.int(n + ' y'))
    style = lambda n: B.LineStyle(vc.choice(n + ' width', ['', 'Wide']), '', vc.choice(n + ' pattern', ['', '2']))

    def align(n, t):
        t.textAlignment, t.verticalAlignment, t.visible, t.angle = vc.choice(n + ' alignment', [
            (B.HorAlign.LEFT, B.VerAlign.CENTER, True, B.ERotation.R0), (B.HorAlign.CENTER, B.VerAlign.TOP, True, B.ERotation.R90),
            (B.HorAlign.RIGHT, B.VerAlign.CENTER, False, B.ERotation.R0)])
        return t
    wires = Rows(vc, 'wires', lambda n: B.Line(P(n), P(n + ' end')))
    labels = Rows(vc, 'labels', lambda n: B.Text(P(n), f"{vc.str(n)}", type=B.TextTypeEnum.LABEL))
    here = lambda: labels.at(out.k[LP(1)])
    ports = Rows(vc, 'ports', lambda n: B.Port(here() if bool(vc.bool(n + ' is there')) else B.Text(P(n), f"{vc.str(n)}"), f"{vc.str(n + ' dir')}"))

    def symbol(n):
        c = E.AscComponent(ed, '')
        c.reference = vc.choice('reference', ['R', 'X']) + f"{vc.str(n)}"
        c.symbol = f"{vc.str(n + ' symbol')}"
        c.position, c.rotation = P(n), vc.choice('rotation', [T.ASC_ROTATION_DICT[k] for k in ascgen.ROT])
        kind = vc.choice('attributes', [0, 1, 2])
        if kind:
            c.attributes['_WINDOW 0'] = align(n, B.Text(P(n + ' w'), '0', size=vc.int(n + ' w size')))
        if kind == 2:
            c.attributes['Value'] = f"{vc.str(n + ' value')}"
            c.attributes['_WINDOW 123'] = align(n, B.Text(P(n + ' v'), '123', size=vc.int(n + ' v size')))
            c.attributes['_OTHER'] = 'not written'
            c.attributes['SpiceLine'] = f"tol=1 {vc.str(n + ' line')}"
        return c
    comps = Rows(vc, 'symbols', symbol)

    def text(n):
        return align(n, B.Text(P(n), f"{vc.str(n)}", size=vc.int(n + ' size'), type=vc.choice('kind', [B.TextTypeEnum.DIRECTIVE, B.TextTypeEnum.COMMENT])))
    texts = Rows(vc, 'texts', text)
    lines = Rows(vc, 'lines', lambda n: B.Line(P(n), P(n + ' end'), style(n)))
    shapes = Rows(vc, 'shapes', lambda n: (lambda s: B.Shape(s[0], [P(f'{n} {j}') for j in range(s[1])], style(n)))(
        vc.choice('shape', [('RECTANGLE', 2), ('CIRCLE', 2), ('ARC', 4)])))
    ed.wires, ed.labels, ed.ports, ed.components, ed.directives, ed.lines, ed.shapes = wires, labels, ports, comps, texts, lines, shapes
    out = Sections(vc)
    LP = lambda k: f'{M}:AscEditor.save_netlist#{k}'
    xy = lambda p: f"{p.X} {p.Y}"
    flag = lambda t: f"FLAG {xy(t.coord)} {t.text}\n"

    def symlines(c):
        s = f"SYMBOL {c.symbol} {xy(c.position)} {T.ASC_INV_ROTATION_DICT[c.rotation]}\n"
        for k, v in c.attributes.items():
            if k.startswith('_WINDOW'):
                s += f"WINDOW {k[8:]} {xy(v.coord)} {T.asc_text_align_get(v)} {v.size}\n"
        s += f"SYMATTR InstName {c.reference}\n"
        for k, v in c.attributes.items():
            if k[0] != '_':
                s += f"SYMATTR {k} {v}\n"
        return s
    end = lambda st: f" {st.pattern}\n" if st.pattern else '\n'
    out.loop(LP(0), wires, lambda: f"Version {ed.version}\nSHEET {ed.sheet}\n", lambda w: f"WIRE {xy(w.V1)} {xy(w.V2)}\n")
    def label(t):           # its line is before the ports
        vc.check('all the ports are looked at', out.k[LP(2)] == ports.n)
        return ''
    out.loop(LP(1), labels, lambda: '', label)
    out.loop(LP(2), ports, lambda: flag(here()), lambda p: f"IOPIN {xy(here().coord)} {p.direction}\n" if p.text is here() else '')
    out.loop(LP(3), comps, lambda: '', symlines)
    out.loop(LP(6), texts, lambda: '', lambda t: f"TEXT {xy(t.coord)} {T.asc_text_align_get(t)} {t.size} "
             f"{'!' if t.type == B.TextTypeEnum.DIRECTIVE else ';'}{t.text}\n")
    out.loop(LP(7), lines, lambda: '', lambda l: f"LINE {l.style.width or 'Normal'} {xy(l.V1)} {xy(l.V2)}{end(l.style)}")
    out.loop(LP(8), shapes, lambda: '', lambda s: f"{s.name} {s.line_style.width or 'Normal'} {' '.join(xy(p) for p in s.points)}{end(s.line_style)}")
    opened = []

    class File:
        def write(self, s):
            out.write(s)

        def close(self):
            opened.append('closed')

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    def open_(name, mode='r', **kw):
        opened.append((str(name), mode, kw.get('encoding')))
        return File()
    vc.stub(open, 'open', open_)
    ed.save_netlist('out.asc')
    for k, rows in ((0, wires), (1, labels), (3, comps), (6, texts), (7, lines), (8, shapes)):
        if LP(k) not in out.k:
            raise core.Unsupported('the loops are not there')
        vc.check(f'all the {rows.name} are written', out.k[LP(k)] == rows.n)
    vc.check('and nothing follows', out.text == '')
    vc.check('in the file asked for, with the encoding of the schematic', opened == [('out.asc', 'w', 'utf-8'), 'closed'])


class Grown(list):
    """a list of which only what was put last is known"""

    def __init__(self, last=None):
        list.__init__(self)
        self.last = last

    def __getitem__(self, k):
        if list.__len__(self) == 0 and k == -1 and self.last is not None:
            return self.last
        raise core.Unsupported('an element of a list of any length')

    def __len__(self):
        raise core.Unsupported('the length of a list of any length')

    def _no(self, *a, **k):
        raise core.Unsupported('a change other than adding at the end')
    __setitem__ = __delitem__ = insert = remove = pop = sort = reverse = clear = _no

    def new(self):
        return list(iter(self))


@prove('C10', 'loading makes one object of each line, the last in its list, with what the line holds, and the symbols with their attributes and windows',
       [f'{M}:AscEditor.reset_netlist'], internal=True, conc=0, budget=400)
def loaded(vc):
    """a file of any number of lines of any kinds and numbers; the places of texts (TEXT) are a few concrete ones"""
    if not vc.symbolic:
        return vc.assume(False)
    E, B, T = vc.mod(M), vc.mod('editor.base_schematic'), vc.mod(L)
    ed = E.AscEditor.__new__(E.AscEditor)
    LISTS = ['wires', 'labels', 'ports', 'directives', 'lines', 'shapes']
    ed._circuit_filepath, ed.encoding = 'in.asc', 'utf-8'
    ed.version, ed.sheet = '4', 'old'
    vc.stub(B.BaseSchematic.reset_netlist, 'BaseSchematic.reset_netlist: the lists are emptied',
            lambda self, **k: [setattr(self, n, []) for n in LISTS] and setattr(self, 'components', {}))
    sub = object()
    issub = vc.bool('the symbol is a sub circuit')
    vc.stub(E.AscEditor._get_symbol, '_get_symbol: the symbol', lambda self, s: type('S', (), {'is_subcircuit': lambda self: issub})())
    vc.stub(E.AscEditor._get_subcircuit, '_get_subcircuit: its circuit', lambda self, s: sub)
    num = {}

    def I(n):
        num.setdefault(n, vc.int(n))
        return f"{num[n]}"

    def S(n):
        return f"{vc.str(n)}"
    kind = vc.choice('line', ['WIRE', 'FLAG', 'IOPIN', 'SYMBOL', 'SYMBOL2', 'WINDOW', 'NAME', 'XNAME', 'ATTR', 'EMPTY', 'PREFIX', 'TEXT', 'COMMENT',
                              'LINE', 'RECTANGLE', 'CIRCLE', 'ARC', 'DATAFLAG', 'Version', 'SHEET'])
    ROT = vc.choice('rotation', ascgen.ROT) if 'SYMBOL' in kind else 'R0'
    ALIGN = vc.choice('alignment', ['Left', 'VTop', 'Invisible', 'Center', 'VRight', 'Bottom']) if kind in ('WINDOW', 'TEXT', 'COMMENT') else 'Left'
    width, pattern = ('Normal', '') if kind not in ('LINE', 'RECTANGLE', 'CIRCLE', 'ARC') else (
        vc.choice('width', ['Normal', 'Wide']), vc.choice('pattern', ['', ' 1']))
    a, b, p, q, z = I('a'), I('b'), I('p'), I('q'), I('size')
    name, word = S('name'), S('word')
    KINDS = {
        'WIRE': f'WIRE {a} {b} {p} {q}\n', 'FLAG': f'FLAG {a} {b} {name}\n', 'IOPIN': f'IOPIN {a} {b} {name}\n',
        'SYMBOL': f'SYMBOL {name} {a} {b} {ROT}\n', 'SYMBOL2': f'SYMBOL {name} {word} {a} {b} {ROT}\n',
        'WINDOW': f'WINDOW 3 {a} {b} {ALIGN} {z}\n',
        'NAME': f'SYMATTR InstName R{name}\n', 'XNAME': f'SYMATTR InstName X{name}\n', 'ATTR': f'SYMATTR Value {name} {word}\n', 'EMPTY': 'SYMATTR Value2 \n',
        'PREFIX': 'SYMATTR Prefix x\n', 'TEXT': f'TEXT -16 208 {ALIGN} 2 !.tran {name}\n', 'COMMENT': f'TEXT 4 -8 {ALIGN} 0 ;{name} {word}\n',
        'LINE': f'LINE {width} {a} {b} {p} {q}{pattern}\n', 'RECTANGLE': f'RECTANGLE {width} {a} {b} {p} {q}{pattern}\n',
        'CIRCLE': f'CIRCLE {width} {a} {b} {p} {q}{pattern}\n', 'ARC': f'ARC {width} {a} {b} {p} {q} {b} {a} {q} {p}{pattern}\n',
        'DATAFLAG': f'DATAFLAG {a} {b} ""\n', 'Version': 'Version 4.1\n', 'SHEET': f'SHEET 1 {a} {b}\n'}
    file = Rows(vc, 'lines', lambda n: KINDS[kind])
    st = type('State', (), {'phase': 0, 'i': None, 'comp': None})()
    eq = lambda x, y: same_text(vc, x, y) if isinstance(x, str) and isinstance(y, str) else False

    class Opened:
        def __enter__(self):
            return file

        def __exit__(self, *a):
            return False

    def open_(n, mode='r', **kw):
        vc.check('the file of the schematic, with its encoding', And(str(n) == 'in.asc', mode.startswith('r'), kw.get('encoding') == 'utf-8'))
        return Opened()
    vc.stub(open, 'open', open_)
    inside = kind in ('WINDOW', 'NAME', 'XNAME', 'ATTR', 'EMPTY', 'PREFIX')

    def symbol(E_, old, L):
        """the symbol that is being read, if any"""
        if not inside and vc.choice('a symbol is being read', [False, True]) is False:
            st.comp = None
            return None
        c = E.AscComponent(ed, 'SYMBOL\n')
        if kind not in ('NAME', 'XNAME'):
            c.reference = 'R7'
        c.symbol = 'res'
        c.attributes['Type'] = 'kept'
        st.comp = c
        return c

    def havoc(E_, L):
        for n in LISTS:
            setattr(ed, n, Grown())
        ed.labels.last = B.Text(B.Point(num['a'], num['b']), 'last', type=B.TextTypeEnum.LABEL)
        ed.components, st.phase = {}, 1
        return [ed, st, st.comp, st.comp and st.comp._attributes, ed.components, *[getattr(ed, n) for n in LISTS], num]

    def point(pt, x, y):
        return And(pt.X == num[x], pt.Y == num[y])

    def text(t, txt, ty, x=None, size=None):
        r = [eq(t.text, txt), t.type == ty]
        if x:
            r.append(point(t.coord, 'a', 'b'))
        if size is not None:
            r.append(t.size == size)
        return And(*r)

    def aligned(t):
        return T.asc_text_align_get(t) == ALIGN

    def inv(Lo, i):
        if getattr(Lo, 'seq') is not file:
            raise core.Unsupported('a loop over something else')
        if st.phase == 0:
            return {'nothing there': all(getattr(ed, n) == [] for n in LISTS) and ed.components == {} and Lo.component is None}
        if st.phase == 1:
            st.phase, st.i = 2, i
            return []
        new = {n: getattr(ed, n).new() if isinstance(getattr(ed, n), Grown) else None for n in LISTS}
        if any(v is None for v in new.values()):
            raise core.Unsupported('a list is replaced')
        comp, o = Lo.component, {}
        counts = {n: len(v) for n, v in new.items()}
        goes = {'WIRE': 'wires', 'FLAG': 'labels', 'IOPIN': 'ports', 'TEXT': 'directives', 'COMMENT': 'directives', 'LINE': 'lines',
                'RECTANGLE': 'shapes', 'CIRCLE': 'shapes', 'ARC': 'shapes'}.get(kind)
        o['one object, in its list, or none'] = counts == {n: int(n == goes) for n in LISTS}
        x = new[goes][0] if goes and counts[goes] == 1 else None
        if kind == 'WIRE':
            o['the wire'] = And(point(x.V1, 'a', 'b'), point(x.V2, 'p', 'q'))
        elif kind == 'FLAG':
            o['the label'] = text(x, name, B.TextTypeEnum.LABEL, 'a')
        elif kind == 'IOPIN':
            o['the port'] = And(x.text is ed.labels.last, eq(x.direction, name))
        elif kind == 'TEXT':
            o['the directive'] = And(text(x, f'.tran {name}', B.TextTypeEnum.DIRECTIVE, None, 2), aligned(x), x.coord.X == -16, x.coord.Y == 208)
        elif kind == 'COMMENT':
            o['the comment'] = And(text(x, f'{name} {word}', B.TextTypeEnum.COMMENT, None, 0), aligned(x), x.coord.X == 4, x.coord.Y == -8)
        elif kind == 'LINE':
            o['the line'] = And(point(x.V1, 'a', 'b'), point(x.V2, 'p', 'q'), x.style.width == width, x.style.pattern == pattern.strip())
        elif goes == 'shapes':
            pts = [('a', 'b'), ('p', 'q')] + ([('b', 'a'), ('q', 'p')] if kind == 'ARC' else [])
            o['the shape'] = And(x.name == kind, x.line_style.width == width, x.line_style.pattern == pattern.strip(), len(x.points) == len(pts),
                                 *[point(pt, *w) for pt, w in zip(x.points, pts)])
        if kind == 'Version':
            o['the version'] = ed.version == '4.1'
        elif kind == 'SHEET':
            o['the sheet'] = eq(ed.sheet, f'1 {a} {b}')
        else:
            o['version and sheet stay'] = ed.version == '4' and ed.sheet == 'old'
        if kind.startswith('SYMBOL'):
            o['the symbol'] = And(comp is not st.comp, eq(comp.symbol, name if kind == 'SYMBOL' else f'{name} {word}'), point(comp.position, 'a', 'b'),
                                  comp.rotation == T.ASC_ROTATION_DICT[ROT], comp.reference is None or comp.reference == '', dict(comp.attributes) == {})
            o['the one before is put among the others'] = list(ed.components.items()) == ([('R7', st.comp)] if st.comp else [])
            return o
        o['the symbols stay'] = comp is st.comp and ed.components == {}
        if comp is None:
            return o
        o['place and orientation stay'] = comp.symbol == 'res' and comp.position.X == 0 and comp.position.Y == 0 and comp.rotation == B.ERotation.R0
        at_ = dict(comp.attributes)
        o['the other attributes stay'] = at_.pop('Type', None) == 'kept'
        ref = {'NAME': f'R{name}', 'XNAME': f'X{name}'}.get(kind, 'R7')
        o['the reference'] = eq(comp.reference, ref)
        if kind == 'WINDOW':
            w = at_.pop('_WINDOW 3', None)
            o['the window'] = w is not None and And(text(w, '3', B.TextTypeEnum.ATTRIBUTE, 'a', num['size']), aligned(w))
        elif kind == 'ATTR':
            o['the attribute'] = eq(at_.pop('Value', None), f'{name} {word}')
        elif kind == 'EMPTY':
            o['the attribute'] = at_.pop('Value2', None) == ''
        elif kind == 'PREFIX':
            o['the prefix'] = at_.pop('Prefix', None) == 'X'
        elif kind in ('NAME', 'XNAME'):
            got = at_.pop('_SUBCKT', None)
            o['its circuit'] = Iff(got is sub, Or(kind == 'XNAME', issub))
        o['no other attribute'] = at_ == {}
        return o
    vc.loop(f'{M}:AscEditor.reset_netlist#0', inv, havoc=havoc, havoc_vals={'component': symbol})
    ed.reset_netlist()
    vc.check('the whole file is read', st.i == file.n)
    vc.check('the last symbol is put among the others', list(ed.components.items()) == ([(st.comp.reference, st.comp)] if st.comp else []))
    vc.check('nothing else is made', all(getattr(ed, n).new() == [] for n in LISTS))
