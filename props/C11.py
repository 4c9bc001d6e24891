"""C11 - a QSPICE schematic is saved with everything it was loaded with."""
import os
import random
import re
import z3
from pyvc import core
from pyvc.api import *
from . import qschgen as G
from .C10 import Grown, same_text

M = 'editor.qsch_editor'
ASSUMPTIONS = ["texts hold no double quotes (QSPICE quotes with them) and only characters of code page 1252, the encoding of the files"]


@prove('C11', 'an attribute set is the attribute read', [f'{M}:QschTag.set_attr', f'{M}:QschTag.get_attr', f'{M}:QschTag.get_text_attr'])
def attributes(vc):
    Q = vc.mod(M)
    t = Q.QschTag('text', '(1,2)', '"abc"', '0xff', '7')
    k = vc.choice('index', [1, 2, 3, 4])
    what = vc.choice('what', ['text', 'integer', 'point', 'color'])
    if what == 'text':
        v = vc.str('v')
        vc.assume(Not(v.startswith('0x')) if vc.symbolic else not v.startswith('0x'))
        t.set_attr(k, v)
        vc.check('the text is read', t.get_attr(k) == v)
        vc.check('the text alone is read', t.get_text_attr(k) == v)
    elif what == 'integer':
        v = vc.int('n')
        t.set_attr(k, v)
        vc.check('the number is read', t.get_attr(k) == v)
    elif what == 'color':
        v = vc.choice('color', ['0x0', '0xff0000', '0x3000000'])
        k = vc.choice('unquoted', [1, 3, 4])
        t.set_attr(k, v)
        vc.check('the color is read', t.get_attr(k) == int(v, 16))
    else:
        return
    for i, w in enumerate(['text', '(1,2)', '"abc"', '0xff', '7']):
        vc.check('the other attributes stay', t.tokens[i] == w if i != k else True)


@prove('C11', 'a position set is the position read and saved', [f'{M}:QschComponent.set_position', f'{M}:QschComponent.get_position'])
def position(vc):
    Q = vc.mod(M)
    B = vc.mod('editor.base_schematic')

    class Parent:
        canvas_updated = False
    tag = Q.QschTag('component', '(1,2)', '3', '0')
    other = Q.QschTag('component', '(1,2)', '3', '0')
    c = Q.QschComponent(Parent(), tag)
    done = []
    vc.stub(Q.QschTag.set_attr, 'set_attr', lambda self, i, v: done.append((self, i, v)))
    x, y = vc.int('x'), vc.int('y')
    if vc.choice('how', ['rotation', 'number']) == 'rotation':
        rot = vc.choice('rotation', list(B.ERotation))
        mirror = vc.choice('mirror', [False, True])
        code = int(rot) // 45 % 8 + (8 if mirror or rot >= 360 else 0)
    else:
        rot = vc.choice('angle', [45 * k for k in range(-8, 8)])
        mirror = vc.choice('mirror', [False, True])
        code = rot // 45 % 8 + (8 if mirror else 0)
    p = vc.choice('as', ['tuple', 'point'])
    c.set_position((x, y) if p == 'tuple' else B.Point(x, y), rot, mirror)
    if not vc.symbolic:
        vc.check('the position and the rotation are saved', tag.tokens == ['component', f'({x},{y})', str(code), '0'])
        vals = None
    else:
        vc.check('two attributes of the tag are set', len(done) == 2 and all(d[0] is tag for d in done) and sorted(d[1] for d in done) == [1, 2])
        vals = {d[1]: d[2] for d in done}
        vc.check('the position is saved', And(vals[1][0] == x, vals[1][1] == y))
        vc.check('the rotation is saved', vals[2] == code)
    q, e = c.get_position()
    vc.check('position read', And(q.X == x, q.Y == y))
    vc.check('rotation read', e == 45 * code)
    vc.check('the schematic counts as changed', c.parent.canvas_updated)


# ---------------------------------------------------------------------------------------------------------------

def canon_tag(t):
    return (' '.join(t.tokens), [canon_tag(i) for i in t.items])


def denotes(w):
    if re.fullmatch(r'\(.*\)', w, re.S):
        return tuple(int(x) for x in w[1:-1].split(','))
    if re.fullmatch(r'0x[0-9a-fA-F]+', w):
        return int(w, 16)
    if re.fullmatch(r'".*"', w, re.S):
        return w[1:-1]
    if re.fullmatch(r'[-+]?\d+', w):
        return int(w)
    if re.fullmatch(r'[-+]?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?', w):
        return float(w)
    return w


@bounded('C11', 'any tree of tags', [f'{M}:QschTag.parse', f'{M}:QschTag.out', f'{M}:smart_split'])
def trees(bx):
    Q = bx.mod(M)
    for r in bx.each(3000, 60000):
        n = G.tree(r, 4)
        text = n.out()
        t, stop = Q.QschTag.parse(text)
        bx.check(text[stop:].strip() == '', 'the tree is read to its end', text)
        bx.check(canon_tag(t) == n.canon(), 'tags, nesting, order and tokens are read', (text, canon_tag(t)))
        lone = [w for w in n.words] if not n.words[0].endswith(':') else None
        if lone is not None:
            bx.check(t.tokens == n.words, 'a token is a word, a point or a quoted text', (text, t.tokens))
            for i, w in enumerate(n.words):
                want = denotes(w)
                got = t.get_attr(i)
                bx.check(type(got) is type(want) and got == want, 'an attribute is the text, number, color or point its token denotes', (text, i, got))
                bx.check(t.get_text_attr(i) == (w[1:-1] if w.startswith('"') and w.endswith('"') else w), 'the text of an attribute', (text, i))
        lv = r.randint(0, 3)
        out = t.out(lv)
        bx.check(out == n.out(lv), 'the tree is written as it was', (text, out))
        k = r.randrange(len(n.words)) if lone else None
        if k:
            p = (r.choice([G.num(r), 0.5 * G.num(r), 12.25]), r.choice([G.num(r), -0.5, 7.75]))
            u, _ = Q.QschTag.parse(text)
            u.set_attr(k, p)
            bx.check(u.tokens == n.words[:k] + [f'({p[0]},{p[1]})'] + n.words[k + 1:], 'a point set is the point written', (text, k, p))
        t2, _ = Q.QschTag.parse('  ' * 0 + out.strip() if lv else out)
        bx.check(canon_tag(t2) == canon_tag(t), 'what is written reads as the same tree', (text, out))
        bx.done(text, nontrivial=bool(n.items))


@bounded('C11', 'untouched schematics', [f'{M}:QschEditor.reset_netlist', f'{M}:QschEditor.save_as'])
def untouched(bx):
    Q = bx.mod(M)
    d = bx.dir()
    sub = G.Sheet(random.Random(1))
    sub.write(os.path.join(d, 'sub.qsch'))
    before = open(os.path.join(d, 'sub.qsch'), 'rb').read()
    for r in bx.each(300, 5000):
        sh = G.Sheet(r, 'sub' if r.random() < .3 else None)
        f, g = os.path.join(d, 'in.qsch'), os.path.join(d, 'out.qsch')
        sh.write(f, r)
        if os.path.exists(g):
            os.remove(g)
        ed = Q.QschEditor(f)
        bx.check(list(ed.components) == [i.items[0].items and [t for t in i.items[0].items if t.words[0] == 'text'][0].text()
                                         for i in sh.root.items if i.words[0] == 'component'], 'the components, in order', sh.root.out())
        for ref in sh.comps:
            bx.check(ed.get_component_value(ref) == sh.texts(ref)[1].text(), 'the value of a component', (ref, sh.root.out()))
        ed.save_as(g)
        bx.check(G.read_file(g) == sh.root.canon(), 'the schematic is saved with what it was loaded with', sh.root.out())
        ed2 = Q.QschEditor(g)
        bx.check(canon_tag(ed2.schematic) == canon_tag(ed.schematic), 'it loads as the same', sh.root.out())
        bx.check(open(os.path.join(d, 'sub.qsch'), 'rb').read() == before, 'an untouched inner schematic is not written', sh.root.out())
        bx.done(sh.root.out())


SETTING = r'(?:^|(?<=\s))([A-Za-z_]\w*)\s*=\s*(\{[^}]*\}|"[^"]*"|[^\s\\"]+)'
UNIQUE = ('.AC', '.DC', '.TRAN', '.NOISE', '.TF')


def lines(t):
    return t.removeprefix(G.BOM).split('\\n')


def put(tag, text):
    tag.words[8] = G.q(text)


def added(bx, got, root, path, text, log):
    """takes the tag that was added out of the tree read, and gives it back"""
    def at(n, p):
        for k in p:
            n = n[1][k]
        return n
    g, w = at(got, path), at(root.canon(), path)
    cand = [i for i, x in enumerate(g[1]) if x[0].startswith('text ') and x[0].endswith(' ' + G.q(text))
            and g[1][:i] + g[1][i + 1:] == w[1]]
    if not cand:
        return None
    h = g[1].pop(cand[0])[0]
    return cand[0], h


@bounded('C11', 'edited schematics', [f'{M}:QschComponent.set_value', f'{M}:QschComponent.set_model', f'{M}:QschComponent.set_parameters',
                                      f'{M}:QschEditor.set_parameter', f'{M}:QschEditor.add_instruction', f'{M}:QschEditor.remove_instruction',
                                      f'{M}:QschEditor.remove_Xinstruction', f'{M}:QschEditor.remove_component', f'{M}:QschEditor.set_component_position'])
def edited(bx):
    Q = bx.mod(M)
    B = bx.mod('editor.base_schematic')
    from spicelib.utils.float_unit import format_eng
    d = bx.dir()
    for r in bx.each(1500, 25000):
        sh = G.Sheet(r)
        f, g = os.path.join(d, 'in.qsch'), os.path.join(d, 'out.qsch')
        sh.write(f, r)
        ed = Q.QschEditor(f)
        log = [sh.root.out()]
        unknown = 0
        for _ in range(r.randint(1, 7)):
            op = r.choice(['value', 'value', 'cparam', 'cparam', 'cparam', 'pos', 'param', 'param', 'add', 'unique', 'rem', 'remx', 'del', 'line', 'save'])
            ref = r.choice(list(sh.comps)) if sh.comps else None
            v = r.choice(['47k', '{x+1}', 2200, 0.5, 'AC 1 0', 1e-9, 'a(b) [c]', '0x1'])
            txt = v if isinstance(v, str) else format_eng(v)
            new = None
            if op == 'value' and ref:
                log.append((op, ref, v))
                how = r.randint(0, 4)
                if how == 0:
                    ed.set_component_value(ref, v)
                elif how == 1:
                    ed[ref].value = v
                elif how == 2:
                    ed[ref] = v
                elif how == 3:
                    ed.set_component_values(**{ref: v})
                elif isinstance(v, str):
                    ed.set_element_model(ref, v)
                else:
                    ed.get_component(ref).set_value(v)
                put(sh.texts(ref)[1], txt)
                bx.check(ed.get_component_value(ref) == txt, 'the value set is read', log)
            elif op == 'cparam' and ref:
                k = r.choice(['Rser', 'tc1', 'ic', 'm', 'temp', 'W', 'L', 'new1', 'new2'])
                v = r.choice([v, None]) if not isinstance(v, str) or v[0] == '{' else '{zz}'
                txt = None if v is None else v if isinstance(v, str) else format_eng(v)
                log.append((op, ref, k, v))
                if r.random() < .5:
                    ed.set_component_parameters(ref, **{k: v})
                else:
                    ed[ref].set_parameter(k, v)
                for t in sh.texts(ref)[1:]:
                    m = [m for m in re.finditer(SETTING, t.text()) if m.group(1) == k]
                    if m:
                        m = m[0]
                        if v is None:
                            left = t.text()[:m.start()] + t.text()[m.end():]
                            if not left and t is not sh.texts(ref)[1]:
                                sh.comps[ref].items[0].items.remove(t)
                            else:
                                put(t, left)
                        else:
                            put(t, t.text()[:m.start(2)] + txt + t.text()[m.end(2):])
                        break
                else:
                    if v is not None:
                        new = ([sh.root.items.index(sh.comps[ref]), 0], f'{k}={txt}')
                if v is not None:
                    bx.check(ed.get_component_parameters(ref).get(k) == txt, 'the parameter set is read', log)
                else:
                    bx.check(k not in ed.get_component_parameters(ref), 'a parameter removed is gone', log)
            elif op == 'line' and ref and len(sh.texts(ref)) > 2:
                i = r.randrange(2, len(sh.texts(ref)))
                t = r.choice(['aa=1 bb=2', 'words', None])
                log.append((op, ref, i, t))
                ed[ref].set_parameter(i, t)
                if t is None:
                    sh.comps[ref].items[0].items.remove(sh.texts(ref)[i])
                else:
                    put(sh.texts(ref)[i], t)
                    bx.check(ed[ref].get_parameters().get(i) == t, 'the line set is read', log)
            elif op == 'pos' and ref:
                x, y, rot = G.num(r), G.num(r), r.choice(list(B.ERotation))
                log.append((op, ref, x, y, rot.name))
                ed.set_component_position(ref, r.choice([B.Point(x, y), (x, y)]), rot)
                sh.comps[ref].words[1:3] = [f'({x},{y})', str(int(rot) // 45)]
                p, q = ed.get_component_position(ref)
                bx.check((p.X, p.Y, q) == (x, y, rot), 'the position set is read', log)
                bx.check(ed.updated(), 'a moved component is a change', log)
            elif op == 'param':
                k = r.choice(['a', 'b', 'c', 'q', 'w', 'TEMP', 'temp', 'A', 'fresh'])
                v = r.choice([v if v != 'AC 1 0' else '{1+1}', '{zz*2}']) if v != 'a(b) [c]' else 5
                txt = v if isinstance(v, str) else format_eng(v)
                log.append((op, k, v))
                r.choice([lambda: ed.set_parameter(k, v), lambda: ed.set_parameters(**{k: v})])()
                hit = None
                for t in sh.sheet_texts():
                    pos = len(t.text()) - len(t.text().removeprefix(G.BOM))
                    for ln in lines(t.text()):
                        if ln.upper().startswith('.PARAM'):
                            for m in re.finditer(SETTING, ln):
                                if m.group(1).upper() == k.upper() and hit is None:
                                    hit = (t, pos + m.start(2), pos + m.end(2))
                        pos += len(ln) + 2
                if hit:
                    t, a, b = hit
                    put(t, t.text()[:a] + txt + t.text()[b:])
                else:
                    new = ([], f'{G.BOM}.param {k}={txt}')
                bx.check(str(ed.get_parameter(k)) == txt, 'the parameter set is read', log)
                bx.check(k.upper() in ed.get_all_parameter_names(), 'the parameter is listed', log)
            elif op == 'add':
                t = r.choice(['.save I(R1)', '.meas qq max V(q)', '.temp 30', '.ic V(q)=1', '.lib "my lib.txt"'.replace('"', "'")])
                if any(t in x.text() for x in sh.sheet_texts(True)):
                    continue
                log.append((op, t))
                r.choice([lambda: ed.add_instruction(t), lambda: ed.add_instructions(t + '\n')])()
                new = ([], G.BOM + t)
            elif op == 'unique':
                t = r.choice(['.tran 5m', '.ac dec 10 1 1Meg', '.noise V(o) V1 dec 5 1 9', '.dc V1 0 1 0.1'])
                log.append((op, t))
                ed.add_instruction(t)
                hit = False
                for x in sh.sheet_texts():
                    ls = []
                    change = False
                    for ln in lines(x.text()):
                        if ln.split() and ln.split()[0].upper() in UNIQUE:
                            change = True
                            if not hit:
                                ls.append(t)
                            hit = True
                        else:
                            ls.append(ln)
                    if change:
                        if ls:
                            put(x, G.BOM + '\\n'.join(ls))
                        else:
                            sh.root.items.remove(x)
                if not hit:
                    new = ([], G.BOM + t)
            elif op in ('rem', 'remx'):
                cand = [ln for t in sh.sheet_texts() for ln in lines(t.text()) if ln and not ln.upper().startswith('.PARAM')]
                if op == 'rem' and cand:
                    c = r.choice(cand)
                    log.append((op, c))
                    bx.check(ed.remove_instruction(c) is True, 'the instruction is found', log)
                    n = 1
                elif op == 'remx':
                    c = r'\.(meas|save|lib)\b'
                    log.append((op, c))
                    hit = any(re.match(c, ln, re.I) for t in sh.sheet_texts() for ln in lines(t.text()))
                    bx.check(ed.remove_Xinstruction(c) is hit, 'instructions are found by pattern', log)
                    n = 99
                else:
                    bx.check(ed.remove_instruction('.nothing like it') is False, 'an instruction that is not there is not found', log)
                    continue
                for t in sh.sheet_texts():
                    ls = lines(t.text())
                    keep = []
                    for ln in ls:
                        if n and (c in ln if op == 'rem' else re.match(c, ln, re.I)):
                            n -= 1
                        else:
                            keep.append(ln)
                    if not keep:
                        sh.root.items.remove(t)
                    elif keep != ls:
                        put(t, G.BOM + '\\n'.join(keep))
            elif op == 'del' and ref and len(sh.comps) > 1:
                log.append((op, ref))
                ed.remove_component(ref)
                sh.root.items.remove(sh.comps.pop(ref))
                bx.check(ref not in ed.get_components(), 'the component is gone', log)
            elif op == 'save':
                h = os.path.join(d, 'mid.qsch')
                ed.save_as(h)
                bx.check(G.read_file(h) == sh.root.canon(), 'the changes so far are saved and nothing else changes', log)
                if r.random() < .5:
                    ed = Q.QschEditor(h)
            if new:
                path, text = new
                h = os.path.join(d, 'mid.qsch')
                ed.save_as(h)
                got = G.read_file(h)
                a = added(bx, got, sh.root, path, text, log)
                bx.check(a is not None, 'one text with what was set is added, and nothing else changes', (log, text, open(h, encoding='cp1252').read()))
                parent = sh.root
                for k in path:
                    parent = parent.items[k]
                w = a[1][:-len(G.q(text)) - 1].split(' ')
                parent.items.insert(a[0], G.N(*w, G.q(text)))
        ed.save_as(g)
        bx.check(G.read_file(g) == sh.root.canon(), 'the change is saved and nothing else changes',
                 (log, sh.root.out(), open(g, encoding='cp1252').read()))
        ed2 = Q.QschEditor(g)
        for ref in sh.comps:
            bx.check(ed2.get_component_value(ref) == ed.get_component_value(ref) == sh.texts(ref)[1].text(), 'the values are read from the saved file', (log, ref))
            bx.check(ed2.get_component_parameters(ref) == ed.get_component_parameters(ref), 'the parameters are read from the saved file', (log, ref))
            p, q = ed2.get_component_position(ref)
            a, b = ed.get_component_position(ref)
            bx.check((p.X, p.Y, q) == (a.X, a.Y, b), 'the positions are read from the saved file', (log, ref))
        bx.check(ed2.get_all_parameter_names() == ed.get_all_parameter_names(), 'the same parameters', log)
        bx.done(str(log))


@bounded('C11', 'schematics within schematics', [f'{M}:QschEditor.save_as', f'{M}:QschEditor.set_component_value'])
def nested(bx):
    Q = bx.mod(M)
    for r in bx.each(60, 1000):
        d = bx.dir()
        inner = G.Sheet(r)
        if 'R1' not in inner.comps:
            inner.component(r, 'R1')
        inner.write(os.path.join(d, 'sub.qsch'))
        before = open(os.path.join(d, 'sub.qsch'), 'rb').read()
        top = G.Sheet(r)
        if 'R1' not in top.comps:
            top.component(r, 'R1')
        top.component(r, 'X1', 'sub')
        f, g = os.path.join(d, 'top.qsch'), os.path.join(d, 'top2.qsch')
        top.write(f)
        ed = Q.QschEditor(f)
        what = r.choice(['nothing', 'value', 'param', 'position'])
        own = ed.get_component_value('R1')
        if what == 'value':
            ed.set_component_value('X1:R1', '2k2')
            put(inner.texts('R1')[1], '2k2')
            bx.check(ed.get_component_value('X1:R1') == '2k2' and ed.get_component_value('R1') == own, 'read through the path', what)
        elif what == 'param':
            ed.set_component_parameters('X1:R1', zz=3)
            inner.comps['R1'].items[0].items  # a text is added, see below
        elif what == 'position':
            ed.set_component_position('X1:R1', (7, -9), 90)
            inner.comps['R1'].words[1:3] = ['(7,-9)', '2']
        ed.save_as(g)
        bx.check(G.read_file(g) == top.root.canon(), 'the outer schematic is unchanged', what)
        if what == 'nothing':
            bx.check(open(os.path.join(d, 'sub.qsch'), 'rb').read() == before, 'an untouched inner schematic is not written', what)
        else:
            got = G.read_file(os.path.join(d, 'sub.qsch'))
            if what == 'param':
                bx.check(added(bx, got, inner.root, [inner.root.items.index(inner.comps['R1']), 0], 'zz=3', what) is not None, 'a text is added', what)
            bx.check(got == inner.root.canon(), 'the inner schematic shows the change only', (what, inner.root.out()))
        bx.done((what, inner.root.out()))


# --- the tree of tags: what is read, and what is written ----------------------------------------------------------------

class _Char(core.SymBase):
    """a character of the file"""

    def __init__(self, code):
        self.code = code

    def __eq__(self, o):
        if not isinstance(o, str) or len(o) != 1:
            return NotImplemented
        return self.code == ord(o)

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None


class _Part(core.SymBase):
    """the characters lo..hi-1 of the file"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __getitem__(self, k):
        if not isinstance(k, slice) or k.step not in (None, 1) or k.stop is not None:
            raise core.Unsupported('characters of a piece')
        return _Part(self.lo + k.start, self.hi)

    def __add__(self, o):
        return (self, o)


class _File(core.SymBase):
    def __init__(self, vc):
        self.vc, self.n = vc, vc.int('length of the file', 1)
        self.f, self.g = z3.Function('character', z3.IntSort(), z3.IntSort()), z3.Function('closing quote', z3.IntSort(), z3.IntSort())

    def code(self, i):
        return core.wrap(self.f(core.to_z3(i)))

    def close(self, i):
        """where the text that starts at i ends (texts are closed)"""
        c = core.wrap(self.g(core.to_z3(i)))
        self.vc.assume(And(i < c, c < self.n, self.code(c) == ord('"')), Forall(i + 1, c, lambda j: self.code(j) != ord('"')))
        return c

    def len_(self):
        return self.n

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1) or k.start is None or k.stop is None:
                raise core.Unsupported('characters of the file')
            return _Part(k.start, k.stop)
        if bool(Or(k < 0, k >= self.n)):
            raise IndexError('string index out of range')
        return _Char(self.code(k))


@prove('C11', 'a tag is read to its end, every piece of its text once and in order, and each tag within it from where it starts to where it ends',
       [f'{M}:QschTag.parse'], internal=True, conc=0)
def parsed(vc):
    """a file of any length; the tags within are read by the contract of this function"""
    if not vc.symbolic:
        return vc.assume(False)
    Q, E = vc.mod(M), vc.E
    file = _File(vc)
    start = vc.int('start', 0)
    vc.assume(start < file.n, file.code(start) == ord('«'))
    labelled = vc.choice('a label', [False, True])
    g = type('Ghost', (), {'phase': 0, 'events': None, 'i': None, 'i0': None})()

    def split(p):
        if not isinstance(p, _Part):
            raise core.Unsupported('something else is split')
        w = ('words', p)
        g.events.append(w)
        return [w]
    vc.stub(Q.smart_split, 'smart_split: the words of a piece', split)

    class Label:
        def __init__(self, p):
            self.p, self.at = p, vc.int('end of the label', 1)
            vc.assume(self.at <= p.hi - p.lo)

        def group(self, k):
            return _Part(self.p.lo, self.p.lo + self.at - 2)

        def end(self):
            return self.at

    def match(pat, p, *a):
        if not isinstance(p, _Part):
            raise core.Unsupported('a label of something else')
        if not labelled:
            return None
        g.label = Label(p)
        g.events.append(('label', p))
        return g.label
    vc.stub(re.match, 're.match: whether a piece starts with a label', match)
    child = Q.QschTag()

    def nested(cls, stream, at=0):
        if stream is not file:
            raise core.Unsupported('another text is read')
        e = core.wrap(E.fresh_int('end of a tag').e)
        vc.assume(e > at, e <= file.n)
        g.events.append(('tag', at, e))
        return child, e
    g.events = []
    orig = Q.QschTag.__dict__['parse'].__func__
    vc.stub(Q.QschTag.parse, 'QschTag.parse of the tags within (by induction)', nested)
    tag = []

    def havoc(E, L):
        s = L.self
        tag[:] = [s]
        s.tokens, s.items = Grown(), Grown()
        g.phase, g.events = 1, []
        return [g, g.events, s.tokens, s.items, s, tag]

    def inv(L, _=None):
        s = L.self
        if g.phase == 0:
            return {'from the first character of the tag': And(L.i == start + 1, L.i0 == L.i, s.tokens == [], s.items == [], g.events == [])}
        if g.phase == 1:
            g.phase, g.i, g.i0 = 2, L.i, L.i0
            return [L.i0 >= start + 1, L.i >= L.i0, L.i <= file.n]
        if not (isinstance(s.tokens, Grown) and isinstance(s.items, Grown)):
            raise core.Unsupported('the lists are replaced')
        c, i, i0, ev = file.code(g.i), g.i, g.i0, g.events
        words = [e[1] for e in ev if e[0] == 'words']
        inner = [e for e in ev if e[0] == 'tag']
        piece = lambda: And(*[And(p.lo == i0, p.hi == i) for p in words])
        toks, items = s.tokens.new(), s.items.new()
        o = {'the words of a piece are put in order': toks == [e for e in ev if e[0] == 'words'] and len(words) <= 1,
             'inside the file': And(L.i0 >= start + 1, L.i >= L.i0, L.i <= file.n)}
        if inner:
            o['a tag within starts at its mark'] = And(len(inner) == 1, c == ord('«'), inner[0][1] == i)
            o['the piece before it is put away'] = And(len(words) == 1, piece(), ev[0][0] == 'words')
            o['it is kept, and reading goes on after it'] = And(len(items) == 1, items[0] is child, L.i == inner[0][2], L.i0 == L.i)
            return o
        o['no tag is made up'] = And(len(items) == 0, c != ord('«'), c != ord('»'))
        if bool(c == ord('\n')):
            o['a line ends a piece'] = And(piece(), Or(len(words) == 1, i0 == i), L.i == i + 1, L.i0 == L.i)
        else:
            o['the piece goes on'] = And(len(words) == 0, L.i0 == i0)
            o['a text in quotes is passed over, any other character is one'] = L.i == (file.close(i) + 1 if bool(c == ord('"')) else i + 1)
        return o
    vc.loop(f'{M}:QschTag.parse#0', inv, havoc=havoc)

    def inv1(L, _=None):
        q = g.i
        c = file.close(q)
        return [And(L.i > q, L.i <= c)]
    vc.loop(f'{M}:QschTag.parse#1', inv1, variant=lambda L, _: file.close(g.i) - L.i,
            havoc=lambda E, L: [L.self, L.self.tokens, L.self.items])
    r, exc = vc.raises(lambda: orig(Q.QschTag, file, start), OSError)
    if exc is not None:
        vc.check('a tag without end is refused', g.i >= file.n)
        return
    t, stop = r
    vc.check('the tag that was made', t is tag[0])
    vc.check('it ends at its mark', And(file.code(g.i) == ord('»'), stop == g.i + 1))
    vc.check('nothing is put among the tags', t.items.new() == [])
    kinds, toks = [e[0] for e in g.events], t.tokens.new()
    if labelled:
        vc.check('the label and the text after it', And(kinds == ['label'], len(toks) == 2))
        p = g.events[0][1]
        vc.check('they are the last piece', And(p.lo == g.i0, p.hi == g.i))
        a, b = toks
        vc.check('the label with its colon', And(isinstance(a, tuple), a[1] == ':', a[0].lo == p.lo, a[0].hi == p.lo + g.label.at - 2))
        vc.check('the text to the end', And(b.lo == p.lo + g.label.at, b.hi == p.hi))
    else:
        vc.check('the words of the last piece', And(kinds == ['words'], toks == g.events))
        p = g.events[0][1]
        vc.check('it is the last piece', And(p.lo == g.i0, p.hi == g.i))


@prove('C11', 'a tag is written with its words, then the tags within it, each once and in order, then its end',
       [f'{M}:QschTag.out'], internal=True, conc=0)
def put_out(vc):
    """words of any text; up to four tags within, written by the contract of this function"""
    if not vc.symbolic:
        return vc.assume(False)
    Q = vc.mod(M)
    n, k, level = vc.choice('tags within', [0, 1, 2, 4]), vc.choice('words', [1, 3]), vc.choice('level', [0, 1, 3])
    words = [f"{vc.str(f'word {j}')}" for j in range(k)]
    t = Q.QschTag(*words)
    inner = [Q.QschTag('inner') for _ in range(n)]
    t.items = list(inner)
    texts = [f"{vc.str(f'tag {j}')}" for j in range(n)]
    done = []

    def nested(self, lv):
        done.append((self, lv))
        return texts[[x is self for x in inner].index(True)]
    orig = Q.QschTag.__dict__['out']
    vc.stub(Q.QschTag.out, 'QschTag.out of the tags within (by induction)', nested)
    r = orig(t, level)
    ind = '  ' * level
    head = f"{ind}«{' '.join(words)}"
    want = head + '\n' + ''.join(texts) + ind + '»\n' if n else head + '»\n'
    vc.check('its words, the tags within and its end', same_text(vc, r, want))
    vc.check('the tags within are one level further in', all(lv == level + 1 for _, lv in done))
    vc.check('the tag stays as it is', len(t.tokens) == k and len(t.items) == n and all(a is b for a, b in zip(t.items, inner)))
