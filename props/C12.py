"""C12 - geometry of schematics: rotations, wires, scaling, alignment codes."""
import io
import itertools
import math
import os
from pathlib import Path
import z3
from pyvc.api import *
from pyvc import core
from props import ascgen, qschgen

M = 'editor.base_schematic'
QM = 'editor.qsch_editor'
ASSUMPTIONS = ["coordinates are mathematical reals or integers in the deductive part; the bounded part runs the real "
               "arithmetic on integer coordinates",
               "no two wires, labels, directives or components share one point object (the readers create one each)"]


@prove('C12', 'rotations add like angles', [f'{M}:ERotation.__add__'], conc=300)
def rotations(vc):
    R = vc.mod(M).ERotation
    plain = [r for r in R if r < 360]
    a = vc.choice('a', list(R))
    b = vc.choice('b', list(R))

    def ang(r):
        return int(r) % 360

    def mir(r):
        return int(r) >= 360
    s = a + b
    vc.check('the sum is a rotation', isinstance(s, R))
    vc.check('angles add up to full turns', ang(s) == (ang(a) + ang(b)) % 360)
    vc.check('mirrored when one of them is', mir(s) == (mir(a) != mir(b)))
    vc.check('in any order', b + a == s)
    for c in plain:
        vc.check('in any grouping', (a + b) + c == a + (b + c))
    vc.check('no rotation changes nothing', a + R.R0 == a)
    vc.check('a rotation followed by its opposite', a + R((360 - ang(b)) % 360) + R(ang(b)) == a)


def on_segment(p, q, v):
    """v lies on the closed segment p-q, exactly"""
    (px, py), (qx, qy), (vx, vy) = p, q, v
    cross = (qx - px) * (vy - py) - (qy - py) * (vx - px)
    dot = (vx - px) * (vx - qx) + (vy - py) * (vy - qy)
    return And(cross == 0, dot <= 0)


def number(vc, name):
    if vc.symbolic:
        return vc.real(name)
    return vc.int(name, -30, 30)


@prove('C12', 'a wire touches exactly the points of its segment', [f'{M}:Line.touches', f'{M}:Line.__init__',
                                                                   f'{M}:Point.__init__'], timeout=60)
def touches(vc):
    S = vc.mod(M)
    x1, y1, x2, y2, x, y = (number(vc, n) for n in ('x1', 'y1', 'x2', 'y2', 'x', 'y'))
    if not vc.symbolic and vc.choice('on it', [False, True]):
        k = vc.int('k', -1, 4)
        dx, dy = vc.int('dx', -60, 60), vc.int('dy', -60, 60)
        x2, y2, x, y = x1 + 3 * dx, y1 + 3 * dy, x1 + k * dx, y1 + k * dy
    a, b, p = S.Point(x1, y1), S.Point(x2, y2), S.Point(x, y)
    got = S.Line(a, b).touches(p)
    got = bool(got)
    back = bool(S.Line(b, a).touches(p))
    vc.check('it touches the points on the segment only', Implies(got, on_segment((x1, y1), (x2, y2), (x, y))))
    vc.check('it touches all points on the segment', Implies(on_segment((x1, y1), (x2, y2), (x, y)), got))
    vc.check('whatever the direction it was drawn in', got == back)


@prove('C12', 'wires intercept where an end of one lies on the other', [f'{M}:Line.intercepts'])
def intercepts(vc):
    S = vc.mod(M)
    c = [number(vc, f'c{i}') for i in range(8)]
    pts = [S.Point(c[2 * i], c[2 * i + 1]) for i in range(4)]
    l1, l2 = S.Line(pts[0], pts[1]), S.Line(pts[2], pts[3])
    if vc.symbolic:
        def on(line, p):
            return vc.E.uf('on', line.V1.X, line.V1.Y, line.V2.X, line.V2.Y, p.X, p.Y, ret=z3.BoolSort())
        vc.stub(S.Line.touches, 'Line.touches (its own contract)', on)
    else:
        def on(line, p):
            return on_segment((line.V1.X, line.V1.Y), (line.V2.X, line.V2.Y), (p.X, p.Y))
    got = bool(l1.intercepts(l2))
    vc.check('it depends on the ends only', Iff(got, Or(on(l1, pts[2]), on(l1, pts[3]), on(l2, pts[0]), on(l2, pts[1]))))
    vc.check('symmetric', got == bool(l2.intercepts(l1)))


# --- scaling ----------------------------------------------------------------------------------------------------------

@prove('C12', 'scaling moves every coordinate once', [f'{M}:BaseSchematic.scale'], internal=True, conc=0, timeout=120)
def scaling(vc):
    if not vc.symbolic:
        return vc.assume(False)
    S = vc.mod(M)
    E = vc.E
    P = RecordType('Point', {'X': RealK, 'Y': RealK})
    comp = RecordType('Component', {'position': P})
    wire = RecordType('Line', {'V1': P, 'V2': P})
    text = RecordType('Text', {'coord': P})
    port = RecordType('Port', {'text': text})
    text.pytypes = (S.Text,)
    sx, sy, ox, oy = (vc.real(n) for n in ('scale_x', 'scale_y', 'offset_x', 'offset_y'))

    def rnd(v):
        return E.uf('round', v)
    lists = {n: vc.seq(n, k) for n, k in (('components', comp), ('wires', wire), ('labels', text), ('directives', text),
                                         ('lines', wire), ('ports', port))}
    own = z3.Function('own', z3.IntSort(), z3.IntSort())       # which list and end a point belongs to
    pos = z3.Function('pos', z3.IntSort(), z3.IntSort())       # its position there
    ends = {}
    for q, (n, s) in enumerate(lists.items()):
        if n == 'ports':
            continue
        fields = {'components': ['position'], 'wires': ['V1', 'V2'], 'lines': ['V1', 'V2']}.get(n, ['coord'])
        for k, f in enumerate(fields):
            ends.setdefault(n, []).append((2 * q + k, f))
            E.assume(Forall(0, s.n, lambda i: And(wrap(own(getattr(at(s, i), f)._id) == 2 * q + k),
                                                  wrap(pos(getattr(at(s, i), f)._id) == i.e))))
    labels, ports = lists['labels'], lists['ports']
    # every port belongs to a label
    lab = z3.Function('label_of_port', z3.IntSort(), z3.IntSort())
    E.assume(Forall(0, ports.n, lambda i: And(wrap(lab(i.e) >= 0), wrap(lab(i.e) < labels.n.e),
                                              wrap(z3.Select(labels.arr, lab(i.e)) == at(ports, i).text._id))))

    class Components:
        def values(self):
            return lists['components']
    stop = {n: (lambda self, *a, **k: None) for n in S.BaseSchematic.__abstractmethods__}
    Ed = type('Ed', (S.BaseSchematic,), stop)
    ed = object.__new__(Ed)
    for n in lists:
        setattr(ed, n, lists[n])
    ed.components = Components()
    closed = [S.Point(vc.real(f'px{i}'), vc.real(f'py{i}')) for i in range(3)]
    ed.shapes = [S.Shape('POLY', closed[:2]), S.Shape('POLY', closed[2:])]
    p0 = [(p.X, p.Y) for p in closed]
    ed.canvas_updated = False
    X0, Y0 = E.heap(P, 'X'), E.heap(P, 'Y')

    def sc(a, f, p):
        s, o = (sx, ox) if f == 'X' else (sy, oy)
        return E.uf('round', wrap(z3.Select(a, p)) * s + o)
    entry = {}

    def inv(ident):
        def f(L, i):
            if isinstance(i, int):
                entry[ident] = (E.heap(P, 'X'), E.heap(P, 'Y'))
            mine = [n for n, s in lists.items() if L.seq is s]
            if not mine:
                raise Unsupported('a loop over something else')
            out = []
            if mine[0] == 'ports':
                def moved(p):
                    return z3.BoolVal(False)
            else:
                codes = ends[mine[0]]
                s = lists[mine[0]]

                def moved(p):
                    return z3.And(z3.Or([own(p) == c for c, _ in codes]), pos(p) >= 0, pos(p) < to_z3(i),
                                  z3.Or([getattr(at(s, wrap(pos(p))), fl)._id == p for _, fl in codes]))
            for k, fld in enumerate('XY'):
                p = z3.Int(f'p!{next(E.counter)}')
                h, e = E.heap(P, fld), entry[ident][k]
                out.append(wrap(z3.ForAll([p], z3.Select(h, p) == z3.If(moved(p), to_z3(sc(e, fld, p)), z3.Select(e, p)),
                                          patterns=[z3.Select(h, p)])))
            return out
        return f
    for k in range(8):
        vc.loop(f'{M}:BaseSchematic.scale#{k}', inv(k), heaps=[(P, 'X'), (P, 'Y')])
    ed.scale(ox, oy, sx, sy, rnd)
    X1, Y1 = E.heap(P, 'X'), E.heap(P, 'Y')
    for n, s in lists.items():
        if n == 'ports':
            continue
        for _, f in ends[n]:
            i = E.fresh_int('some')
            E.assume(And(i >= 0, i < s.n))
            p = getattr(at(s, i), f)._id
            vc.check(f'{n}: x', wrap(z3.Select(X1, p) == to_z3(sc(X0, 'X', p))))
            vc.check(f'{n}: y', wrap(z3.Select(Y1, p) == to_z3(sc(Y0, 'Y', p))))
    for p, (x, y) in zip(closed, p0):
        vc.check('shapes', And(p.X == rnd(x * sx + ox), p.Y == rnd(y * sy + oy)))
    vc.check('the sheet is known to have changed', ed.canvas_updated is True)


# --- codes ------------------------------------------------------------------------------------------------------------

CODES = ['Left', 'Center', 'Right', 'Top', 'Bottom', 'Invisible']
CODES = CODES + ['V' + c for c in CODES]


@prove('C12', 'alignment and rotation codes survive', ['editor.ltspice_utils:asc_text_align_set',
                                                      'editor.ltspice_utils:asc_text_align_get'], conc=60)
def codes(vc):
    S, U = vc.mod(M), vc.mod('editor.ltspice_utils')
    code = vc.choice('code', CODES)
    form = vc.choice('letters', [str, str.lower, str.upper])
    before = vc.choice('before', [None] + CODES)
    t = S.Text(S.Point(0, 0), 'x')
    if before:
        U.asc_text_align_set(t, before)
    r = U.asc_text_align_set(t, form(code))
    vc.check('the text itself is returned', r is t)
    vc.check('the code is written as read', U.asc_text_align_get(t) == code)
    vc.check('visible unless told otherwise', t.visible == ('Invisible' not in code))
    if before is None:
        for name, rot in U.ASC_ROTATION_DICT.items():
            vc.check('a rotation code is written as read', U.ASC_INV_ROTATION_DICT[rot] == name)
            vc.check('and denotes its angle', int(rot) == int(name[1:]) + (360 if name[0] == 'M' else 0))
        bad = vc.raises(lambda: U.asc_text_align_set(t, code + 'x'), ValueError)
        vc.check('another code is refused', bad[1] is not None)


# --- whole documents --------------------------------------------------------------------------------------------------

def scaled(sh, ox, oy, sx, sy):
    """the schematic with every coordinate moved once; windows of symbols and the texts in them are relative to the symbol"""
    def X(v):
        return int(v * sx + ox)

    def Y(v):
        return int(v * sy + oy)
    sh.wires = [[X(a), Y(b), X(c), Y(d)] for a, b, c, d in sh.wires]
    sh.flags = [[X(x), Y(y), t, p] for x, y, t, p in sh.flags]
    for s in sh.syms:
        s.x, s.y = X(s.x), Y(s.y)
    sh.texts = [[X(t[0]), Y(t[1])] + t[2:] for t in sh.texts]
    for dr in sh.draw:
        n = 8 if dr[0] == 'ARC' else 4
        dr[2:2 + n] = [(X if k % 2 == 0 else Y)(v) for k, v in enumerate(dr[2:2 + n])]


@bounded('C12', 'scaled and rotated LTspice schematics', [f'{M}:BaseSchematic.scale', f'{M}:BaseSchematic.set_component_position',
                                                         f'{M}:BaseSchematic.copy_from'])
def ltspice(bx):
    A = bx.mod('editor.asc_editor')
    S = bx.mod(M)
    d = bx.dir()
    ascgen.library(d)
    f, g = os.path.join(d, 'in.asc'), os.path.join(d, 'out.asc')
    for r in bx.each(300, 6000):
        sh = ascgen.Sheet(r)
        text = sh.text()
        with open(f, 'w', encoding='utf-8') as h:
            h.write(text)
        ed = A.AscEditor(f)
        log = []
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < .7:
                k = r.choice([(0, 0, 2, 2), (0, 0, 6.25, -6.25), (16, -32, 1, 1), (5, 7, 0.5, 3), (0, 0, -1, -1), (1000, 0, 1, 2)])
                via = r.choice(['scale', 'default'])
                ed.scale(*k) if via == 'default' else ed.scale(offset_x=k[0], offset_y=k[1], scale_x=k[2], scale_y=k[3], round_fun=int)
                scaled(sh, *k)
                log.append(('scale', k))
            if sh.syms and r.random() < .7:
                s = r.choice(sh.syms)
                s.x, s.y, s.rot = ascgen.num(r), ascgen.num(r), r.choice(ascgen.ROT)
                rot = S.ERotation[s.rot]
                if r.random() < .4:
                    # as the sum of two others
                    a = r.choice([q for q in S.ERotation if q < 360])
                    rot = (rot + a) + S.ERotation((360 - int(a)) % 360)
                if r.random() < .5:
                    ed.set_component_position(s.ref, S.Point(s.x, s.y), rot)
                else:
                    ed[s.ref].position, ed[s.ref].rotation = S.Point(s.x, s.y), rot
                log.append(('position', s.ref, s.x, s.y, s.rot))
            for s in sh.syms:
                p, rot = ed.get_component_position(s.ref)
                bx.check((p.X, p.Y) == (s.x, s.y) and rot == S.ERotation[s.rot], 'a component is where it was put', (text, log, s.ref, p, rot))
        ed.save_netlist(g)
        got = open(g, encoding=ed.encoding).read().lstrip('\ufeff')
        bx.check(ascgen.canon(got) == sh.canon(), 'every coordinate is moved once, nothing else changes', (text, log, got))
        for a in range(8):
            b = r.randrange(8)
            if len(sh.wires) > max(a, b):
                w, v = ed.wires[a], ed.wires[b]
                P = [((q.V1.X, q.V1.Y), (q.V2.X, q.V2.Y)) for q in (w, v)]
                want = any(on_exact(*P[0], e) for e in P[1]) or any(on_exact(*P[1], e) for e in P[0])
                bx.check(bool(w.intercepts(v)) == want == bool(v.intercepts(w)), 'wires that meet', (P, want))
        bx.done((text, log), nontrivial=bool(log))


def on_exact(p, q, v):
    (px, py), (qx, qy), (vx, vy) = p, q, v
    return (qx - px) * (vy - py) == (qy - py) * (vx - px) and (vx - px) * (vx - qx) + (vy - py) * (vy - qy) <= 0


def turned(x, y, o):
    """the place of a pin of a component turned by o eighths of a turn (mirrored from 8 on); eighths make it sqrt(2) larger"""
    if o % 2:
        x, y = x - y, x + y
    for _ in range(o % 8 // 2):
        x, y = -y, x
    return (-x if o >= 8 else x), y


@bounded('C12', 'pins of turned QSPICE components', ['editor.qsch_editor:QschEditor._find_pin_position',
                                                    'editor.qsch_editor:QschComponent.set_position',
                                                    'editor.qsch_editor:QschEditor.set_component_position'])
def pins(bx):
    Q = bx.mod('editor.qsch_editor')
    S = bx.mod(M)
    d = bx.dir()
    f, g = os.path.join(d, 'in.qsch'), os.path.join(d, 'out.qsch')
    N = qschgen.N

    def net(x, y):
        return f'n{x}_{y}'.replace('-', 'm')

    def sheet(o, x, y, grid):
        s = N('symbol', 'X', items=[N('type:', 'X'), N('description:', 'x'), N('shorted pins:', 'false')] +
              [N('text', (0, 0), '1', 7, 0, '0x1000000', -1, -1, qschgen.q(t)) for t in ('U1', 'block')] +
              [N('pin', p, (0, 0), 1, 0, 0, '0x0', -1, qschgen.q(f'p{k}')) for k, p in enumerate(grid)])
        root = N('schematic', items=[N('component', (x, y), o, 0, items=[s])])
        for p in grid:
            a, b = turned(*p, o)
            n = net(*p)
            root.items.append(N('net', (x + a, y + b), 1, 13, 0, qschgen.q(n)) if hash(p) % 3 else
                              N('wire', (x + a, y + b), (99900, 99900), qschgen.q(n)))
        return qschgen.HEADER + root.out()
    full = [(100 * i, 100 * j) for i in range(-10, 11) for j in range(-10, 11)]
    for r in bx.each(64, 640):
        o = r.randrange(16)
        x, y = (100 * r.randint(-50, 50) for _ in 'xy')
        grid = r.sample(full, 60) if r.random() < .5 else [(100 * r.randint(-200, 200), 100 * r.randint(-200, 200)) for _ in range(60)]
        grid = list(dict.fromkeys(grid))
        text = sheet(o, x, y, grid)
        with open(f, 'w', encoding='cp1252') as h:
            h.write(text)
        ed = Q.QschEditor(f)
        want = [net(*p) for p in grid]
        got = [str(v) for v in ed['U1'].ports]
        bad = [(p, w, v) for p, w, v in zip(grid, want, got) if w != v]
        bx.check(not bad and len(got) == len(want), 'a pin is on the net that is where the turned component has it', (o, x, y, repr(bad[:2]), [type(v) for v in got[:2]]))
        p, rot = ed.get_component_position('U1')
        bx.check((p.X, p.Y) == (x, y), 'the component is where the file has it', (x, y, p))
        bx.check(int(rot) % 360 == o % 8 * 45 and (int(rot) >= 360) == (o >= 8), 'and turned the same', (o, rot))
        # put elsewhere
        o2, x2, y2 = r.randrange(16), 100 * r.randint(-50, 50), 100 * r.randint(-50, 50)
        angle = o2 % 8 * 45
        way = r.choice(['enum', 'enum', 'int' if o2 < 8 else 'enum', 'mirror'])
        if way == 'mirror':
            ed.set_component_position('U1', (x2, y2), angle, o2 >= 8)
        else:
            a = angle + 360 * (o2 >= 8)
            ed.set_component_position('U1', S.Point(x2, y2) if r.random() < .5 else (x2, y2), S.ERotation(a) if way == 'enum' else a)
        p, rot = ed.get_component_position('U1')
        bx.check((p.X, p.Y) == (x2, y2) and int(rot) % 360 == angle, 'a component is where it was put', (x2, y2, o2, way, p, rot))
        ed.save_as(g)
        back = qschgen.read_file(g)
        head = [n for n in back[1] if n[0].startswith('component')][0][0]
        bx.check(head == f'component ({x2},{y2}) {o2} 0', 'and is written so', (head, x2, y2, o2, way))
        p, rot = Q.QschEditor(g).get_component_position('U1')
        bx.check((p.X, p.Y) == (x2, y2) and int(rot) % 360 == angle and (int(rot) >= 360) == (o2 >= 8), 'and read so again',
                 (x2, y2, o2, p, rot))
        bx.done((o, x, y, grid, o2, way), nontrivial=True)


@prove('C12', 'a component of a QSPICE schematic is put where it is told to be, turned and mirrored so', [
    f'{QM}:QschComponent.set_position', f'{QM}:QschEditor.set_component_position', f'{QM}:QschEditor.get_component_position', f'{QM}:QschComponent.get_position'],
       internal=True, conc=0)
def put_qsch(vc):
    """anywhere, in every orientation, said in any of the ways; what else the component has stays as it is"""
    if not vc.symbolic:
        return vc.assume(False)
    mod, B = vc.mod(QM), vc.mod(M)
    R = B.ERotation
    ed = mod.QschEditor.__new__(mod.QschEditor)
    ed.canvas_updated, ed.components = False, {}
    for ref in ('R1', 'R2'):
        tag, _ = mod.QschTag.parse('«component (100,-300) %d 0\n«symbol R\n«type: R»\n«text (0,0) 1 7 0 0x1 -1 -1 "%s"»\n»\n»\n' % (3 if ref == 'R1' else 9, ref))
        c = mod.QschComponent(ed, tag)
        c.reference, c.position, c.rotation = ref, B.Point(100, -300), R.R135 if ref == 'R1' else R.M45
        ed.components[ref] = c
    c, o = ed.components['R1'], ed.components['R2']
    inside = [str(t) for t in c.tag.items]
    other = str(o.tag)
    x, y = vc.int('x'), vc.int('y')
    how = vc.choice('rotation said as', ['rotation', 'degrees'])
    rot = vc.choice('rotation', list(R)) if how == 'rotation' else vc.choice('degrees', [0, 45, 90, 135, 180, 225, 270, 315])
    mirror = vc.choice('mirror', [False, True])
    pos = B.Point(x, y) if vc.choice('position said as', ['point', 'tuple']) == 'point' else (x, y)
    if vc.choice('through the editor', [True, False]):
        vc.stub(B.BaseSchematic.get_component, 'get_component: the component of that name (C09)', lambda self, ref: self.components[ref])
        ed.set_component_position('R1', pos, rot, mirror)
        p, r = ed.get_component_position('R1')
    else:
        c.set_position(pos, rot, mirror)
        p, r = c.get_position()
    want = R(int(rot) % 360 + (360 if mirror or int(rot) >= 360 else 0))
    vc.check('it is read there', And(p.X == x, p.Y == y))
    vc.check('and turned so', r == want)
    vc.check('the file says so too', And(c.tag.tokens[0] == 'component', len(c.tag.tokens) == 4, c.tag.tokens[3] == '0'))
    place = c.tag.tokens[mod.QSCH_COMPONENT_POS]
    m = place[1:-1].split(',') if isinstance(place, str) and place[:1] == '(' and place[-1:] == ')' else []
    nums = [vc.E.untoken(t) for t in m]
    if len(nums) != 2 or not all(nums):
        raise core.Unsupported('a place written in another way')
    vc.check('the place that is written', And(nums[0][0] == x, nums[1][0] == y))
    vc.check('the orientation that is written', c.tag.get_attr(mod.QSCH_COMPONENT_ROTATION) == int(want) // 45)
    vc.check('the texts and shapes stay', [str(t) for t in c.tag.items] == inside)
    vc.check('so does every other component', And(str(o.tag) == other, o.position.X == 100, o.position.Y == -300, o.rotation == R.M45))
    vc.check('there is something to be saved', ed.canvas_updated is True)


@prove('C12', 'a component is put where it is told to be, on its own sheet', [f'{M}:BaseSchematic.set_component_position', f'{M}:BaseSchematic.get_component_position',
                                                                         'editor.asc_editor:AscEditor.get_component_position'], internal=True, conc=0)
def put_base(vc):
    if not vc.symbolic:
        return vc.assume(False)
    mod, B = vc.mod('editor.asc_editor'), vc.mod(M)
    R = B.ERotation

    def comp():
        c = mod.AscComponent(None, '')
        c.position, c.rotation = B.Point(1, 2), R.M90
        return c
    sheets = []
    for k in range(2):
        ed = mod.AscEditor.__new__(mod.AscEditor)
        ed.components, ed.canvas_updated = {'R1': comp(), 'X1': comp()}, False
        sheets.append(ed)
    top, block = sheets
    top.components['X1'].attributes['_SUBCKT'] = block
    where = vc.choice('which', ['R1', 'X1', 'X1:R1'])
    home, other = (block, top) if ':' in where else (top, block)
    mine = home.components[where.split(':')[-1]]
    p, r = B.Point(vc.int('x'), vc.int('y')), vc.choice('rotation', list(R))
    _, e = vc.raises(lambda: top.set_component_position(where, p, r), Exception)
    if isinstance(e, core.Unsupported):
        raise e
    vc.check('accepted', e is None)
    q, s = top.get_component_position(where)
    vc.check('it is read there, turned so', And(q.X == p.X, q.Y == p.Y, s == r))
    vc.check('it is that component', And(mine.position.X == p.X, mine.position.Y == p.Y, mine.rotation == r))
    vc.check('no other is moved', all(c is mine or (c.position.X, c.position.Y, c.rotation) == (1, 2, R.M90) for d in sheets for c in d.components.values()))
    vc.check('there is something to be saved', home.canvas_updated is True)
