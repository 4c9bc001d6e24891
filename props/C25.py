"""C25 - the netlist written for a QSPICE schematic is the circuit that is drawn."""
import io
import os
import re
import z3
from pyvc.api import *
from . import qschgen as G
from .C12 import turned

M = 'editor.qsch_editor'
ASSUMPTIONS = ["the line of every kind of component is taken from QSPICE's own netlists in the repository's golden files",
               "pins are on the grid of 100, where QSPICE puts them", "nets of a moved component are those of the schematic as it was loaded"]

# kind -> (names of symbols, number of pins)
KINDS = {'R': (['R'], 2), 'C': (['C'], 2), 'V': (['V'], 2), 'D': (['D', 'LED'], 2), 'B': (['B1'], 2), 'L': (['L'], 2), 'I': (['I'], 2),
         'MN': (['NMOS', 'NMOSB'], 3), 'MP': (['PMOS', 'PMOSB'], 4), 'QN': (['NPN', 'NPNS'], 4), 'QP': (['PNP', 'LPNP'], 4), 'JN': (['NJF', 'PwrNJF'], 3),
         'T': (['T'], 4), '×': (['×'], 3), 'ZN': (['NMES'], 3), 'X': (['X', 'Opamp'], 3), 'E': (['E'], 4), '¥': (['¥'], 3), '€': (['€'], 5), '£': (['£'], 2),
         'Ø': (None, 3)}


def line(ref, typ, symbol, nets, model, params, verilog=None):
    """the line of a component"""
    if ref[0] != typ[0]:
        ref = typ[0] + '´' + ref
    p = ''.join(' ' + re.sub(r'(\w+)=<(.*)>', r'\1=\2', t) for t in params)
    n = ' '.join(nets)
    if typ in ('QN', 'QP'):
        if symbol in ('NPNS', 'PNPS', 'LPNP'):
            return f"{ref} {' '.join(nets[:3])} [{nets[3]}]{''.join(' ' + x for x in nets[4:])} {model} {'NPN' if symbol == 'NPNS' else 'PNP'}{p}"
        return f'{ref} {n} [0] {model} {symbol}{p}'
    if typ in ('MN', 'MP'):
        symbol = symbol[:4] if symbol in ('NMOSB', 'PMOSB') else symbol
        return f'{ref} {n} {nets[2]} {model} {symbol}{p}' if len(nets) == 3 else f'{ref} {n} {model} {symbol}{p}'
    if typ in ('JN', 'JP'):
        return f"{ref} {n} {model} {symbol.removeprefix('Pwr')}{p}"
    if typ in ('ZN', 'ZP'):
        return f'{ref} {n} {model} {symbol}{p}'
    if typ == '×':
        return f'{ref} «{n}» {model}{p}'
    if typ == 'Ø':
        g = [' '.join(f'{m}´{t}' for m, (way, t) in zip(nets, verilog) if way in ways)
             for ways in (('in', 'input'), ('out', 'output'), ('common', 'inout'))]
        return f'{ref} «{g[0]}» «{g[1]}» «{g[2]}»  {symbol}{p}'
    return f'{ref} {n} {model}{p}'


class Circuit:
    """a schematic, and what its netlist is to hold"""

    def __init__(self, r, top=True, sub=None):
        self.r, self.root, self.comps, self.verilog = r, G.N('schematic'), [], {}
        self.sub = sub
        cnt = {}
        spots = [(100 * r.randint(-9, 9), 100 * r.randint(-9, 9)) for _ in range(r.randint(1, 7))]
        for k in range(r.randint(1, 7)):
            typ = r.choice(list(KINDS) if top else ['R', 'C', 'MN', 'V', 'L'])
            if sub and r.random() < .3:
                typ = 'sub'
            letter = 'X' if typ in ('sub', 'Ø') else typ[0]
            if r.random() < .12 and typ not in ('sub', '¥', '€', '£'):
                letter = r.choice('URZ')
            cnt[letter] = cnt.get(letter, 0) + 1
            self.component(typ, letter + str(cnt[letter]), spots)
        self.nets(spots)
        for t in r.sample(['.tran 10m', '.param a=1 b={a*2}', 'plain words', '.lib x.lib', '.param q=1\\n  .save V(out) \\n.ic V(a)=1', '* a remark', '.step param a 1 2 1'],
                          r.randint(0, 4)):
            pre = G.BOM if r.random() < .8 and t[0] == '.' else ''
            self.root.items.append(G.N('text', (G.num(r), G.num(r)), r.choice(['1', '0.5']), 7, 1 if r.random() < .2 else 0, '0x1000000', -1, -1, G.q(pre + t)))
        if r.random() < .4:
            r.shuffle(self.root.items)

    def component(self, typ, ref, spots):
        r = self.r
        symbols, npins = KINDS.get(typ, (None, len(SUB)))
        if typ not in ('sub', 'Ø') and r.random() < .1:
            npins += 1
        symbol = r.choice(symbols) if symbols else None
        model = r.choice(['10K', '{res}', 'NM', 'a b c', 'V={time}', '4µ7']) if typ not in ('sub', 'Ø', 'X') else 'sub' if typ == 'sub' else 'model' + str(r.randint(1, 3))
        o, at = r.choice(range(16)), (100 * r.randint(-30, 30), 100 * r.randint(-30, 30))
        off = r.random() < .12
        lib = r.choice(['', '', 'a b.lib', 'c.txt', 'b.lib', 'ac.txt', 'txt', '|.model %s NMOS(a=1)\\n+ x' % model, '|.subckt %s A B\\nR1 A B 1\\n.ends %s' % (model, model)]) if typ in ('X', 'MN', 'D') else ''
        s = G.N('symbol', symbol) if symbol else G.N('symbol')
        s.items += [G.N('type:', '' if typ == 'sub' else 'Ø' if typ == 'Ø' else typ), G.N('description:', 'x')]
        if lib:
            s.items.append(G.N('library file:', lib))
        s.items.append(G.N('shorted pins:', 'false'))
        params = [r.choice(['m=2', 'W=<1u>', 'L={2*l}', 'some words', 'ic=0', 'a=1 b=2', 'tc1=0.1']) for _ in range(r.choice([0, 0, 0, 1, 2, 3, 9]))]
        for t in [ref, model] + params:
            s.items.append(G.N('text', (G.num(r), G.num(r)), '1', 7, 0, '0x1000000', -1, -1, G.q(t)))
        pins = []
        for k in range(npins):
            if r.random() < .6:   # a pin on one of the common places
                x, y = r.choice(spots)
            else:
                x, y = (100 * r.randint(-40, 40), 100 * r.randint(-40, 40))
            # the pin is placed so that the turned component has it there
            if o % 2 and (x - at[0] + y - at[1]) % 200:   # a component at 45 degrees has its pins at every other place
                x += 100
            dx, dy = x - at[0], y - at[1]
            if o >= 8:
                dx = -dx
            if o % 2:
                dx, dy = (dx + dy) // 2, (dy - dx) // 2
            for _ in range(o % 8 // 2):
                dx, dy = dy, -dx
            assert turned(dx, dy, o) == (x - at[0], y - at[1])
            beh = typ in '¥€£' and r.random() < .4
            s.items.append(G.N('pin', (dx, dy), (0, 0), 1, 0, 0, '0x0', -1, G.q(SUB[k] if typ == 'sub' else f'p{k}'), *(['¥'] if beh else [])))
            pins.append(((x, y), beh))
        if typ == 'Ø':
            self.verilog[ref] = [(r.choice(['in', 'input', 'out', 'output', 'common', 'inout']), r.choice(['b', 'uc', 'f'])) for _ in pins]
        self.root.items.append(G.N('component', at, o, 1 if off else 0, items=[s]))
        self.comps.append([ref, 'X' if typ == 'sub' else typ, symbol or ('X' if typ == 'sub' else model), pins, model, params, off, lib, self.root.items[-1], typ == 'sub'])

    def nets(self, spots):
        r = self.r
        self.at = {}
        places = list(dict.fromkeys(p for c in self.comps for p, _ in c[3]))
        names = ['GND', 'out', 'GND2', 'AGND', '0V', 'N01', 'N07', 'N1000', 'Nx', 'N-3', 'vin', 'a_b', 'N02', 'gnd', 'N00', 'N3', '0', 'N12', 'n13', 'N9', 'N99', 'N100', 'N999']
        names = r.sample(names, r.randint(2, len(names)))
        labels, wires = [], []
        for p in places:
            how = r.random()
            n = r.choice(names)
            q = (100 * r.randint(300, 400), 100 * r.randint(300, 400))
            if how < .35:
                self.at[p] = n
                labels.append(G.N('net', p, 1, 13, 0, G.q(n)))
                if r.random() < .3:
                    wires.append(G.N('wire', p, q, G.q(n)))
            elif how < .75:
                self.at[p] = n
                wires.append(G.N('wire', *((p, q) if r.random() < .5 else (q, p)), G.q(n)))
                if r.random() < .2:   # passes by without ending here
                    wires.append(G.N('wire', (p[0] - 100, p[1]), (p[0] - 250, p[1]), G.q(n)))
        for p in [p for p in self.at if r.random() < .1]:
            wires.append(G.N('wire', p, (77700, 100), G.q(self.at[p])))
        # a wire that ends where a free pin is would connect it
        ends = {w.words[k] for w in wires for k in (1, 2)}
        self.wires_at(wires, places)
        for _ in range(r.randint(0, 2)):
            wires.append(G.N('wire', (99900, 0), (99900, 500), G.q(r.choice(names))))
        for _ in range(r.randint(0, 2)):
            labels.append(G.N('net', (99000, 100 * r.randint(0, 9)), 1, 13, 0, G.q(r.choice(names))))
        r.shuffle(wires)
        self.root.items += labels + wires
        self.names = {n for n in (w.words[-1][1:-1] for w in wires + labels)}

    def wires_at(self, wires, places):
        """drops the wires that would touch a pin they were not made for"""
        for w in list(wires):
            for k in (1, 2):
                for p in places:
                    if w.words[k] == f'({p[0]},{p[1]})' and self.at.get(p) != w.words[3][1:-1]:
                        if w in wires:
                            wires.remove(w)

    def write(self, path):
        with open(path, 'w', encoding='cp1252') as f:
            f.write(G.HEADER + self.root.out())


SUB = ['A', 'B', 'out']


def match_body(bx, got, cir, sub, log, inside=False):
    """compares the lines of a netlist with a circuit, taking them off the list; nets of free pins may have any name of their own"""
    free = {}
    libs, subs = [], []

    def take(what):
        ok = bx.check(bool(got), 'the netlist goes on', (what, log))
        return got.pop(0) if ok else None
    order = [i for i in cir.root.items if i.words[0] == 'component']
    for ref, typ, symbol, pins, model, params, off, lib, tag, is_sub in sorted(cir.comps, key=lambda c: order.index(c[8])):
        if off:
            continue
        if lib.startswith('|'):
            full = ref if ref[0] == typ[0] else typ[0] + '´' + ref
            text = re.sub(r'^\|\.(model|subckt) (\w+) ', lambda m: f'.{m[1]} {full}•{m[2]} ', lib)
            for w in text.split('\\n'):
                if not bx.check(take(w) == w, 'an embedded model is written before the component', (w, log)):
                    return
            model = f'{full}•{model}'
        elif lib and lib not in libs:
            libs.append(lib)
        nets, marks = [], []
        for p, beh in pins:
            n = cir.at.get(p)
            if beh and ref[0] in '¥Ã€£':
                nets.append('¥')
            elif n is not None:
                nets.append('0' if n == 'GND' else n)
            else:
                nets.append(free.setdefault(p, f'\0{len(free)}\0'))
        want = {'¥': 16, 'Ã': 16, '€': 32, '£': 64}.get(typ, 0)
        nets += ['¥'] * (want - len(nets))
        w = line(ref, typ, symbol, nets, model, params, cir.verilog.get(ref))
        g = take(w)
        pat = re.sub('\0(\\d+)\0', lambda m: f'(?P<f{m[1]}>' + r"[^\s\]´»]+)" if not marks.append(m[1]) and marks.count(m[1]) == 1 else f'(?P=f{m[1]})', w)
        pat = ''.join(x if i % 2 else re.escape(x) for i, x in enumerate(re.split(r'(\(\?P<f\d+>\[\^\\s\\\]´»\]\+\)|\(\?P=f\d+\))', pat)))
        m = re.fullmatch(pat, g or '')
        if not bx.check(m is not None, 'an enabled component has one line with its nets, model and parameters', (g, w, log)):
            return
        for k, v in m.groupdict().items():
            was = cir.free.setdefault(k, v)
            bx.check(was == v, 'pins at one place are on one net', (g, w, log))
        if is_sub:
            subs = [model]
    vals = list(cir.free.values())
    bx.check(len(set(v.upper() for v in vals)) == len(vals), 'pins that are not connected are on nets of their own', (vals, log))
    bx.check(not {v.upper() for v in vals} & ({n.upper() for n in cir.names} | {'0'}), 'the net of a pin that is not connected is used by no other', (vals, cir.names, log))
    for _ in subs:
        for w in ('', f".subckt sub {' '.join(SUB)}"):
            if not bx.check(take(w) == w, 'an inner schematic is written once, with its ports', (w, log)):
                return
        sub.free = {}
        match_body(bx, got, sub, None, log, True)
        for w in ('.ends sub', ''):
            if not bx.check(take(w) == w, 'and ends', (w, log)):
                return
    for t in cir.root.items:
        if t.words[0] == 'text' and t.words[4] != '1':
            for w in t.text().removeprefix(G.BOM).split('\\n'):
                if not bx.check(take(w) == w.strip(), 'every directive, line by line', (w, log)):
                    return
    for l in libs:
        g = take(l)
        bx.check(g == f'.lib {cir.found.get(l, l)}', 'every library once', (g, l, log))
    if not inside:
        bx.check(got == ['.end', ''], 'the end', (got, log))


@bounded('C25', 'netlists of schematics', [f'{M}:QschEditor.write_spice_to_file', f'{M}:QschEditor.save_netlist', f'{M}:QschEditor._parse_qsch_stream',
                                          f'{M}:QschEditor._find_net_at_position', f'{M}:decap'])
def netlists(bx):
    Q = bx.mod(M)
    for r in bx.each(700, 12000):
        d = bx.dir()
        sub = Circuit(r, top=False) if r.random() < .4 else None
        cir = Circuit(r, True, sub)
        cir.dir, cir.found, cir.free = d, {}, {}
        if sub:
            sub.dir, sub.found, sub.free = d, cir.found, {}
            sub.write(os.path.join(d, 'sub.qsch'))
        # the libraries are beside the schematic, else on the paths of the user, else on those of the simulator
        other = bx.dir()
        home = os.getcwd()
        os.chdir(bx.dir())     # the search also looks into the working directory
        paths = [d, os.path.join(other, 'user'), os.path.join(other, 'simulator')]
        for l in ('a b.lib', 'c.txt', 'b.lib', 'ac.txt', 'txt'):
            for p in paths:
                os.makedirs(p, exist_ok=True)
                if r.random() < .3:
                    open(os.path.join(p, l), 'w').close()
                    cir.found.setdefault(l, os.path.join(p, l))
        Q.QschEditor.set_custom_library_paths([paths[1]])
        f = os.path.join(d, 'top.qsch')
        cir.write(f)
        was = Q.QschEditor.simulator_lib_paths
        Q.QschEditor.simulator_lib_paths = [paths[2]]
        ed = Q.QschEditor(f)
        log = [cir.root.out()]
        for _ in range(r.choice([0, 0, 1, 2])):
            c = r.choice(cir.comps) if cir.comps else None
            op = r.choice(['value', 'del', 'add'])
            if op == 'value' and c and c[1] not in ('X', 'Ø') and not c[7]:
                ed.set_component_value(c[0], '33k')
                c[4] = '33k'
            elif op == 'del' and c and len(cir.comps) > 1:
                ed.remove_component(c[0])
                cir.comps.remove(c)
                cir.root.items.remove(c[8])
            elif op == 'add':
                t = f'.save V(q{len(log)})'
                ed.add_instruction(t)
                i = [k for k, x in enumerate(ed.schematic.items) if t in str(x)][0]
                cir.root.items.insert(i, G.N('text', (0, 0), 1, 7, 0, 0, 0, 0, G.q(t)))
            log.append((op, c and c[0]))
        conf = {k: [','.join(p) for p in v] for k, v in cir.verilog.items()}
        how = r.choice(['.net', '.cir', 'path', 'buffer'])
        if how == 'buffer':
            h = io.StringIO()
            ed.save_netlist(h, conf)
            text = h.getvalue()
        else:
            g = os.path.join(d, 'out' + (how if how[0] == '.' else '.net'))
            with open(g, 'w') as h:
                h.write('what was there before\n' * 3)
            ed.save_netlist(__import__('pathlib').Path(g) if how == 'path' else g, conf)
            text = open(g, encoding='cp1252').read()
        got = text.split('\n')
        bx.check(got.pop(0) == f'* {f}', 'the first line names the schematic', (text, log))
        match_body(bx, got, cir, sub, (log, text))
        h = io.StringIO()
        ed.save_netlist(h, conf)
        bx.check(h.getvalue() == text, 'the same again', (text, log))
        Q.QschEditor.simulator_lib_paths = was
        Q.QschEditor.set_custom_library_paths([])
        bx.done(str(log), nontrivial=len(cir.comps) > 1)
        os.chdir(home)
        __import__('shutil').rmtree(d, ignore_errors=True)
        __import__('shutil').rmtree(other, ignore_errors=True)


def over(L, seq):
    if L.seq is not seq:
        raise core.Unsupported('a loop over something else')
    return True


# --- contracts --------------------------------------------------------------------------------------------------------

def editor(vc, Q):
    ed = object.__new__(type('Ed', (Q.QschEditor,), {n: (lambda self, *a, **k: None) for n in Q.QschEditor.__abstractmethods__}))
    return ed


@prove('C25', 'the net at a place is that of the label there, else of a wire that ends there', [f'{M}:QschEditor._find_net_at_position'], internal=True, conc=400)
def net_at(vc):
    Q = vc.mod(M)
    ed = editor(vc, Q)
    x, y = vc.int('x', -3, 3), vc.int('y', -3, 3)
    if not vc.symbolic:
        lists = {n: [tuple(vc.int(f'{n}{i}{q}', -3, 3) for q in 'abcd') + (vc.choice(f'{n}{i}n', ['GND', 'a', 'b', 'N01', 'gnd']),)
                     for i in range(vc.int(n, 0, 4))] for n in ('net', 'wire')}

        class Sch:
            def get_items(self, n):
                return [Q.QschTag('net', f'({a},{b})', 1, 13, 0, f'"{t}"') if n == 'net' else
                        Q.QschTag('wire', f'({a},{b})', f'({c},{d})', f'"{t}"') for a, b, c, d, t in lists[n]]
        ed.schematic = Sch()
        hits = [t for a, b, c, d, t in lists['net'] if (a, b) == (x, y)] + [t for a, b, c, d, t in lists['wire'] if (x, y) in ((a, b), (c, d))]
        got = ed._find_net_at_position(x, y)
        return vc.check('the first label, else the first wire', got == (None if not hits else '0' if hits[0] == 'GND' else hits[0]))

    def attr(names):
        return lambda self, k: (self.x, self.y) if names[k] == 1 else (self.u, self.v) if names[k] == 2 else self.name
    F = {'x': IntK, 'y': IntK, 'u': IntK, 'v': IntK, 'name': StrK}
    net = RecordType('Net', F, {'get_attr': attr({1: 1, 5: 5}), 'get_text_attr': attr({5: 5})})
    wire = RecordType('Wire', F, {'get_attr': attr({1: 1, 2: 2, 3: 5}), 'get_text_attr': attr({3: 5})})
    lists = {'net': vc.seq('nets', net), 'wire': vc.seq('wires', wire)}

    class Sch:
        def get_items(self, n):
            return lists[n]
    ed.schematic = Sch()

    def hit(n, e):
        at1 = And(e.x == x, e.y == y)
        return at1 if n == 'net' else Or(at1, And(e.u == x, e.v == y))

    def inv(n):
        return lambda L, i: [over(L, lists[n]), Forall(0, i, lambda j: Not(hit(n, at(lists[n], j))))]
    for k, n in enumerate(('net', 'wire')):
        vc.loop(f'{M}:QschEditor._find_net_at_position#{k}', inv(n))
    got = ed._find_net_at_position(x, y)
    E = vc.E
    if got is None:
        for n in lists:
            j = E.fresh_int('any')
            E.assume(And(j >= 0, j < lists[n].n))
            vc.check('nothing is there', Not(hit(n, at(lists[n], j))))
        return
    # the first one: no label before it is there, and no label at all if it is a wire
    n = vc.choice('what is there first', ['net', 'wire'])
    f = E.fresh_int('first')
    E.assume(And(f >= 0, f < lists[n].n, hit(n, at(lists[n], f))))
    E.assume(Forall(0, f, lambda j: Not(hit(n, at(lists[n], j)))))
    if n == 'wire':
        E.assume(Forall(0, lists['net'].n, lambda j: Not(hit('net', at(lists['net'], j)))))
    name = at(lists[n], f).name
    vc.check('the one that comes first', Or(And(name == 'GND', got == '0'), And(name != 'GND', got == name)))


class Kinds(core.Kind):
    """a component: any kind, number of pins and of parameter texts, enabled or not"""

    def __init__(self, Q, table, on_wrap):
        super().__init__('component', z3.IntSort())
        self.Q, self.table, self.on_wrap = Q, table, on_wrap

    def wrap(self, e):
        E = core.eng()
        typ, symbol, npins = self.table[E.branch(len(self.table))]
        off = E.branch(2) == 1
        params = [['m=2', 'W=<1u>', 'x'][k] for k in range(E.branch(4))]
        ref = ('U7', typ[0] + '7')[E.branch(2)]
        tag = self.Q.QschTag.parse(G.N('component', (0, 0), 0, 0, items=[G.N('symbol', symbol, items=[G.N('type:', typ), G.N('description:', 'x')] + [
            G.N('text', (0, 0), 1, 7, 0, 0, 0, 0, G.q(t)) for t in [ref, 'model'] + params])]).out())[0]
        nets = [f'n{k}' for k in range(npins)]

        class Comp:
            attributes = {'tag': tag, 'enabled': not off}
            value = 'model'

            def port_list(self):
                return list(nets)
        want = {'¥': 16, '€': 32, '£': 64}.get(typ, 0)
        self.on_wrap(None if off else line(ref, typ, symbol, nets + ['¥'] * (want - npins), 'model', params))
        return ref, Comp()


@prove('C25', 'every enabled component has one line, and every directive follows', [f'{M}:QschEditor.write_spice_to_file', f'{M}:QschTag.get_text', f'{M}:decap'],
       internal=True, conc=0, timeout=120)
def lines_written(vc):
    if not vc.symbolic:
        return vc.assume(False)
    Q, E = vc.mod(M), vc.E
    ed = editor(vc, Q)
    group = vc.choice('kinds', [0, 1, 2, 3])
    table = [(t, s, n) for t, (ss, n) in KINDS.items() if ss for s in ss][group::4]
    ghost = type('Ghost', (), {'due': None, 'count': 0, 'phase': 'components'})()

    def on_wrap(due):
        ghost.due = due
    comps = vc.seq('components', Kinds(Q, table, on_wrap))

    class Comps:
        def items(self):
            return comps
    ed.components = Comps()
    LineK = StrK
    per = z3.Function('lines_of_text', z3.IntSort(), z3.IntSort())
    words = z3.Function('line_of_text', z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.StringSort()))

    class Text:
        def __init__(self, i):
            self.i = i

        def removeprefix(self, p):
            if p != G.BOM:
                raise core.Unsupported('another prefix')
            return self

        def split(self, sep):
            if sep != '\\n':
                raise core.Unsupported('another separator')
            n = wrap(per(to_z3(self.i)))
            E.assume(n >= 1)
            return core.SSeq(StrK, n, words(to_z3(self.i)), False, 'lines')
    tag = RecordType('TextTag', {'comment': IntK, 'id': IntK}, {
        'get_attr': lambda self, k: Text(self.id) if k == 8 else self.comment if k == 4 else None})
    texts = vc.seq('texts', tag)

    class Sch:
        def get_items(self, n):
            ghost.phase = 'texts'
            return texts if n == 'text' else []
    ed.schematic = Sch()

    class File:
        def write(self, s):
            if ghost.phase == 'components':
                vc.check('the line of the component', ghost.due is not None and s == ghost.due + '\n')
                ghost.due = None
            else:
                t, k = ghost.at
                vc.check('the line of a directive', And(t.comment != 1, s == wrap(z3.Select(words(to_z3(t.id)), to_z3(k))).strip() + '\n'))
                ghost.count = ghost.count + 1

    def havoc0(E, L):
        ghost.due = None
        return [ghost]

    def inv0(L, i):
        over(L, comps)
        return [wrap(z3.BoolVal(ghost.due is None)), wrap(z3.BoolVal(not L.libraries_to_include and not L.subcircuits_to_write))]
    vc.loop(f'{M}:QschEditor.write_spice_to_file#0', inv0, havoc=havoc0)
    # the texts: every line of every text that isn't a comment, once, in order
    due = z3.Function('lines_due_before', z3.IntSort(), z3.IntSort())
    E.assume(wrap(due(0) == 0))
    E.assume(Forall(0, texts.n, lambda j: wrap(due(j.e + 1) == due(j.e) + z3.If(to_z3(at(texts, j).comment) == 1, 0, per(to_z3(at(texts, j).id))))))
    E.assume(Forall(0, texts.n, lambda j: wrap(per(to_z3(at(texts, j).id)) >= 1)))

    def havoc_t(E, L):
        ghost.count = E.fresh_int('count')
        return [ghost]

    def inv_t(L, i):
        return [over(L, texts), ghost.count == wrap(due(to_z3(i)))]

    def inv_l(L, i):
        if isinstance(i, int):
            ghost.base = ghost.count
        ghost.at = (L.text_tag, i)
        return [ghost.count == ghost.base + Ite(L.text_tag.comment == 1, 0, i)]

    def havoc_l(E, L):
        ghost.count = E.fresh_int('count')
        return [ghost]
    vc.loop(f'{M}:QschEditor.write_spice_to_file#4', inv_t, havoc=havoc_t)
    vc.loop(f'{M}:QschEditor.write_spice_to_file#5', inv_l, havoc=havoc_l)
    ed.write_spice_to_file(File())
    vc.check('all of them', And(ghost.phase == 'texts', ghost.due is None, ghost.count == wrap(due(to_z3(texts.n)))))
