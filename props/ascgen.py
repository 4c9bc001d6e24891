"""Random LTspice schematics and an independent reader of .asc files."""
import os

ROT = ['R0', 'R90', 'R180', 'R270', 'M0', 'M90', 'M180', 'M270']
ALIGN = [v + a for v in ('', 'V') for a in ('Left', 'Right', 'Top', 'Bottom', 'Center', 'Invisible')]
SYMS = ['res', 'cap', 'voltage', 'sub/amp', 'with space']

ASY = """Version 4
SymbolType {t}
LINE Normal 0 64 0 0
RECTANGLE Normal 0 0 10 10
ARC Normal 16 0 80 64 48 69 48 0
WINDOW 0 36 40 Left 2
SYMATTR Value {v}
SYMATTR Prefix {p}
SYMATTR Description d
PIN 0 0 NONE 0
PINATTR PinName A
PINATTR SpiceOrder 1
PIN 0 96 NONE 0
PINATTR PinName B
PINATTR SpiceOrder 2
"""


def library(d):
    """symbol files, and a block with its own schematic"""
    for n, p in (('res', 'R'), ('cap', 'C'), ('voltage', 'V'), ('sub/amp', 'U'), ('with space', 'D')):
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        with open(os.path.join(d, n + '.asy'), 'w') as f:
            f.write(ASY.format(t='CELL', v=p, p=p))
    with open(os.path.join(d, 'block.asy'), 'w') as f:
        f.write('Version 4\nSymbolType BLOCK\nLINE Normal 0 0 1 1\nPIN 0 0 NONE 0\nPINATTR PinName A\nPINATTR SpiceOrder 1\n')
    with open(os.path.join(d, 'block.asc'), 'w') as f:
        f.write('Version 4\nSHEET 1 100 100\nFLAG 1 2 A\nIOPIN 1 2 In\nSYMBOL res 0 0 R0\nSYMATTR InstName R1\nSYMATTR Value 1k\n')


def num(r):
    return r.choice([0, r.randint(-2000, 2000), 16 * r.randint(-99, 99)])


def word(r):
    return r.choice(['', 'N', 'out', 'Vin', 'x', 'µF_', 'net-', '+']) + str(r.randint(0, 99))


DIRECTIVES = ['.tran 0 {t} 0 1n', '.param a{i}=1k b{i}={{a*2}}', '.meas TRAN m{i} FIND V(out) AT 1m', '.ac dec 10 1 1Meg',
              '.step param x list 1 2 3', '.lib "my models.lib"', '.model D{i} D(Is=1e-14 N=1.0)', '.option plotwinsize=0',
              '.save V(n1) I(R1)\\n.ic V(out)=1', '* text with * and ; marks', 'K1 L1 L2 0.99']
VALUES = ['10k', '{res*2}', 'PULSE(0 1 1n 1n 1n 1u 1u 1)', '4µ7', '""', '1Meg', 'SINE(0 {a} 1k)', 'AC 1 0', 'R=V(a)*2', 'Value', 'x ; y']


class Sym:
    def __init__(self, r, ref):
        self.ref, self.name = ref, r.choice(SYMS)
        self.x, self.y, self.rot = num(r), num(r), r.choice(ROT)
        self.windows = [[str(n), num(r), num(r), r.choice(ALIGN), r.randint(0, 7)]
                        for n in r.sample([0, 1, 3, 38, 39, 40, 123], r.randint(0, 4))]
        self.attrs = {}
        if r.random() < .9:
            self.attrs['Value'] = r.choice(VALUES)
        for k, vs in (('Value2', ['AC 1', 'dc 5']), ('SpiceLine', ['Rser=1m Lser=0.10n', 'tc=1,2 Rser = {r} mfg="A B"', 'noiseless', 'V=1e-12 Irms=02']),
                      ('SpiceLine2', ['Cpar=5p', 'temp={t+1} x=0.50']), ('SpiceModel', ['amp.sub', 'NMOS1']), ('Prefix', ['R', 'QP']),
                      ('Type', ['res']), ('Description', ['a  resistor, 1 %', 'x']), ('Mfg', ['ACME', ''])):
            if r.random() < .25:
                self.attrs[k] = r.choice(vs)
        items = list(self.attrs.items())
        r.shuffle(items)
        self.attrs = dict(items)

    def lines(self, r=None):
        out = [f'SYMBOL {self.name} {self.x} {self.y} {self.rot}']
        out += ['WINDOW %s %s %s %s %s' % tuple(w) for w in self.windows]
        at = [f'SYMATTR InstName {self.ref}'] + [f'SYMATTR {k} {v}' for k, v in self.attrs.items()]
        if r is not None and r.random() < .2:
            at.append(at.pop(0))
        return out + at


class Sheet:
    """what a schematic holds"""

    def __init__(self, r, block=True):
        self.version = r.choice(['4', '4.1', '4.0'])
        self.sheet = f'{r.randint(1, 3)} {r.choice([r.randint(100, 3000), -680])} {r.choice([r.randint(100, 3000), -1])}'
        n = r.choice([0, 1, 3, 6])
        self.wires = [[num(r) for _ in range(4)] for _ in range(r.choice([0, 1, n, 2 * n]))]
        self.flags = [[num(r), num(r), word(r), r.choice([None, None, 'In', 'Out', 'BiDir'])] for _ in range(r.choice([0, 1, n]))]
        refs = r.sample(['R1', 'R2', 'R10', 'C1', 'V1', 'V2', 'U1', 'D1', 'Rload', 'C_µ'], r.choice([0, 1, 3, 6]))
        self.syms = [Sym(r, f) for f in refs]
        if block and r.random() < .3:
            s = Sym(r, 'X1')
            s.name, s.attrs = 'block', {}
            self.syms.append(s)
        self.texts = []
        for i in range(r.choice([0, 1, n, n])):
            t = r.choice(DIRECTIVES).format(i=i, t=r.choice(['1m', '{tend}']))
            typ = r.choice('!!;')
            if typ == '!' and t[0] not in '.':
                typ = ';'
            if typ == ';' and r.random() < .15:
                t = ''
            self.texts.append([num(r), num(r), r.choice(ALIGN), r.randint(0, 7), typ, t])
        self.draw = []
        for _ in range(r.choice([0, 1, n])):
            k = r.choice(['LINE', 'RECTANGLE', 'CIRCLE', 'ARC'])
            self.draw.append([k, r.choice(['Normal', 'Normal', 'Wide'])] + [num(r) for _ in range(8 if k == 'ARC' else 4)] +
                             ([r.choice(['1', '2', '3', '4'])] if r.random() < .4 else []))

    def groups(self, r=None):
        g = [[f'WIRE {a} {b} {c} {d}'] for a, b, c, d in self.wires]
        g += [[f'FLAG {x} {y} {t}'] + ([f'IOPIN {x} {y} {p}'] if p else []) for x, y, t, p in self.flags]
        g += [s.lines(r) for s in self.syms]
        g += [['TEXT %s %s %s %s %s%s' % tuple(t)] for t in self.texts]
        g += [[' '.join(map(str, d))] for d in self.draw]
        return g

    def text(self, r=None):
        g = self.groups(r)
        if r is not None and r.random() < .3:
            r.shuffle(g)
        return '\n'.join([f'Version {self.version}', f'SHEET {self.sheet}'] + [x for y in g for x in y]) + '\n'

    def canon(self):
        return canon(self.text())


def canon(text):
    """independent reading of a schematic: every object with everything it holds, in the order within its kind"""
    out = {}
    sym = flag = None
    for l in text.split('\n'):
        l = l.rstrip('\r')
        if not l.strip():
            continue
        w = l.split()
        k = w[0]
        if k == 'SYMBOL':
            sym = {'symbol': ' '.join(w[1:-3]), 'at': w[-3:], 'windows': [], 'attrs': {}}
            out.setdefault('SYMBOL', []).append(sym)
        elif k == 'WINDOW':
            sym['windows'].append(w[1:])
        elif k == 'SYMATTR':
            a, v = (l.split(None, 2) + [''])[1:3]
            assert a not in sym['attrs'], 'attribute written twice'
            sym['attrs'][a] = v.strip()
        elif k == 'FLAG':
            flag = [w[1:], None]
            out.setdefault(k, []).append(flag)
        elif k == 'IOPIN':
            assert flag[0][:2] == w[1:3]
            flag[1] = w[3]
        elif k == 'TEXT':
            a = l.split(None, 5)
            out.setdefault(k, []).append(a[1:5] + [a[5]])
        else:
            out.setdefault(k, []).append(w[1:])
    for k in ('RECTANGLE', 'CIRCLE', 'ARC'):
        for x in out.pop(k, []):
            out.setdefault('SHAPE', []).append((k, x))
    if 'SHAPE' in out:
        out['SHAPE'].sort(key=repr)
    for k in ('SYMBOL',):
        for s in out.get(k, []):
            s['attr-order'] = [a for a in s['attrs'] if a != 'InstName']
    return out
