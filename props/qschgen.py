"""Generator of QSPICE schematics, and an independent reader of their text."""

HEADER = '\xff\xd8\xff\xdb'
BOM = '\xef\xbb\xbf'


def num(r):
    return r.choice([0, 100, -100, r.randint(-5000, 5000)])


class N:
    """A tag: the words of its first line (written as they are) and its children"""

    def __init__(self, *words, items=()):
        self.words = [w if isinstance(w, str) else f'({w[0]},{w[1]})' if isinstance(w, tuple) else str(w) for w in words]
        self.items = list(items)

    def out(self, level=0):
        s = '  ' * level
        if not self.items:
            return f"{s}«{' '.join(self.words)}»\n"
        return f"{s}«{' '.join(self.words)}\n{''.join(i.out(level + 1) for i in self.items)}{s}»\n"

    def canon(self):
        return (' '.join(self.words), [i.canon() for i in self.items])

    def text(self):
        return self.words[8][1:-1]


def q(s):
    return '"' + s + '"'


TEXTS = ['', ' ', 'a', 'two words', ' led by a blank', 'ends with one ', 'a(b) [c] {d}', '(1,2)', 'x: y', 'library file: z',
         'µF ±5%', 'two\nlines', '0x10', '12', '-1', '«quoted»', 'a\\nb', '»', '«', "it's", 'V(a)-V(b)', '.tran 1m', 'a;b', '´', 'Ø', 'a  b']


def words(r):
    return r.choice([lambda: str(num(r)), lambda: hex(r.randint(0, 1 << 24)), lambda: f'({num(r)},{num(r)})',
                     lambda: q(r.choice(TEXTS)), lambda: r.choice(['line', 'text', 'abc', '-1', '0.681', '1e3', '-0.5']),
                     lambda: r.choice(['a"b c"', '(%d,%d,%d)' % (num(r), num(r), num(r)), 'x"y"z', '"a b"c'])])()


LABELS = ['type', 'description', 'library file', 'shorted pins', 'a b']
FREE = ['V', 'false', 'Resistor(USA Style Symbol)', 'Independent "best" Source', 'C:\\a b\\c.lib', '|.subckt x 1 2', 'a: b: c', '',
        'a  b', '"whole"', '(1,2) x', '´x (¥)']


def tree(r, depth=3):
    """any tree of tags"""
    if r.random() < .2:
        return N(r.choice(LABELS) + ':', r.choice(FREE))
    n = N(r.choice(['schematic', 'component', 'symbol', 'text', 'pin', 'line', 'net', 'x']), *[words(r) for _ in range(r.choice([0, 1, 3, 8]))])
    if depth and r.random() < .6:
        n.items = [tree(r, depth - 1) for _ in range(r.randint(1, 4))]
    return n


def read(text, i=0):
    """independent reader: the first line of a tag is everything up to its first child, with the blanks at the ends put away"""
    assert text[i] == '«'
    i += 1
    head = []
    items = []
    inq = False
    while True:
        c = text[i]
        if c == '"':
            inq = not inq
        if not inq and c == '«':
            n, i = read(text, i)
            items.append(n)
            continue
        if not inq and c == '»':
            h = ''.join(head)
            if items:
                h = h.strip('\n ')
            return (h, items), i + 1
        head.append(c)
        i += 1


def read_file(path):
    s = open(path, encoding='cp1252', newline='').read()
    s = s.replace('\r\n', '\n')
    assert s[:4] == HEADER, 'the header of the file'
    n, i = read(s, 4)
    assert s[i:].strip() == ''
    return n


# ---------------------------------------------------------------------------------------------------------------

VALUES = {'R': ['10K', '{res}', '4R7'], 'C': ['100n', '10µ', '1n Rser=2'], 'L': ['1m'], 'V': ['PWL 0 0 1m 5', 'AC 1', '5', 'SINE(0 1 1K)'],
          'D': ['1N4148'], 'M': ['NMOS', 'NM W=1u']}


class Sheet:
    def __init__(self, r, sub=None, nmin=1):
        self.root = N('schematic')
        self.comps = {}
        n = r.randint(nmin, 5)
        cnt = {}
        kinds = ['R', 'R', 'C', 'V', 'D', 'M', 'L']
        for k in range(n):
            p = r.choice(kinds)
            cnt[p] = cnt.get(p, 0) + 1
            self.component(r, f'{p}{cnt[p]}')
        if sub:
            for k in range(r.randint(1, 2)):
                self.component(r, f'X{k + 1}', sub)
        for k in range(r.randint(0, 4)):
            self.root.items.append(N('wire', (num(r), num(r)), (num(r), num(r)), q(r.choice(['N01', 'out', 'N2x', 'GND']))))
        for k in range(r.randint(0, 3)):
            self.root.items.append(N('net', (num(r), num(r)), 1, 13, 0, q(r.choice(['GND', 'out', 'a b']))))
        for k in range(r.randint(0, 2)):
            self.root.items.append(N('junction', (num(r), num(r))))
            self.root.items.append(N('line', (num(r), num(r)), (num(r), num(r)), 0, 2, '0xff0000', -1, -1))
        ts = ['.tran 10m', '.param a=1 b={a*2} c={x y}', '.param TEMP=20', '.meas v1 max V(out)', '.options savepowers', 'plain words',
              '.lib x.lib', '.param q=1\\n.param w=2\\n.save V(out)', '.step param a 1 2 1']
        for t in r.sample(ts, r.randint(0, 5)):
            com = 1 if r.random() < .15 else 0
            self.text(r, t, com)
        if r.random() < .3:
            r.shuffle(self.root.items)

    def text(self, r, t, com=0):
        pre = BOM if r.random() < .8 and t[0] == '.' else ''
        self.root.items.append(N('text', (num(r), num(r)), r.choice(['1', '0.5']), r.choice([7, 0, 13]), com, '0x1000000', -1, -1, q(pre + t)))

    def component(self, r, ref, model=None):
        p = ref[0]
        s = N('symbol', p) if not model else N('symbol')
        s.items.append(N('type:', p if not model else ''))
        s.items.append(N('description:', r.choice(['Resistor(USA Style Symbol)', 'Some "quoted" part', 'x: y', 'plain'])))
        if r.random() < .3:
            s.items.append(N('library file:', r.choice(['a b.lib', 'c.txt'])))
        s.items.append(N('shorted pins:', 'false'))
        for k in range(r.randint(0, 3)):
            s.items.append(N(r.choice(['line', 'rect', 'zigzag']), (num(r), num(r)), (num(r), num(r)), 0, 0, '0x1000000', -1, -1))
        v = model or r.choice(VALUES[p])
        ts = [ref, v]
        if r.random() < .4:
            ts += r.sample(['Rser=1 Lser=2n', 'tc1=0.1', 'ic={x+1}', 'm=2 temp=27', 'some words', 'W=1u L={2*l}'], r.randint(1, 3))
            if p in 'CM' and '=' in v:
                ts = ts[:2] + [t for t in ts[2:] if 'Rser' not in t and 'W' not in t]
        for t in ts:
            s.items.append(N('text', (num(r), num(r)), r.choice(['1', '0.681']), r.choice([7, 13]), 0, '0x1000000', -1, -1, q(t)))
        for k in range(r.choice([2, 2, 3, 0])):
            s.items.append(N('pin', (num(r), num(r)), (0, 0), 1, 0, 0, '0x0', -1, q('+-x'[k])))
        c = N('component', (num(r), num(r)), r.randint(0, 15), r.choice([0, 0, 0, 1]), items=[s])
        self.comps[ref] = c
        self.root.items.append(c)

    def write(self, path, r=None):
        nl = '\r\n' if r is not None and r.random() < .4 else '\n'
        with open(path, 'w', encoding='cp1252', newline='') as f:
            f.write((HEADER + self.root.out()).replace('\n', nl))

    def texts(self, ref):
        return [t for t in self.comps[ref].items[0].items if t.words[0] == 'text']

    def sheet_texts(self, comments=False):
        return [t for t in self.root.items if t.words[0] == 'text' and (comments or t.words[4] != '1')]
