"""Generated simulation logs: the text a simulator writes and the table it denotes."""


def num(rng):
    """(text, value) of a number as simulators print it"""
    k = rng.randrange(6)
    if k == 0:
        v = rng.choice([0, rng.randint(-50, 5000)])
        return str(v), v
    if k == 1:
        t = '%.6g' % rng.uniform(-100, 100)
    elif k == 2:
        t = '%g' % (rng.uniform(-9, 9) * 10 ** rng.randint(-12, 12))
    elif k == 3:
        t = '%.5e' % (rng.uniform(-9, 9) * 10 ** rng.randint(-12, 12))
    elif k == 4:
        m, e = ('%.5e' % (rng.uniform(-9, 9) * 10 ** rng.randint(-12, 12))).split('e')
        t = m + 'e' + e[0] + e[1:].zfill(3)     # 1.81834e+006
    else:
        t = '%.10f' % rng.uniform(-3, 3)
    try:
        return t, int(t)
    except ValueError:
        return t, float(t)


class Cplx:
    """a complex value in a log: text and the number it denotes"""

    def __init__(self, rng):
        import cmath
        import math
        a, b = '%.8g' % rng.uniform(-90, 60), '%.8g' % rng.uniform(-180, 180)
        self.form = rng.choice(['dB', 'mag', 'rect'])
        if self.form == 'dB':
            self.text = f'({a}dB,{b}°)'
            self.value = cmath.rect(10 ** (float(a) / 20), math.radians(float(b)))
        elif self.form == 'mag':
            a = '%.8g' % abs(float(a))
            self.text = f'({a},{b}°)'
            self.value = cmath.rect(float(a), math.radians(float(b)))
        else:
            self.text = f'({a},{b})'
            self.value = complex(float(a), float(b))


NAMES = ['vout_rms', 'Vin_RMS', 'gain', 'Vout1m', 'period', 'fcut', 'tr1', 'x', 'p_', 'IDD', 'MaxV', 'e1']
VARS = ['r1', 'Freq', 'C2', 'run', 'temp', 'Ton', 'vin']


def cell(rng, cplx):
    if cplx:
        c = Cplx(rng)
        return c.text, c.value
    return num(rng)


class Log:
    """steps: {name: [value]}, data: {name: [value]} (lower case names, in order), text: what the simulator wrote"""

    def __init__(self, rng, nsteps=None, names=None, variables=None, mout=False, fourier=True):
        self.n = rng.choice([0, 0, 1, 2, 3, 5]) if nsteps is None else nsteps
        self.steps, self.data, self.fourier = {}, {}, {}
        lines = []
        vs = variables or rng.sample(VARS, rng.choice([1, 1, 2, 3]))
        rows = []
        pool = {v: [self.stepvalue(rng) for _ in range(2)] for v in vs}
        for _ in range(self.n):
            rows.append({v: rng.choice(pool[v]) for v in vs})
        self.steps = {v.lower(): [r[v][1] for r in rows] for v in vs} if self.n else {}
        head = rng.choice([0, 1])
        circuit = 'Circuit: * C:\\work\\top.net'
        lines += [circuit] if head else ['LTspice 24.1.1 for Windows', circuit, 'Start Time: Thu Feb  6 00:22:25 2025']
        noise = ['', 'solver = Normal', 'tnom = 27', 'Gmin = 10', 'vernier = 0.5', 'method = modified trap',
                 'Direct Newton iteration for .op point succeeded.', 'Gmin stepping succeeded in finding the operating point.']
        lines += rng.sample(noise, rng.randint(0, 5))
        four = [] if not fourier or rng.random() < 0.6 else [self.fourier_block(rng, s) for s in rng.sample(['V(out)', 'I(R1)', 'V(a,b)'], 2)]
        for k, r in enumerate(rows):
            lines.append('.step ' + ' '.join(f'{v}={r[v][0]}' for v in vs))
            for sig, block, val in four:
                if rng.random() < 0.7:
                    lines += block
                    self.fourier.setdefault(sig, []).append((k, val))
        if not rows:
            for sig, block, val in four:
                lines += block
                self.fourier.setdefault(sig, []).append((-1, val))
        if rows and rng.random() < 0.3:
            lines.append('.step ')
        self.kinds = {}
        for name in (names if names is not None else rng.sample(NAMES, rng.randint(0, 5))):
            kind = rng.choice(['plain', 'interval', 'at', 'AT'])
            cplx = rng.random() < 0.25
            self.kinds[name] = (kind, cplx)
        for name, (kind, cplx) in self.kinds.items():
            cols = [name] + {'plain': [], 'interval': [name + '_FROM', name + '_TO'], 'at': [name + '_at'], 'AT': [name + '_at']}[kind]
            vals = [[cell(rng, cplx and j == 0) for j in range(len(cols))] for _ in range(max(1, self.n))]
            for j, c in enumerate(cols):
                self.data[c.lower()] = [v[j][1] for v in vals]
            expr = rng.choice(['V(out)', 'RMS(v(out))', 'vout_rms/vin_rms', 'v(out)=vmax/sqrt(2)', 'MAX(mag(v(out)))', 'time'])
            if not self.n:
                (v, *rest), = vals
                tail = {'plain': '', 'interval': ' FROM {} TO {}', 'at': ' at {}', 'AT': ' AT {}'}[kind].format(*[t for t, _ in rest])
                lines.append(f'{name}: {expr}={v[0]}{tail}' if rng.random() < 0.8 else f'{name}={v[0]}{tail}')
            else:
                lines += ['', f'Measurement: {name}',
                          '  step\t' + '\t'.join([expr] + {'plain': [], 'interval': ['FROM', 'TO']}.get(kind, ['at']))]
                lines += ['\t'.join([f'{k + 1:6d}'] + [t for t, _ in v]) for k, v in enumerate(vals)]
        lines += ['', '', 'Date: Sun Aug 27 17:20:23 2023', 'Total elapsed time: 0.141 seconds.', '', 'totiter = 2952',
                  'Matrix Compiler1: 1.46 KB object code size  0.5/0.3/[0.2]']
        self.lines = lines
        self.text = '\n'.join(lines) + '\n'

    @staticmethod
    def stepvalue(rng):
        if rng.random() < 0.1:
            t = rng.choice(['2N2222', 'BAV99', 'low'])
            return t, t
        return num(rng)

    @staticmethod
    def fourier_block(rng, sig):
        per = rng.choice(['all', '1', '33.69', '5'])
        dc, thd, phd = num(rng), rng.choice(['4.110027', '12', '1.2e-05', '0.5', '100']), rng.choice(['0.959049', '3', None])
        rows = [[str(k + 1), *[num(rng)[0] for _ in range(5)]] for k in range(rng.randint(1, 4))]
        block = [f'N-Period={per}', f'Fourier components of {sig}', f'DC component:{dc[0]}', '',
                 'Harmonic\tFrequency\t Fourier \tNormalized\t Phase  \tNormalized', ' Number \t  [Hz]   \tComponent\t Component\t[degree]\tPhase [deg]']
        block += [f'{r[0]:>5}\t' + '\t'.join(r[1:4]) + f'\t{r[4]}°\t{r[5]}°' for r in rows]
        if phd:
            block.append(f'Partial Harmonic Distortion: {phd}%')
        if rng.random() < .15:
            thd = None
        block += [f'Total Harmonic Distortion:   {thd}%', ''] if thd else ['']
        val = (-1 if per == 'all' else float(per), float(dc[0]), float(thd) if thd else None, float(phd) if phd else None,
               [[float(x) for x in r] for r in rows])
        return sig, block, val


class QLog:
    """a QSPICE log with its measurement file"""

    def __init__(self, rng):
        self.n = rng.choice([0, 0, 1, 2, 4])
        vs = rng.sample(VARS, rng.choice([1, 2]))
        rows = [{v: Log.stepvalue(rng) for v in vs} for _ in range(self.n)]
        self.steps = {v.lower(): [r[v][1] for r in rows] for v in vs} if self.n else {}
        lines = ['C:\\work\\top.net'] if not rows else []
        for k, r in enumerate(rows):
            lines.append(f'{" " * rng.choice([0, 0, 1])}{k + 1} of {self.n} steps:  .step ' + ' '.join(f'{v}={r[v][0]}' for v in vs))
            if k == 0:
                lines.append('C:\\work\\top.net')
        lines += ['', 'Total elapsed time: 0.0031084 seconds.']
        self.text = '\n'.join(lines) + '\n'
        self.data = {}
        out = []
        for name in rng.sample([n for n in NAMES if n not in ('tran', 'ac')], rng.randint(0, 4)):
            cols = rng.choice([1, 1, 2, 3])
            cplx = rng.random() < 0.25
            out.append(f'.meas {rng.choice(["tran ", "ac ", "dc ", "op ", ""])}{name} {rng.choice(["find v(out) at 1m", "rms v(in)", "param a/b"])}:')
            if out[-1].split()[1] == name and rng.random() < 0.5:
                pass
            if rng.random() < 0.1:
                out.append('')
            vals = []
            for _ in range(max(1, self.n)):
                r = [num(rng) for _ in range(cols)]
                if cplx:
                    a, b = num(rng), num(rng)
                    r[0] = (f'({a[0]},{b[0]})', [a[1], b[1]])
                vals.append(r)
            heads = [name] + [f'{name}_{i}' for i in range(1, cols)]
            for j, h in enumerate(heads):
                self.data[h.lower()] = [v[j][1] for v in vals]
            if self.n:
                self.data['step'] = list(range(self.n))
                out += [f'   {k}   ' + '      '.join(t for t, _ in v) for k, v in enumerate(vals)]
            else:
                out += ['       ' + ' '.join(t for t, _ in v) for v in vals]
            if rng.random() < 0.1:
                out.append('')
        self.meas = '\n'.join(out) + '\n'


class OpLog:
    def __init__(self, rng):
        self.want = {}
        lines = ['Circuit: * top.net', '', 'Direct Newton iteration for .op point succeeded.', 'Semiconductor Device Operating Points:', '']
        for title in rng.sample(['Diodes', 'Bipolar Transistors', 'MOSFET Transistors', 'JFET Transistors'], rng.randint(1, 3)):
            lines.append(f'                        --- {title} ---')
            sec = self.want.setdefault(title.lower(), {})
            nd = rng.randint(1, 5)
            devs = [f'{title[0].lower()}:x{rng.randint(1, 9)}:{k}' for k in range(nd)]
            page = rng.randint(1, 3)
            params = rng.sample(['Id', 'Vd', 'Req', 'CAP', 'Ib', 'Ic', 'Vbe', 'Gm', 'Gmb', 'Cbs', 'Beta', 'Cb0', 'gm10'], rng.randint(1, 5))
            for a in range(0, nd, page):
                grp = devs[a:a + page]
                pad = rng.choice(['', '', '  '])
                lines.append('Name:   ' + '   '.join(grp) + pad)
                lines.append('Model:  ' + '  '.join(f'mod{d[-1]}' for d in grp) + pad)
                for d in grp:
                    sec[d] = {'Model': f'mod{d[-1]}'}
                for p in params:
                    vals = [num(rng) for _ in grp]
                    lines.append((p + ' ' if p == 'Gmb' else p + ':') + '    ' + '   '.join(t for t, _ in vals) + pad)
                    for d, v in zip(grp, vals):
                        sec[d][p] = float(v[1])
            lines.append('')
        lines += ['', 'Date: Sun Aug 27 17:20:23 2023', 'Total elapsed time: 0.141 seconds.']
        self.text = '\n'.join(lines) + '\n'


class Export:
    """LTspice "export data as text": header, table, with a line before the rows of each step"""

    def __init__(self, rng):
        self.n = rng.choice([0, 1, 2, 3])
        self.headers = ['time'] + rng.sample(['V(out)', 'I(R1)', 'V(a,b)', 'V(N001)'], rng.randint(1, 3))
        vs = rng.sample(['R1', 'Ton', 'C'], rng.choice([1, 2]))
        self.runs = []
        lines = ['\t'.join(self.headers)]
        cplx = rng.random() < 0.3
        for k in range(max(1, self.n)):
            pv = {v: rng.choice([('1e+006', 1e6), ('400m', '400m'), ('1K', '1K'), ('10', 10), ('2.5', 2.5), ('-3', -3), ('4.7µ', '4.7µ')]) for v in vs}
            if self.n:
                lines.append('Step Information: ' + ' '.join(f'{v}={t}' for v, (t, _) in pv.items()) + f'  ({rng.choice(["Run"])}: {k + 1}/{self.n})')
            rows = []
            for _ in range(rng.randint(1, 4)):
                r = [num(rng)] + [cell(rng, cplx) for _ in self.headers[1:]]
                lines.append('\t'.join(t for t, _ in r))
                rows.append([v for _, v in r])
            self.runs.append(({v: x[1] for v, x in pv.items()} if self.n else {}, rows, {v: x[0] for v, x in pv.items()}))
        self.lines = lines
        self.text = '\n'.join(lines) + '\n'


def same(a, b, rel=1e-9):
    """is `a` (read) the value `b` (written)?"""
    if isinstance(b, complex):
        return isinstance(a, complex) and abs(a - b) <= rel * max(1e-12, abs(b)) + 1e-15
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y, rel) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def write(path, text, rng, encodings=('utf-8', 'utf-16', 'cp1252')):
    enc = rng.choice(encodings)
    with open(path, 'w', encoding=enc, newline=rng.choice(['\n', '\r\n'])) as f:
        f.write(text)
    return enc
