"""Generators of SPICE netlists with a structural description of what they contain."""

VALS = ['1k', '10', '4.7u', '100n', '2.2Meg', '{res}', '1e-9', '33p', '5']
MODELS = ['1N4148', 'BC547', 'DMOD', '2N3904']


class Net:
    """statements in file order; each a dict(kind, text, ...)"""

    def __init__(self):
        self.st = []
        self.subs = {}

    def text(self, eol='\n'):
        return ''.join(s['text'] + eol for s in self.st)

    def comps(self):
        return [s for s in self.st if s['kind'] == 'comp']


def params_text(r, ps):
    return ' '.join(f"{k}={v}" for k, v in ps.items())


def component(r, ref, nodes, subname=None):
    """one component statement"""
    p = ref[0]
    ps = {}
    n = list(nodes)
    c = ''
    if r.random() < .15:
        c = ' ; ' + r.choice(['load', 'see note 3', 'Rser=7 nominal'])
    if p in 'RLC':
        v = r.choice(VALS)
        if r.random() < .35:
            ps = {k: r.choice(['1', '2.5m', '{x+1}', '100']) for k in r.sample(['Rser', 'tc1', 'temp', 'ic', 'm'], r.randint(1, 3))}
        body = f"{ref} {n[0]} {n[1]} {v}"
    elif p in 'VI':
        v = r.choice(['10', 'DC 5', 'AC 1', 'PULSE(0 1 1n 1n 1n 1u 2u)', 'SINE(0 1 1k)', '{vin}', '5 AC 1'])
        if r.random() < .3:
            ps = {k: r.choice(['1', '2.5m']) for k in r.sample(['Rser', 'Cpar'], r.randint(1, 2))}
        body = f"{ref} {n[0]} {n[1]} {v}"
    elif p == 'D':
        v = r.choice(MODELS)
        body = f"{ref} {n[0]} {n[1]} {v}"
    elif p == 'Q':
        v = r.choice(MODELS)
        if r.random() < .3:
            ps = {'temp': '27'}
        body = f"{ref} {n[0]} {n[1]} {n[2]} {v}"
    elif p == 'M':
        v = r.choice(['NMOS1', 'PM'])
        ps = {k: r.choice(['1u', '10u', '2']) for k in r.sample(['L', 'W', 'm'], r.randint(0, 3))}
        body = f"{ref} {n[0]} {n[1]} {n[2]} {n[3]} {v}"
    elif p == 'E':
        v = r.choice(['{gain}', '2', '10.5'])
        v = f"{n[2]} {n[3]} {v}"
        body = f"{ref} {n[0]} {n[1]} {v}"
        c = ''
    elif p == 'B':
        v = r.choice(['V=V(in)*2', 'I=1m*V(a)'])
        body = f"{ref} {n[0]} {n[1]} {v}"
        c = ''
    elif p == 'X':
        v = subname
        if r.random() < .4:
            ps = {k: r.choice(['1', '2k', '{a*2}']) for k in r.sample(['gain', 'rr', 'cc'], r.randint(1, 2))}
        body = f"{ref} {' '.join(n[:2])} {v}"
    else:
        raise ValueError(p)
    if ps:
        body += ' ' + params_text(r, ps)
    text = body + c
    return dict(kind='comp', ref=ref, value=v, params=ps, nodes=n, comment=c, text=text)


def nodes(r, k=4):
    return [r.choice(['0', 'in', 'out', 'n1', 'N002', 'vdd', 'n_3', 'a', 'b']) for _ in range(k)]


def refs(r, kinds, n):
    out = []
    while len(out) < n:
        f = r.choice(kinds) + str(r.choice([1, 2, 3, 10, 11, 12, 100]))
        if r.random() < .15:
            f += r.choice(['A', '_x'])
        if f.upper() not in [x.upper() for x in out]:
            out.append(f)
    return out


def subckt(r, name, depth=0, inner=()):
    """a .subckt block: list of statements"""
    st = [dict(kind='dot', text=f".subckt {name} a b" if r.random() < .5 else f".SUBCKT {name} a b")]
    body = []
    for f in refs(r, 'RCL', r.randint(1, 4)):
        body.append(component(r, f, nodes(r)))
    if r.random() < .5:
        body.append(dict(kind='dot', text=f".param pin={r.choice(['1', '2k'])}"))
    if r.random() < .3:
        body.append(dict(kind='comment', text='* inside ' + name))
    for i, sub in enumerate(inner):
        body.append(component(r, f"X{i + 1}", nodes(r), sub))
    st += body
    st.append(dict(kind='dot', text=f".ends {name}" if r.random() < .7 else ".ends"))
    return dict(kind='sub', name=name, st=st, text='\n'.join(s['text'] for s in st))


def netlist(r, subs=True, kinds='RRRCLVIDQMEB', nmax=8):
    net = Net()
    net.st.append(dict(kind='comment', text='* ' + r.choice(['title', 'C:\\work\\a.asc', 'my test'])))
    body = []
    for f in refs(r, kinds, r.randint(2, nmax)):
        body.append(component(r, f, nodes(r)))
    defs = []
    if subs:
        names = r.sample(['sub1', 'AMP', 'filt_2'], r.randint(1, 2))
        for i, n in enumerate(names):
            defs.append(subckt(r, n, 0, names[:i] if r.random() < .4 else ()))
        for f in refs(r, 'X', r.randint(1, 3)):
            body.append(component(r, f, nodes(r), r.choice(names)))
    dots = []
    pn = r.sample(['res', 'gain', 'vin', 'x', 'a', 'temp2', 'TEMP', 'fs'], r.randint(0, 6))
    params = {}
    while pn:
        k = r.randint(1, min(3, len(pn)))
        line, pn = pn[:k], pn[k:]
        vs = {p: r.choice(['1', '10k', '{2*y}', '3.5', '1e-9']) for p in line}
        params.update(vs)
        dots.append(dict(kind='param', names=line, text=r.choice(['.param ', '.PARAM ', '.Param ']) + params_text(r, vs)))
    for t in r.sample(['.meas tran vmax MAX V(out)', '.model DMOD D(Is=1n)', '.options reltol=1e-3', '.ic V(out)=0',
                       '.save V(out) I(R1)', '.step param res 1 10 1', '.temp 27', '.machine', '.endmachine', '.endif'], r.randint(0, 4)):
        dots.append(dict(kind='dot', text=t))
    if r.random() < .6:
        dots.append(dict(kind='unique', text=r.choice(['.tran 1m', '.ac dec 10 1 1Meg', '.dc V1 0 5 1', '.noise V(out) V1 dec 10 1 1k'])))
    cm = [dict(kind='comment', text=t) for t in r.sample(['* a comment', '* R99 a b 1k', '*.tran 5', '* x=3'], r.randint(0, 2))]
    mid = body + dots + cm + defs
    r.shuffle(mid)
    net.st += mid
    if r.random() < .5:
        net.st.append(dict(kind='dot', text='.backanno'))
    net.st.append(dict(kind='dot', text='.end'))
    net.subs = {d['name']: d for d in defs}
    net.params = params
    return net
