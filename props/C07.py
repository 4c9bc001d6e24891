"""C07 - editing a component of a netlist changes that component and nothing else."""
import io
import os
import re
import z3
from pyvc import core
from pyvc.core import RecordType, IntK, BoolK, SRef, to_z3
from pyvc.api import *
from . import netgen

S = 'editor.spice_subcircuit'
C = 'editor.spice_components'
F = 'editor.spice_file'
P = 'editor.primitives'
ASSUMPTIONS = ["which statements are components, and how many nodes each kind has, is the grammar of SPICE netlists as the package documents it",
               "texts of a netlist are well formed: closed braces, parentheses and quotes"]

NUMS = {'1k': 1e3, '10': 10, '4.7u': 4.7e-6, '100n': 1e-7, '2.2Meg': 2.2e6, '1e-9': 1e-9, '33p': 33e-12, '5': 5, '0': 0, '2.5m': 2.5e-3,
        '47k': 47e3, '0.5': .5, '1.5e3': 1500, '3u': 3e-6, '12': 12, '7': 7, '1u': 1e-6, '2u': 2e-6, '25': 25, '1meg': 1e6, '0.9': .9, '500m': .5,
        '123456': 123456, '1n': 1e-9, '2k': 2000}
FORMULAS = ['{res}', '{x*2}', '{a + b}', '{if(x>1,2,3)}']

# kind: number of nodes, values, parameter names, bare words that may follow the value
KINDS = {
    'R': (2, lambda r: r.choice(['1k', '10', '2.2Meg', '1e-9', *FORMULAS]), ['tc1', 'tc2', 'temp', 'm'], ['noiseless']),
    'C': (2, lambda r: r.choice(['4.7u', '100n', '33p', *FORMULAS]), ['Rser', 'ic', 'temp', 'm'], []),
    'L': (2, lambda r: r.choice(['4.7u', '100n', '2.5m', *FORMULAS]), ['Rser', 'Rpar', 'ic'], []),
    'V': (2, lambda r: r.choice(['10', 'DC 5', 'AC 1', 'PULSE(0 1 1n 1n 1n 1u 2u)', 'SINE(0 1 1k)', '{vin}', '5 AC 1', 'PWL(0 0 1m 1)']), ['Rser', 'Cpar'], []),
    'I': (2, lambda r: r.choice(['10', 'DC 5', 'AC 1', 'PULSE(0 1 1n 1n 1n 1u 2u)', '{iin}']), ['Rser', 'Cpar'], []),
    'D': (2, lambda r: r.choice(['1N4148', 'DMOD']), ['temp', 'm', 'area'], ['off']),
    'Q': (3, lambda r: r.choice(['2N3904', 'BC547']), ['temp', 'm', 'area'], []),
    'M': (4, lambda r: r.choice(['NMOS1', 'PM']), ['L', 'W', 'm'], []),
    'J': (3, lambda r: r.choice(['JN', '2N5484']), ['temp', 'm'], ['off']),
    'Z': (3, lambda r: r.choice(['ZN', 'IG']), ['temp', 'm'], []),
    'E': (2, lambda r: r.choice(['n1 n2 5', 'in 0 {gain}', 'value={V(a)*2}', 'in 0 10.5']), [], []),
    'G': (2, lambda r: r.choice(['n1 n2 5', 'in 0 {gain}', 'value={V(a)*2}']), [], []),
    'F': (2, lambda r: r.choice(['V1 5', 'V2 {gain}']), [], []),
    'H': (2, lambda r: r.choice(['V1 5', 'V2 {gain}']), [], []),
    'B': (2, lambda r: r.choice(['V=V(in)*2', 'I=1m*V(a)', 'V={V(a) + 2}', 'I=if(V(a)>2,1,0)']), [], []),
    'S': (4, lambda r: r.choice(['SW1', 'MYSW', 'SW1 on', 'SW1 off']), [], []),
    'W': (3, lambda r: r.choice(['SW1', 'MYSW', 'SW1 on']), [], []),
    'A': (8, lambda r: r.choice(['BUF Vhigh=5', 'SCHMITT Vt=2 Vh=.5', 'DFLOP']), [], []),
    'K': (2, lambda r: r.choice(['0.9', '0.5']), [], []),
    'T': (4, lambda r: '', ['Td', 'Z0'], []),
    'O': (4, lambda r: r.choice(['LTRA1', 'LT']), [], []),
    'U': (3, lambda r: r.choice(['UM', 'URC2']), ['L', 'N'], []),
}
PVALS = ['1', '0', '2.5m', '100', '{x+1}', '3u', '1e-9', '27', '{a + b}', '12']


class Comp:
    def __init__(self, r, ref):
        self.ref, self.kind = ref, ref[0].upper()
        n, vals, ps, flags = KINDS[self.kind]
        self.nodes = netgen.nodes(r, n) if self.kind != 'K' else ['L1', 'L2']
        self.value = vals(r)
        self.params = {}
        if ps and (r.random() < .5 or self.kind == 'T'):
            for k in r.sample(ps, len(ps) if self.kind == 'T' else r.randint(1, len(ps))):
                self.params[k] = r.choice(PVALS)
        self.flags = [f for f in flags if r.random() < .25]
        self.comment = r.choice([' ; load', '  ; see note 3', ' ; Rser=7 nominal', ' ; tc1=9 ; x', ';load']) if r.random() < .15 else ''
        self.edited = False
        self.odd = r.random() < .07  # LTspice marks so a reference that doesn't start with the letter of its kind

    def text(self, r):
        sp = r.choice([' ', ' ', ' ', '  ', '\t'])
        eq = r.choice(['=', '=', '=', '=', ' = ', ' =', '= '])
        w = [self.ref[0] + '§' * self.odd + self.ref[1:], *self.nodes]
        if self.value:
            w.append((self.kind + '=' if r.random() < .08 and self.kind in 'RCL' else '') + self.value)
        rest = self.flags + [k + eq + v for k, v in self.params.items()]
        out = sp.join(w)
        for x in rest:
            out += (r.choice(['\n+ ', '\n+', '\n+\t', ' \n+']) if r.random() < .08 else sp) + x
        if r.random() < .05 and '{' in out:
            out = re.sub(r'(?<=\w)(?=[*+])|(?<=\+ )', lambda m: '\n+' + r.choice(['', ' ']), out, count=1)
        return r.choice(['', '', '', '', '', '', '', ' ']) + out + self.comment


def squeeze(t):
    """blanks put apart, within braces and parentheses too"""
    return re.sub(r'\s+', ' ', t.replace('\n+', ' ')).strip()


def words(t):
    """the words of a component statement, blanks around = and after , put away, groups kept together"""
    t = squeeze(t)
    out, cur, depth, q = [], '', 0, None
    for i, c in enumerate(t):
        if q:
            cur += c
            q = None if c == q else q
            continue
        if c in '\'"':
            q = c
        if c in '({':
            depth += 1
        if c in ')}':
            depth -= 1
        if c == ' ':
            if depth:
                continue
            if cur and cur[-1] in '=,' or t[i + 1:i + 2] in ('=', ','):
                continue
            if cur:
                out.append(cur)
            cur = ''
            continue
        cur += c
    if cur:
        out.append(cur)
    return out


def eq(a, b):
    a, b = squeeze(str(a)).replace(' ', ''), squeeze(str(b)).replace(' ', '')
    if a == b:
        return True
    try:
        x = U[0].to_float(a, accept_invalid=False)
        y = U[0].to_float(b, accept_invalid=False)
        return abs(x - y) <= 1e-5 * max(abs(x), abs(y))
    except Exception:
        return False


U = []


def judge_comp(bx, c, line, log):
    """a component statement holds what it is to hold"""
    body, _, note = line.partition(';') if c.comment else (line, '', '')
    w = words(body)
    n = len(c.nodes)
    bx.check(w[0].upper() == (c.ref[0] + '§' * c.odd + c.ref[1:]).upper(), 'the reference', (log, line))
    bx.check(w[1:1 + n] == c.nodes, 'the nodes', (log, line, c.nodes))
    rest = w[1 + n:]
    ps, flags, val = {}, [], []
    for i, x in enumerate(rest):
        m = re.match(r'(\w+)=(.*)$', x)
        if m and m.group(1) in KINDS[c.kind][2] + ['new', 'zz', 'tc']:
            bx.check(m.group(1) not in ps, 'each parameter is written once', (log, line))
            ps[m.group(1)] = m.group(2)
        elif x in KINDS[c.kind][3]:
            flags.append(x)
        elif x == 'noiseless=True' and 'noiseless' in c.flags:
            # known defect: the word is written with a value when another parameter is set
            bx.fail('noiseless becomes a parameter', (log, line), key='noiseless')
            flags.append('noiseless')
        else:
            bx.check(not ps, 'what follows the value is its parameters', (log, line))
            val.append(x)
    v = ''.join(val)
    if c.kind in 'RCL' and v[:2] == c.kind + '=':
        v = v[2:]
    bx.check(eq(v, c.value), 'the value', (log, line, v, c.value))
    bx.check(set(ps) == set(c.params) and all(eq(ps[k], q) for k, q in c.params.items()), 'the parameters', (log, line, ps, c.params))
    bx.check(flags == c.flags, 'the words that follow the value', (log, line, c.flags))
    if c.comment:
        bx.check(note == c.comment.partition(';')[2], 'the comment', (log, line))


def lines(text):
    """statements of a netlist"""
    out = []
    for l in text.split('\n'):
        if l.startswith('+') and out:
            out[-1] += '\n' + l
        elif l.strip():
            out.append(l)
    return out


def judge(bx, st, text, log):
    got = lines(text)
    want = []
    for s in st:
        want += lines(s) if isinstance(s, str) else [s]
    bx.check(len(got) == len(want), 'the statements saved are those there are', (log, len(got), len(want), text))
    for g, w in zip(got, want):
        if isinstance(w, str):
            bx.check(squeeze(g) == squeeze(w), 'a statement that is not a component is unchanged', (log, g, w))
        elif not w.edited:
            bx.check(squeeze(g) == squeeze(w.saved), 'a component that is not edited is unchanged', (log, g, w.saved))
        else:
            judge_comp(bx, w, g, log)


def read(bx, ed, st, log):
    cs = [s for s in st if not isinstance(s, str)]
    names = [c.ref.upper() for c in cs]
    bx.check([n.upper() for n in ed.get_components()] == names, 'the components are listed', (log, ed.get_components(), names))
    bx.check([c.reference.upper() for c in ed if c in ed.netlist] == names, 'the components are iterated over', (log, names))
    for c in cs:
        got = ed.get_component(c.ref)
        v = got.value_str if c.kind == 'T' else ed.get_component_value(c.ref)
        bx.check(eq(v or '', c.value), 'the value reads as set', (log, c.ref, v, c.value))
        ps = dict(got.params)
        bx.check([k for k in ps if k not in KINDS[c.kind][3]] == list(c.params) or set(ps) - set(KINDS[c.kind][3]) == set(c.params), 'the parameters are listed', (log, c.ref, ps, c.params))
        for k, q in c.params.items():
            bx.check(eq(ps[k], q), 'a parameter reads as set', (log, c.ref, k, ps[k], q))
        bx.check([n.upper() for n in ed.get_component_nodes(c.ref)] == [n.upper() for n in c.nodes], 'the nodes are read', (log, c.ref))


def new_value(r, c):
    """a value, as it is given and as it is to read"""
    if c.kind in 'RCL':
        return r.choice([1000, 2.2e-6, 4700.0, '47k', '123456', '{zz*2}', '{a + b}', 12, '1e-9', 3.3e6, '0.5', 1, 0, 0.0, '0'])
    if c.kind in 'VI':
        return r.choice([5, '7', 'SINE(0 2 10k)', 'DC 3 AC 1', '{vv}', 2.5, 0, 'PWL(0 0 1u 1 2u 0)', 'EXP(0 1 2n)'])
    if c.kind in 'EG':
        return r.choice(['n1 n2 77', 'value={V(b)*3}', 'in 0 {g2}'])
    if c.kind in 'FH':
        return r.choice(['V1 77', 'V3 {g2}'])
    if c.kind == 'B':
        return r.choice(['V=V(b)*7', 'I=5', 'V={V(z) - 2}'])
    if c.kind == 'K':
        return r.choice(['0.25', '0.99'])
    return r.choice(['MODX', 'M_2', 'A', 'LONGMODELNAME77'])


def edit(bx, r, ed, c, log):
    """one edit of one component, in one of the ways there are"""
    op = r.choice(['value', 'value', 'params', 'params', 'param none', 'rename'])
    ref = r.choice([c.ref, c.ref, c.ref.upper(), c.ref.lower()])
    pn = KINDS[c.kind][2]
    if op == 'value' and c.kind != 'T':
        v = new_value(r, c)
        how = r.choice(['set', 'sets', 'item', 'attr', 'model', 'params'])
        log.append((how, ref, v))
        if how == 'set':
            ed.set_component_value(ref, v)
        elif how == 'sets':
            ed.set_component_values(**{ref: v})
        elif how == 'item':
            ed[ref] = v
        elif how == 'model' and isinstance(v, str):
            ed.set_element_model(ref, v)
        else:
            ed.get_component(ref).value = v
        c.value = v
    elif op == 'params' and pn:
        todo = {k: r.choice(['9', 9, 0, '0', 2.5e-3, '{q*2}', '{a + b}', '1.5u', 1e-9, 123456]) for k in r.sample(pn + ['new'], r.randint(1, 2))}
        how = r.choice(['ed', 'comp', 'one', 'prop'])
        if how != 'prop' and c.kind in 'RCLDQMJZUO' and r.random() < .2:
            c.value = todo['value'] = new_value(r, c)
        log.append((how, ref, todo))
        if how == 'ed':
            ed.set_component_parameters(ref, **todo)
        elif how == 'comp':
            ed.get_component(ref).set_parameters(**todo)
        else:
            for k, v in todo.items():
                ed[ref].set_parameter(k, v)
        c.params.update({k: v for k, v in todo.items() if k != 'value'})
    elif op == 'param none' and c.params:
        k = r.choice(list(c.params))
        log.append(('none', ref, k))
        ed.set_component_parameters(ref, **{k: None})
        del c.params[k]
    elif op == 'rename':
        n = c.kind + r.choice(['77', '5_new', '901', 'Z'])
        if n.upper() in c.taken():
            return
        log.append(('rename', ref, n))
        ed.get_component(ref).reference = n
        c.ref = n
    else:
        return
    c.edited = True


def build(r):
    st, refs = [], []
    st.append('* ' + r.choice(['title', 'C:\\work\\a.asc', 'my test']))
    body = []
    cs = []
    for f in netgen.refs(r, list(KINDS), r.randint(1, 9)):
        if r.random() < .1:
            f = f.lower()
        c = Comp(r, f)
        c.saved = c.text(r)
        c.taken = lambda: [x.ref.upper() for x in cs]
        body.append(c)
        cs.append(c)
    body += r.sample(['.meas tran vmax MAX V(out)', '.model DMOD D(Is=1n)', '.options reltol=1e-3', '.ic V(out)=0', '.save V(out) I(R1)',
                      '.step param res 1 10 1', '.temp 27', '.param a=1 b={2*a}', '.tran 1m', '* a comment', '* R99 a b 1k', '*.tran 5',
                      '.control\nrun\nR1 a b 5\n.endc', '.machine\n.state S0 0\n.endmachine', '.if (a==1)\n.param q=2\n.endif', '.func f(x) {x}\n.endl', ';note', '.subckt foo a b\nR1 a b 1k\nC1 a b 1n ; x\n.ends foo', '.SUBCKT bar 1 2\nr1 1 2 5\n.ends'],
                     r.randint(0, 6))
    r.shuffle(body)
    st += body + (['.backanno'] if r.random() < .5 else []) + ['.end']
    return st, cs


@bounded('C07', 'edits of the components of a netlist', [f'{C}:SpiceComponent.rewrite_lines', f'{C}:SpiceComponent.write_lines', f'{C}:SpiceComponent.reset_attributes', f'{C}:_parse_params',
         f'{C}:tokenize_params', f'{S}:SpiceCircuit.get_component', f'{S}:SpiceCircuit.set_component_value', f'{S}:SpiceCircuit.set_component_parameters',
         f'{S}:SpiceCircuit.remove_component', f'{S}:SpiceCircuit.write_lines', f'{S}:separate_lines', f'{F}:SpiceFile.save_netlist'])
def components(bx):
    E = bx.mod('editor.spice_editor')
    X = bx.mod('editor.editor_errors')
    SC = bx.mod('editor.spice_components').SpiceComponent
    U[:] = [bx.mod('utils.float_unit')]
    d = bx.dir()
    f, g = os.path.join(d, 'a.net'), os.path.join(d, 'b.net')
    for r in bx.each(3500, 30000):
        st, cs = build(r)
        text = '\n'.join(s if isinstance(s, str) else s.saved for s in st) + '\n'
        with open(f, 'w', newline='') as h:
            h.write(text.replace('\n', r.choice(['\n', '\n', '\r\n'])))
        ed = E.SpiceEditor(f)
        log = [text]
        if r.random() < .3:
            read(bx, ed, st, log)
        if r.random() < .3:
            s = io.StringIO()
            ed.save_netlist(s)
            judge(bx, st, s.getvalue(), log)
        for _ in range(r.randint(0, 8)):
            op = r.choice(['edit'] * 7 + ['remove', 'add', 'save', 'missing', 'read'])
            if op == 'edit' and cs:
                edit(bx, r, ed, r.choice(cs), log)
            elif op == 'remove' and cs:
                c = r.choice(cs)
                log.append((op, c.ref))
                r.choice([lambda: ed.remove_component(c.ref), lambda: ed.__delitem__(c.ref)])()
                cs.remove(c)
                st.remove(c)
                bx.check(c.ref not in ed, 'a component removed is not there', log)
            elif op == 'add':
                c = Comp(r, netgen.refs(r, list(KINDS), 1)[0])
                c.comment = ''
                c.saved, c.taken = c.text(r).replace('\n+', ' '), lambda: [x.ref.upper() for x in cs]
                log.append((op, c.saved))
                if c.kind != 'T' and not c.flags and r.random() < .4:       # made from its parts
                    c.odd, c.edited = False, True
                    new = SC(netlist=r.choice([ed, None]), obj=r.choice(['', None]), reference=c.ref, ports=list(c.nodes), value=c.value, params=dict(c.params))
                    log.append('made from its parts')
                else:
                    new = SC(netlist=ed, obj=c.saved + '\n')
                there = [x for x in cs if x.ref.upper() == c.ref.upper()]
                how = r.choice(['', 'insert_before', 'insert_after']) if cs else ''
                if how:
                    o = r.choice(cs)
                    log.append((how, o.ref))
                    ed.add_component(new, **{how: o.ref})
                    at = st.index(o) + (how == 'insert_after')
                else:
                    ed.add_component(new)
                    at = st.index(there[0]) if there else [isinstance(x, str) and x in ('.backanno', '.end') for x in st].index(True)
                st.insert(at, c)
                cs[:] = [x for x in st if not isinstance(x, str) and x not in there]
                st[:] = [x for x in st if x not in there]
                nodes = ed.get_all_nodes()
                bx.check(all(x in nodes for y in cs if y.kind != 'K' for x in y.nodes), 'the nodes of a component are those of the circuit', log + [nodes])
            elif op == 'missing':
                for call in (lambda: ed.get_component('R4242'), lambda: ed.set_component_value('R4242', 1), lambda: ed.remove_component('R4242')):
                    try:
                        call()
                        bx.fail('a component that is not there is not found', log)
                    except X.ComponentNotFoundError:
                        pass
            elif op == 'save':
                log.append(op)
                ed.save_netlist(g)
                t = open(g, encoding=ed.encoding).read()
                judge(bx, st, t, log)
                if r.random() < .4:
                    log.append('reread')
                    ed = E.SpiceEditor(g)
            elif op == 'read':
                read(bx, ed, st, log)
        read(bx, ed, st, log)
        ed.save_netlist(g)
        t = open(g, encoding=ed.encoding).read()
        judge(bx, st, t, log)
        read(bx, E.SpiceEditor(g), st, log + ['reread', t])
        bx.done(str(log))


@bounded('C07', 'the parameters that are read are those that the statement has, in each way they can be written',
         [f'{C}:_parse_params', f'{C}:_scan_params', f'{C}:_tokenize_params', f'{S}:SpiceCircuit.get_component_parameters'])
def spellings(bx):
    """key=value, key=v1,v2, key=v1 n2 n3, key number, keyword; with and without spaces"""
    Ed = bx.mod('editor.spice_editor').SpiceEditor
    path = os.path.join(bx.dir(), 'p.net')
    NUM = ['5', '2.5', '-3', '1e-9', '12', '0.1']
    TXT = ['{a + b}', '{x}', '(1 2)', '"x y"', '{if(a,b,c)}', "'p+q'"]

    def plain(x):
        return ([plain(y) for y in x] if isinstance(x, (list, tuple)) else True if x is True
                else [float(y) if re.fullmatch(r'[-+.\de]+', y) else y for y in [str(x)]][0])
    for r in bx.each(400, 8000):
        head, word = r.choice([('R1 a b 1k', 'noiseless'), ('C1 a b 1u', None), ('L1 a b 1m', None), ('M1 d g s b NM', 'off'), ('D1 a k DX', 'off')])
        want, text, used = {}, [], set()
        for k in r.sample(['temp', 'm', 'ic', 'zz', 'Tol', 'q_1'], r.randint(1, 4)):
            how = r.choice(['=', '=', ',', 'n', ' ', 'word'])
            sp = lambda: r.choice(['', '', ' ', '  '])
            if how == 'word':
                if word and word not in want:
                    want[word] = True
                    text.append(word)
                    continue
                how = '='
            if how == '=':
                v = r.choice(NUM + TXT)
                want[k] = v
                text.append(f'{k}{sp()}={sp()}{v}')
            elif how == ',':
                v = [r.choice(NUM + TXT[:2]) for _ in range(r.randint(2, 3))]
                want[k] = v
                text.append(f'{k}{sp()}={sp()}' + ''.join((f'{sp()},{sp()}' if i else '') + x for i, x in enumerate(v)))
            elif how == 'n':
                v = [r.choice(NUM) for _ in range(r.randint(2, 3))]
                want[k] = ' '.join(v)
                text.append(f'{k}{sp()}={sp()}' + ' '.join(v))
            else:
                want[k] = r.choice(['5', '12', '3', '1e9'])
                text.append(f'{k} {want[k]}')
        line = head + ' ' + r.choice([' ', '  ']).join(text)
        with open(path, 'w') as h:
            h.write(f'* t\n{line}\n.end\n')
        ed = Ed(path)
        got = {k: v for k, v in ed.get_component_parameters(head.split()[0]).items() if k != 'Value'}
        bx.check(list(got) == list(want), 'each parameter is read once, in order', (line, got, want))
        bx.check(all(plain(got[k]) == plain(want[k]) for k in want), 'each one has its value', (line, got, want))
        if 'noiseless' not in want:  # known finding
            new = r.choice(['new', *[k for k in want if want[k] is not True]])
            value = r.choice(['7', '{y}'])
            ed.set_component_parameters(head.split()[0], **{new: value})
            want[new] = value
            ed.save_netlist(path)
            for e in (ed, Ed(path)):
                got = {k: v for k, v in e.get_component_parameters(head.split()[0]).items() if k != 'Value'}
                bx.check(set(got) == set(want) and all(plain(got[k]) == plain(want[k]) for k in want), 'setting one leaves the others', (line, new, got, want))
        bx.check(head.split()[-1] == ed.get_component_value(head.split()[0]), 'what is before them is the value', line)
        bx.done(line)


@finding('C07', 'noiseless')
def noiseless(bx):
    import tempfile
    E = bx.mod('editor.spice_editor')
    with tempfile.TemporaryDirectory() as d:
        f, g = os.path.join(d, 'a.net'), os.path.join(d, 'b.net')
        with open(f, 'w') as h:
            h.write('* t\nR1 a b 1k noiseless\n.end\n')
        ed = E.SpiceEditor(f)
        ed.set_component_parameters('R1', tc1='2m')
        ed.save_netlist(g)
        t = open(g).read()
    if 'noiseless=True' in t:
        return "setting a parameter of 'R1 a b 1k noiseless' writes the keyword noiseless as noiseless=True"
    return None


# --- proofs: a circuit is any list of statements, of any class --------------------------------------------------------

class _Owner(core.Kind):
    """the circuit that a component belongs to: the one of the harness, or another one"""

    def __init__(self):
        super().__init__('owner', z3.IntSort())
        self.members = [None]

    def wrap(self, e):
        return self.members[-1] if bool(wrap(e == 1)) else self.members[0]

    def unwrap(self, v):
        return z3.IntVal(1 if v is not None and v is self.members[-1] else 0)


def circuit(vc):
    """a circuit of any length; a name is an opaque value with what upper() gives"""
    m = vc.mod(S)
    up = vc.mod('editor.updates')
    ref = RecordType('Ref', {'upped': IntK, 'path': BoolK, 'wanted': BoolK})
    ref.fields['upped'] = ref
    ref.methods = {'upper': lambda t: t.upped, '__getitem__': lambda t, i: t,
                   '__contains__': lambda t, x: bool(t.path if isinstance(x, str) else x.wanted)}
    st = RecordType('Statement', {'_cls': IntK, 'reference': ref, 'title': ref, 'value_str': IntK, '_netlist': (owner := _Owner())})
    st.methods = {'name': lambda s: s.title}
    st.classes = (str, m.Primitive, m.SpiceComponent, m.SpiceCircuitInstance, m.SpiceCircuit, m.ControlEditor, m.IncludeFile)
    net = vc.seq('netlist', st)
    ed = m.SpiceCircuit.__new__(m.SpiceCircuit)
    log, ed.netlist = [], []
    owner.members.append(ed)
    vc.rep(ed, netlist=net)
    n = vc.len(net)
    vc.assume(Forall(0, n, lambda i: And(at(net, i)._cls >= 0, at(net, i)._cls < len(st.classes))))
    # a statement is in one place
    vc.assume(Forall(0, n, lambda i: Forall(0, i, lambda j: at(net, i) != at(net, j))))
    vc.stub(m.SpiceCircuit.begin_update, 'begin_update: editing is allowed and recorded', lambda self: up.UpdatePermission.Inform)
    vc.stub(m.SpiceCircuit.end_update, 'end_update: the edit is recorded', lambda self, *a: log.append(a))
    isa = lambda e, cls: Or([e._cls == i for i, c in enumerate(st.classes) if issubclass(c, cls)])
    named = lambda e, r: Or(And(isa(e, m.SpiceCircuit), e.title.upped == r.upped),
                            And(Not(isa(e, m.SpiceCircuit)), isa(e, m.SpiceComponent), e.reference.upped == r.upped))
    return m, ed, net, n, st, ref, log, isa, named


@prove('C07', 'looking a component up gives the first statement with that name, whatever its letter case, and fails when there is none',
       [f'{S}:SpiceCircuit.get_component', f'{S}:SpiceCircuit.__contains__', f'{S}:SpiceCircuit.get_component_value'], internal=True, conc=0)
def lookup(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, ed, net, n, st, ref, log, isa, named = circuit(vc)
    X = vc.mod('editor.editor_errors')
    r = SRef(ref, z3.Int('asked'))
    vc.assume(Not(r.upped.path), r.upped.upped == r.upped)
    first = vc.int('first', 0, n)
    vc.assume(Forall(0, first, lambda j: Not(named(at(net, j), r))), Or(first == n, named(at(net, first), r)))
    vc.loop(f'{S}:SpiceCircuit.get_component#0', lambda L, i: [Forall(0, i, lambda j: Not(named(at(net, j), r)))])
    got, exc = vc.raises(lambda: ed.get_component(r), X.ComponentNotFoundError)
    if exc is not None:
        vc.check('it is not there', first == n)
    else:
        vc.check('it is there', first < n)
        vc.check('it is the first one', got == at(net, first))


@prove('C07', 'removing a component removes that statement, and all others stay in order', [f'{S}:SpiceCircuit.remove_component'], internal=True, conc=0)
def removal(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, ed, net, n, st, ref, log, isa, named = circuit(vc)
    X = vc.mod('editor.editor_errors')
    old = net.copy()
    k = vc.int('k', 0, n)

    def get_component(self, r):
        if bool(k == n):
            raise X.ComponentNotFoundError('not there')
        return at(old, k)
    vc.stub(m.SpiceCircuit.get_component, 'get_component: a statement of the circuit, or not found', get_component)
    _, exc = vc.raises(lambda: ed.remove_component(SRef(ref, z3.Int('asked'))), X.ComponentNotFoundError)
    cut = vc.len(ed.netlist)
    if exc is not None:
        vc.check('not found', k == n)
        vc.check('the circuit is as it was', And(cut == n, Forall(0, n, lambda j: at(ed.netlist, j) == at(old, j))))
        vc.check('nothing is recorded', len(log) == 0)
        return
    vc.check('one statement less', cut == n - 1)
    vc.check('the statements before it stay', Forall(0, k, lambda j: at(ed.netlist, j) == at(old, j)))
    vc.check('the ones after it stay, in order', Forall(k, cut, lambda j: at(ed.netlist, j) == at(old, j + 1)))
    vc.check('recorded once', len(log) == 1)


@prove('C07', 'the components listed are those of the circuit with the prefixes asked for, each once and in order', [f'{S}:SpiceCircuit.get_components'], internal=True, conc=0)
def listing(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, ed, net, n, st, ref, log, isa, named = circuit(vc)
    comp = lambda e: And(isa(e, m.SpiceComponent), e.reference.wanted)
    rank_ = z3.Function('rank', z3.IntSort(), z3.IntSort())
    rank = lambda j: core.wrap(rank_(to_z3(j)))
    vc.assume(rank(0) == 0, Forall(0, n, lambda j: rank(j + 1) == rank(j) + core.wrap(z3.If(to_z3(comp(at(net, j))), z3.IntVal(1), z3.IntVal(0)))))
    # lemma (by induction over j, from the definition): rank does not decrease, and grows past each component
    vc.assume(Forall(0, n + 1, lambda j: rank(j) >= 0))
    vc.assume(Forall(0, n + 1, lambda j: Forall(0, j, lambda i: And(rank(i) <= rank(j), Implies(comp(at(net, i)), rank(i) < rank(j))))))
    vc.loop(f'{S}:SpiceCircuit.get_components#0', lambda L, i: [vc.len(L.answer) == rank(i), True if isinstance(L.answer, list) else
            Forall(0, i, lambda j: Implies(comp(at(net, j)), at(L.answer, rank(j)) == at(net, j).reference))], havoc_vals={'answer': lambda E, old, L: E.fresh_seq(ref, 'answer')})
    got = ed.get_components(SRef(ref, z3.Int('prefixes')))
    vc.check('as many as there are such components', vc.len(got) == rank(n))
    vc.check('each one in its place', Forall(0, n, lambda j: Implies(comp(at(net, j)), at(got, rank(j)) == at(net, j).reference)))


@prove('C07', 'a component that is added is in the place asked for or before the end, replaces one of its name, and nothing else moves',
       [f'{S}:SpiceCircuit.add_component'], internal=True, conc=0)
def addition(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, ed, net, n, st, ref, log, isa, named = circuit(vc)
    new = SRef(st, z3.Int('component'))
    vc.assume(isa(new, m.SpiceComponent), Forall(0, n, lambda j: at(net, j) != new))
    same = lambda e: And(isa(e, m.SpiceComponent), e.reference.upped == new.reference.upped)
    vc.assume(Forall(0, n, lambda j: Not(same(at(net, j)))))
    old = net.copy()
    k = vc.int('k', 0, n)
    how = vc.choice('how', ['', 'insert_before', 'insert_after'])
    if how:
        vc.assume(k < n)
    vc.stub(m.SpiceCircuit.get_component, 'get_component: a statement of the circuit', lambda self, r: at(old, k))
    vc.stub(m.SpiceCircuit._end_of_circuit, '_end_of_circuit: where statements are inserted', lambda self: k)
    vc.loop(f'{S}:SpiceCircuit.add_component#0', lambda L, i: [])
    ed.add_component(new, **({how: SRef(ref, z3.Int('asked'))} if how else {}))
    p = k + 1 if how == 'insert_after' else k
    vc.check('one statement more', vc.len(ed.netlist) == n + 1)
    vc.check('it is where it is asked for', at(ed.netlist, p) == new)
    vc.check('it is of that circuit, which records its edits', new._netlist is ed)
    vc.check('the statements before it stay', Forall(0, p, lambda j: at(ed.netlist, j) == at(old, j)))
    vc.check('the ones after it stay, in order', Forall(p, n, lambda j: at(ed.netlist, j + 1) == at(old, j)))
    vc.check('recorded once', len(log) == 1)


class _MaybeRef(core.Kind):
    """a record, or None"""

    def __init__(self, rt):
        super().__init__('maybe ' + rt.name, z3.IntSort())
        self.rt = rt

    def wrap(self, e):
        if bool(wrap(e < 0)):
            return None
        return self.rt.wrap(e)

    def unwrap(self, v):
        return z3.IntVal(-1) if v is None else self.rt.unwrap(v)


@prove('C07', 'saving writes every statement of the circuit once and in order, and the changed sub circuits before the end',
       [f'{S}:SpiceCircuit.write_lines'], internal=True, conc=0)
def written(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, ed, net, n, st, ref, log, isa, named = circuit(vc)
    ghost = type('Ghost', (), {'base': None, 'text': '', 'any': False})()

    class Stream:
        def write(self, s):
            if isinstance(s, SRef):         # a statement that is a string
                vc.check('only a string is written as it is', isa(s, str))
                s = s.raw
            ghost.text, ghost.any = ghost.text + s, True
    stream = Stream()

    def own(s, f):
        if f is not stream:
            raise core.Unsupported('written to another stream')
        stream.write(s.own)
    lib = RecordType('Library', {'own': StrK}, {'write_lines': own})
    line = RecordType('Line', {'end': BoolK, 'bare': StrK})

    def starts(t, p):
        if not (isinstance(p, str) and p.upper() == '.END'):
            raise core.Unsupported('another question about a line')
        return t.end
    line.methods = {'upper': lambda t: t, 'startswith': starts, 'strip': lambda t: t.bare}
    st.fields.update(raw=StrK, own=StrK, obj=line, editor=_MaybeRef(lib))
    st.methods['write_lines'] = own
    subs_ = z3.Function('subcircuits written', z3.IntSort(), z3.StringSort())
    subs = lambda j: core.wrap(subs_(to_z3(j)))
    sub = RecordType('Copy', {'own': StrK}, {'write_lines': own})
    mod = vc.seq('modified', sub)
    vc.assume(subs(0) == '', Forall(0, vc.len(mod), lambda j: subs(j + 1) == subs(j) + at(mod, j).own))
    vc.stub(m.SpiceCircuit.modified_subcircuits, 'modified_subcircuits (proved in C24): the changed sub circuits', lambda self: mod)

    def havoc(E, L):
        ghost.base, ghost.text, ghost.any = 'next', '', False
        return [ghost]

    def expected(k):
        e = at(net, k)
        if bool(isa(e, str)):
            return e.raw
        if bool(isa(e, m.IncludeFile)):
            return e.editor.own
        if bool(Or(isa(e, m.SpiceComponent), isa(e, m.SpiceCircuit), isa(e, m.ControlEditor))):
            return e.own
        t = e.obj.bare + '\n'
        return subs(vc.len(mod)) + t if bool(e.obj.end) else t

    def inv(L, i):
        if ghost.base is None:
            if ghost.any:
                raise core.Unsupported('something is written first')
            return []
        if isinstance(ghost.base, str):
            ghost.base = i
            return {'nothing written since': True}
        return {'a statement is written once, as what it is': ghost.text == expected(ghost.base)}
    vc.loop(f'{S}:SpiceCircuit.write_lines#0', inv, havoc=havoc)
    g2 = {'entry': None}

    def havoc2(E, L):
        ghost.text = core.wrap(z3.FreshConst(z3.StringSort(), 'text'))
        return [ghost]

    def inv2(L, i):
        if g2['entry'] is None:
            g2['entry'] = ghost.text
        return [ghost.text == g2['entry'] + subs(i)]
    vc.loop(f'{S}:SpiceCircuit.write_lines#1', inv2, havoc=havoc2)
    _, exc = vc.raises(lambda: ed.write_lines(stream), RuntimeError)
    if exc is not None:
        vc.check('only an include file that was not found cannot be written', isinstance(ghost.base, str) is False and
                 And(isa(at(net, ghost.base), m.IncludeFile), at(net, ghost.base).editor is None))
        return
    vc.check('every statement is written', ghost.base == n)
    vc.check('and nothing follows', not ghost.any)


@prove('C07', 'what is read from, or set on, a component of a circuit is read from, or set on, the one with that name',
       [f'{S}:SpiceCircuit.set_component_value', f'{S}:SpiceCircuit.set_component_parameters', f'{S}:SpiceCircuit.set_element_model', f'{S}:SpiceCircuit.get_component_value',
        f'{S}:SpiceCircuit.get_component_nodes', f'{S}:SpiceCircuit.get_component_attribute', f'{S}:SpiceCircuit.get_component_parameters', f'{S}:SpiceCircuit.is_read_only', 'editor.base_subcircuit:BaseSubCircuit.editor',
        'editor.base_subcircuit:BaseSubCircuit.set_component_values', 'editor.base_subcircuit:BaseSubCircuit.get_component_floatvalue'], internal=True, conc=0)
def delegated(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, f, up, X = vc.mod(S), vc.mod('editor.spice_file'), vc.mod('editor.updates'), vc.mod('editor.editor_errors')
    C = {'main': f.SpiceFile, 'sub': m.SpiceCircuit}[vc.choice('circuit', ['main', 'sub'])]
    ed = C.__new__(C)
    perm = vc.choice('permission', [up.UpdatePermission.Inform, up.UpdatePermission.Deny])
    new, calls, log = vc.int('value'), [], []

    class Comp(m.SpiceComponent):
        def set_value(self, v):
            if perm == up.UpdatePermission.Deny:
                raise PermissionError('not now')
            calls.append(('value', v))

        def set_parameters(self, **p):
            calls.append(('parameters', p))

        value_str = '4k7'
    comps = {'R1': Comp(obj='R1 a b 4k7 tc=1\n'), 'XY': Comp(obj='XY in out 0 sub pp={x}\n')}
    before = {k: c.obj for k, c in comps.items()}
    ask = vc.choice('reference', ['R1', 'XY', 'C9'])

    def found(self, ref):
        if self is not ed:
            raise core.Unsupported('another circuit')
        if ref not in comps:
            raise X.ComponentNotFoundError(ref)
        return comps[ref]
    vc.stub(m.SpiceCircuit.get_component, 'get_component (proved): the component with that name, or not found', found)
    vc.stub(C.begin_update, 'begin_update: whether editing is allowed', lambda self: perm)
    vc.stub(C.end_update, 'end_update: the edit is recorded', lambda self, *a: log.append(a))
    if C is m.SpiceCircuit:
        ed.parent = f.SpiceFile.__new__(f.SpiceFile)
        ed.parent.update_permission = perm
    else:
        ed.update_permission = perm
    what = vc.choice('call', ['value', 'values', 'model', 'parameters', 'read value', 'float', 'nodes', 'attribute', 'read parameters'])
    call = {'value': lambda: ed.set_component_value(ask, new), 'values': lambda: ed.set_component_values(**{ask: new}), 'model': lambda: ed.set_element_model(ask, new),
            'parameters': lambda: ed.set_component_parameters(ask, p1=new, p2='{z}'), 'read value': lambda: ed.get_component_value(ask),
            'float': lambda: ed.get_component_floatvalue(ask), 'nodes': lambda: ed.get_component_nodes(ask), 'attribute': lambda: ed.get_component_attribute(ask, 'value'),
            'read parameters': lambda: ed.get_component_parameters(ask)}[what]
    writes = what in ('value', 'values', 'model', 'parameters')
    try:
        got = call()
    except (X.ComponentNotFoundError, ValueError, PermissionError) as e:
        vc.check('refused only when it is not there, or editing is denied',
                 ask not in comps if isinstance(e, X.ComponentNotFoundError) else writes and perm == up.UpdatePermission.Deny)
        vc.check('nothing is set when refused', calls == [] and log == [])
        return
    vc.check('not found when it is not there', ask in comps)
    vc.check('the texts stay', all(c.obj == before[k] for k, c in comps.items()))
    if not writes:
        vc.check('reading sets nothing', calls == [] and log == [])
        want = {'read value': '4k7', 'float': 4700.0, 'nodes': {'R1': ['a', 'b'], 'XY': ['in', 'out', '0']}[ask], 'attribute': {'R1': '4k7', 'XY': 'sub'}[ask],
                'read parameters': {'R1': ('tc', '1'), 'XY': ('pp', '{x}')}[ask]}[what]
        if what == 'read parameters':
            vc.check('its parameters', str(got.get(want[0])) == want[1])
        elif what == 'float':
            vc.check('its value, as a number', abs(float(got) - want) < 1e-9)
        else:
            vc.check('what it has', got == want if what == 'nodes' else str(got) == want)
        return
    vc.check('refused when editing is denied', perm != up.UpdatePermission.Deny)
    if what == 'parameters':
        vc.check('the parameters given, once', len(calls) == 1 and calls[0][0] == 'parameters' and list(calls[0][1]) == ['p1', 'p2'] and calls[0][1]['p2'] == '{z}')
        vc.check('with their values', calls[0][1]['p1'] == new)
    else:
        vc.check('the value, once', len(calls) == 1 and calls[0][0] == 'value')
        vc.check('the value given', calls[0][1] == new)
    vc.check('what else is recorded is that', And(*(And(a[0] == ask, a[1] == new) for a in log)))
