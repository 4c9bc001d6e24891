"""C08 - directives and parameters are added once, replaced and removed exactly."""
import io
import os
import random
import re
import z3
from pyvc import core
from pyvc.core import RecordType, IntK, SRef
from pyvc.api import *
from .C10 import Rows
from . import ascgen, netgen, qschgen

S = 'editor.spice_subcircuit'
F = 'editor.spice_file'
A = 'editor.asc_editor'
B = 'editor.base_editor'
Q = 'editor.qsch_editor'
ASSUMPTIONS = ["which statements are analyses is the documented list .AC .DC .TRAN .NOISE .TF",
               "the texts of a netlist are well formed: closed braces and quotes"]
UNIQUE = ('.AC', '.DC', '.TRAN', '.NOISE', '.TF')

# text of a value -> what it denotes (None: the text itself)
VALS = {'1': 1, '10k': 1e4, '{2*y}': None, '3.5': 3.5, '1e-9': 1e-9, 'res': None, '{a b}': None, '4.7u': 4.7e-6, '-5': -5, '2meg': 2e6,
        'if(x>1,2,3)': None, 'a+b': None, '2*(x+1)': None, '1k': 1000, '0': 0, '{if(a==1,2,3)}': None, "'tt'": None, '+3m': 3e-3, 'V1': None,
        'E1': None, '2.5e3': 2500, 'x ** 2': None, 'a - b': None}
SETS = [('47k', 47e3), (1000, 1000), (0, 0), (2.2e-6, 2.2e-6), ('{zz*2}', None), ('other', None), (-4.5, -4.5), ('{a b}', None), ('2*(a+1)', None),
        ('1e6', 1e6), (1e9, 1e9), ('a', None), ('max(1,2)', None)]
NAMES = ['res', 'res1', 'gain', 'vin', 'x', 'a', 'TEMP', 'temp2', 'fs', 'E1', 'e', 'R', 'C_1', 'param', 'ab', 'b', 'step', 'f0', '_u', 'n', 'nn']


def num(text):
    """what a value text that is set denotes"""
    return VALS[text] if text in VALS else dict((k, v) for k, v in SETS)[text]


def same_value(got, want):
    """a parameter read is the value it was set to"""
    n = want if isinstance(want, (int, float)) else num(want)
    if n is None:
        return str(got).replace(' ', '') == str(want).replace(' ', '')
    try:
        g = float(got)
    except (TypeError, ValueError):
        g = U[0].to_float(str(got), accept_invalid=False)
    return abs(g - n) <= 1e-9 * max(abs(n), 1e-30) or abs(g - n) < 1e-5 * abs(n)


U = []


def param_line(r, pairs, cont=True, comments=True):
    """text of a .param statement, in one of the ways it can be written"""
    out = r.choice(['.param', '.PARAM', '.Param', '.param '])
    for i, (k, v) in enumerate(pairs):
        out += ('\n+ ' if cont and i and r.random() < .25 else r.choice([', ', ' , ', ',']) if i and r.random() < .1 else r.choice([' ', ' ', '  ', '\t'])) 
        out += k + r.choice(['=', '=', '=', ' = ', '= ', ' =']) + v
    if comments and r.random() < .25:
        out += r.choice([' ; note', '  ; a=7 b = 9', ' ;x=3', '; Batch instruction'])
    return out


def no_comment(t):
    return '\n'.join(re.sub(r';.*', '', l) for l in t.split('\n'))


def pairs_of(text):
    """independent reading of the assignments of a .param statement"""
    t = no_comment(text).replace('\n+', ' ')
    t = re.sub(r'^\s*\.param\b', '', t, flags=re.I)
    out = []
    hits = [m for m in re.finditer(r"(?<![\w.=<>!])([A-Za-z_]\w*)\s*=(?!=)\s*", mask(t))]
    for i, m in enumerate(hits):
        end = hits[i + 1].start() if i + 1 < len(hits) else len(t)
        out.append((m.group(1), t[m.end():end].strip(' \t\r\n,')))
    return out


def mask(t):
    """the text with what is within braces, parenthesis and quotes blanked"""
    out, stack = '', []
    for c in t:
        if c in '({':
            stack.append(c)
        elif c in ')}' and stack:
            stack.pop()
        elif c == "'":
            (stack.pop() if stack and stack[-1] == c else stack.append(c))
        out += '#' if stack and c != '(' else c
    return out


def statements(text):
    """statements of a netlist: continuation lines joined, blank lines put apart"""
    out = []
    inside = False
    for l in text.split('\n'):
        if not l.strip():
            continue
        if inside or l.startswith('+') and out:
            inside = inside and not l.lower().startswith('.ends')
            out[-1] += '\n' + l
        else:
            inside = l.lower().startswith('.subckt')
            out.append(l.rstrip())
    return out


class Model:
    """what the circuit is to hold, in order: ('param', [(name, value)]) or ('text', text)"""

    def __init__(self, r, d):
        self.st = []
        net = netgen.netlist(r, subs=r.random() < .3, kinds='RCVD', nmax=4)
        names = r.sample(NAMES, r.randint(0, 8))
        lines = []
        wide = r.random() < .04
        if wide:
            names = [f'p{i}' for i in range(r.randint(20, 45))]
        while names:
            k = min(r.randint(15, 40), len(names)) if wide else r.randint(1, min(4, len(names)))
            lines.append([(n, r.choice(list(VALS))) for n in names[:k]])
            names = names[k:]
        body = []
        for s in net.st[1:]:
            if s['kind'] == 'param' or s['text'].lower() in ('.backanno', '.end'):
                continue
            body.append(('text', s['text']))
        for l in lines:
            body.append(('param', l, param_line(r, l)))
        for t in r.sample(['.tran 2m', '.ac lin 5 1 10', '.TRAN 0 1', '.Dc V1 0 1 .1', '.tf V(out) V1'], r.choice([0, 0, 0, 1, 2])):
            body.append(('text', t))
        for i in range(r.choice([0, 0, 0, 0, 1, 1, 2, 3])):
            body.append(('text', r.choice([f'.control\nrun\nprint a={i}\n.endc', f'.CONTROL\n  set x{i}\n\n.tran 1m\n.meas a max b\n.ENDC', f'.Control\nset x{i} \n.EndC'])))
        if r.random() < .1:
            body.append(('text', '* .param ghost=1 a=3'))
        r.shuffle(body)
        tail = [('text', r.choice(['.backanno', '.BACKANNO']))] if r.random() < .5 else []
        tail += [('text', r.choice(['.end', '.END', '.End']))]
        self.title = net.st[0]['text']
        self.st = [('text', self.title)] + body + tail
        if tail and tail[-1][1].lower() == '.end' and r.random() < .1:
            self.st.append(('text', '* written after the end'))

    def text(self):
        return '\n'.join(s[1] if s[0] == 'text' else s[2] for s in self.st) + '\n'

    def shared(self, r, d):
        """the same circuit with some of its parameters in an included file (saving writes them in their place)"""
        runs = [i for i, s in enumerate(self.st) if s[0] == 'param']
        if not runs:
            return self.text()
        i = r.choice(runs)
        j = r.choice([k for k in range(i + 1, len(self.st) + 1) if all(s[0] == 'param' for s in self.st[i:k])])
        sub = r.choice(['', 'deep', 'two words'])
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        name = os.path.join(sub, 'shared.' + r.choice(['inc', 'lib', 'txt']))
        m = r.randint(i, j) if r.random() < .3 else j     # from there on in a file that the file includes
        with open(os.path.join(d, name), 'w', newline='') as h:
            h.write(''.join(s[2] + '\n' for s in self.st[i:m]) + ('.include inner.inc\n' if m < j else ''))
        with open(os.path.join(d, sub, 'inner.inc'), 'w', newline='') as h:
            h.write(''.join(s[2] + '\n' for s in self.st[m:j]))
        line = ('text', r.choice(['.include ', '.inc ', '.INCLUDE ']) + (f'"{name}"' if ' ' in name or r.random() < .5 else name))
        return '\n'.join(s[1] if s[0] == 'text' else s[2] for s in self.st[:i] + [line] + self.st[j:]) + '\n'

    def find(self, name):
        for i, s in enumerate(self.st):
            if s[0] == 'param':
                for j, (k, v) in enumerate(s[1]):
                    if k.upper() == name.upper():
                        return i, j
        return None

    def params(self):
        return {k: v for s in self.st if s[0] == 'param' for k, v in s[1]}

    def end(self):
        for i, s in enumerate(self.st):
            if s[0] == 'text' and s[1].lower() in ('.backanno', '.end'):
                return i
        return len(self.st)

    def uniques(self):
        return [i for i, s in enumerate(self.st) if s[0] == 'text' and s[1].split()[0].upper() in UNIQUE]


def judge(bx, m, text, log):
    """compares a saved netlist with what it is to hold"""
    got = []
    for s in statements(text):
        if re.match(r'\s*\.param\b', s, re.I):
            got.append(('param', [(k, v) for k, v in pairs_of(s)]))
        elif not re.match(r'\* SpiceEditor removed', s):
            got.append(('text', s.strip()))
    want = []
    for s in m.st:
        if s[0] == 'param':
            if s[1]:
                want.append(('param', list(s[1])))
        else:
            want += [('text', t.strip()) for t in statements(s[1])]
    seq = lambda x: [t[1] for t in x if t[0] == 'text' and t[1] not in m.free]
    bx.check(seq(got) == seq(want), 'the other statements are saved as they were, in order', (log, seq(want), seq(got), text))
    bx.check(sorted(t[1] for t in got if t[0] == 'text' and t[1] in m.free) == sorted(t[1] for t in want if t[0] == 'text' and t[1] in m.free),
             'an added directive is saved once', (log, text))
    low = [t[1].lower() if t[0] == 'text' else '' for t in got]
    stop = min([i for i, t in enumerate(low) if t in ('.end', '.backanno')] + [len(low)])
    bx.check(all(i < stop for i, t in enumerate(got) if t[0] == 'text' and t[1] in m.free), 'added directives land before the end', (log, text))
    bx.check(all(i < stop and i > 0 for i, t in enumerate(got) if t[0] == 'param'), 'parameters land before the end', (log, text))
    gp = [(k, v) for t in got if t[0] == 'param' for k, v in t[1]]
    wp = [(k, v) for t in want if t[0] == 'param' for k, v in t[1]]
    bx.check(sorted(k for k, _ in gp) == sorted(k for k, _ in wp), 'the parameters saved are those there are', (log, wp, gp, text))
    d = dict(wp)
    for k, v in gp:
        bx.check(same_value(v, d[k]), 'a parameter is saved with its value', (log, k, v, d[k], text))
    lines = lambda x: [[k for k, _ in t[1]] for t in x if t[0] == 'param']
    bx.check([l for l in lines(got) if not set(l) & m.newp] == [l for l in lines(want) if not set(l) & m.newp], 'parameters stay where they were', (log, text))


def read_back(bx, ed, m, log):
    ps = m.params()
    bx.check(ed.get_all_parameter_names() == sorted(k.upper() for k in ps), 'the parameters listed are those there are',
             (log, ed.get_all_parameter_names(), ps))
    for k, v in ps.items():
        g = ed.get_parameter(k.swapcase())
        bx.check(same_value(g, v), 'a parameter reads as its value', (log, k, g, v))


@bounded('C08', 'parameters and directives of a SPICE netlist', [f'{S}:SpiceCircuit.set_parameter', f'{S}:SpiceCircuit.get_parameter',
         f'{S}:SpiceCircuit.get_all_parameter_names', f'{B}:PARAM_REGEX', f'{F}:SpiceFile.add_instruction', f'{F}:SpiceFile.remove_instruction',
         f'{F}:SpiceFile.remove_Xinstruction', f'{S}:_is_unique_instruction', f'{F}:SpiceFile.save_netlist',
         'editor.spice_editor:SpiceEditor.get_control_sections', 'editor.spice_editor:SpiceEditor.add_control_section',
         'editor.spice_editor:SpiceEditor.remove_control_section'])
def spice(bx):
    E = bx.mod('editor.spice_editor')
    X = bx.mod('editor.editor_errors')
    U[:] = [bx.mod('utils.float_unit')]
    d = bx.dir()
    f, g = os.path.join(d, 'a.net'), os.path.join(d, 'b.net')
    for r in bx.each(700, 12000):
        m = Model(r, d)
        m.free, m.newp = set(), set()
        text = m.text() if r.random() < .8 else m.shared(r, d)
        with open(f, 'w', newline='') as h:
            h.write(text.replace('\n', r.choice(['\n', '\n', '\r\n'])))
        ed = E.SpiceEditor(f)
        log = [m.text()] + [text] * (text != m.text())
        read_back(bx, ed, m, log)
        for _ in range(r.randint(1, 8)):
            op = r.choice(['set', 'set', 'set', 'new', 'none', 'add', 'add', 'dup', 'unique', 'unique', 'rem', 'remx', 'save', 'reset', 'param', 'many', 'ctl', 'remx'])
            if op in ('set', 'new', 'many'):
                todo = {}
                for _ in range(r.randint(2, 3) if op == 'many' else 1):
                    k = r.choice(list(m.params()) or NAMES) if op == 'set' or (op == 'many' and r.random() < .5) else r.choice(NAMES + ['fresh'])
                    if k.upper() in [q.upper() for q in todo]:
                        continue
                    todo[r.choice([k, k, k.upper(), k.lower()])] = r.choice(SETS)[0]
                log.append((op, todo))
                if len(todo) == 1 and r.random() < .6:
                    for k, v in todo.items():
                        ed.set_parameter(k, v)
                else:
                    ed.set_parameters(**todo)
                for k, v in todo.items():
                    at = m.find(k)
                    if at is None:
                        m.st.insert(m.end(), ('param', [(k, v)]))
                        m.newp.add(k)
                    else:
                        i, j = at
                        m.st[i][1][j] = (m.st[i][1][j][0], v)
            elif op == 'none':
                k = r.choice(list(m.params()) + ['not_there'])
                log.append((op, k))
                ed.set_parameter(k, None)
                at = m.find(k)
                if at:
                    del m.st[at[0]][1][at[1]]
                _, e = vc_raises(lambda: ed.get_parameter(k), X.ParameterNotFoundError)
                bx.check(e is not None, 'a parameter removed is not found', log)
            elif op in ('add', 'dup'):
                have = [s[1] for s in m.st if s[0] == 'text' and s[1][0] == '.' and s[1].split()[0].upper() not in UNIQUE + ('.END', '.BACKANNO', '.SUBCKT', '.CONTROL')]
                t = r.choice(['.save I(R1)', '.meas qq max V(q)', '.temp 30', '.ic V(q)=1', '.model XX D(Is=1f)', '.options gmin=1e-10', '.op',
                              '.step param a 1 2 1', '.control\nrun\n.endc'] if op == 'add' or not have else have)
                log.append((op, t))
                r.choice([lambda: ed.add_instruction(t), lambda: ed.add_instructions(t + '\n')])()
                if not any(s[0] == 'text' and s[1] == t for s in m.st):
                    m.st.insert(m.end(), ('text', t))
                    m.free |= set(statements(t))
            elif op == 'unique':
                t = r.choice(['.tran 5m', '.ac dec 10 1 1Meg', '.TF V(o) V1', '.dc V1 0 1 0.1', '.noise V(o) V1 dec 5 1 9', '.Tran 1u'])
                log.append((op, t))
                r.choice([lambda: ed.add_instruction(t), lambda: ed.add_instructions(t)])()
                u = m.uniques()
                if u:
                    m.st[u[0]] = ('text', t)
                    for i in reversed(u[1:]):
                        del m.st[i]
                else:
                    m.st.insert(m.end(), ('text', t))
                    m.free.add(t)
                bx.check(len(m.uniques()) == 1, 'one', log)
            elif op == 'param':
                _, e = vc_raises(lambda: ed.add_instruction('.param zz=1'), RuntimeError)
                bx.check(e is not None, 'parameters are not added as instructions', log)
            elif op == 'rem':
                have = [i for i, s in enumerate(m.st) if s[0] == 'text' and s[1][0] == '.' and s[1].split()[0].upper() not in ('.END', '.BACKANNO', '.SUBCKT', '.CONTROL')]
                if have and r.random() < .8:
                    i = r.choice(have)
                    t = m.st[i][1]
                    i = [s[1] for s in m.st].index(t)
                    log.append((op, t))
                    bx.check(ed.remove_instruction(r.choice([t, t + '\n', ' ' + t])) is True, 'a directive is found by removal in the same text', log)
                    del m.st[i]
                else:
                    t = r.choice(['.nothing', '.tran', '.tran 1', '.end 2', 'R1'])
                    log.append((op, t))
                    bx.check(ed.remove_instruction(t) is False, 'a directive that is not there is not found', log)
            elif op == 'remx':
                p = r.choice([r'\.(meas|save)\b', r'\.tran', r'\.ic\b.*', r'\.NOTHING', r'\.step.*', r'tran', r'\.(meas|model|options|save|temp|step|ic)',
                              r'\.(?!end|back|par|inc)\w+', r'\.(?!end|back|par|inc|contr)\w+', r'\.control', r'(?s).*gmin', r'\.(tran|ac|dc|tf)\s', r'\.m'])
                log.append((op, p))
                hit = [i for i, s in enumerate(m.st) if s[0] == 'text' and re.match(p, s[1], re.I) and not s[1].lower().startswith('.subckt')]
                bx.check(ed.remove_Xinstruction(p) is bool(hit), 'directives are found by pattern', log)
                for i in reversed(hit):
                    del m.st[i]
            elif op == 'ctl':
                have = [i for i, s in enumerate(m.st) if s[0] == 'text' and s[1].lower().startswith('.control')]
                got = ed.get_control_sections()
                bx.check([c.rstrip().split('\n') for c in got] == [[l.rstrip() for l in m.st[i][1].split('\n')] for i in have], 'the control sections', (log, got))
                if r.random() < .5:
                    i = r.choice([0, 0, 1, 2, len(have), len(have) - 1])
                    i = max(i, 0)
                    log.append((op, 'remove', i))
                    if i == 0 and r.random() < .5:
                        ok = ed.remove_control_section()
                    else:
                        ok = ed.remove_control_section(i)
                    bx.check(ok is (i < len(have)), 'a control section is removed by its position', log)
                    if i < len(have):
                        del m.st[have[i]]
                else:
                    t = r.choice(['.control\nrun\n.endc', '.control\nlet a = 1\nplot a\n.endc', '.CONTROL\necho x\n.ENDC', '.control\nnever', 'run\n.endc'])
                    log.append((op, 'add', t))
                    _, e = vc_raises(lambda: ed.add_control_section(t), ValueError)
                    bx.check((e is not None) is not (t.lower().startswith('.control') and t.lower().endswith('.endc')), 'a control section begins and ends', log)
                    if e is None and not any(s[0] == 'text' and s[1] == t for s in m.st):
                        m.st.insert(m.end(), ('text', t))
                        m.free |= set(statements(t))
            elif op == 'save':
                log.append(op)
                if r.random() < .5:
                    ed.save_netlist(g)
                    judge(bx, m, open(g, encoding=ed.encoding).read(), log)
                    if r.random() < .5:
                        ed = E.SpiceEditor(g)
                else:
                    s = io.StringIO()
                    ed.save_netlist(s)
                    judge(bx, m, s.getvalue(), log)
            elif op == 'reset' and r.random() < .1 and not any(q == 'save' for q in log):
                ed.reset_netlist()
                s = io.StringIO()
                ed.save_netlist(s)
                flat = lambda t: [' '.join(q.replace('\n+', ' ').split()) for q in statements(t)]
                bx.check(flat(s.getvalue()) == flat(log[0]), 'a reset restores the netlist', (log, s.getvalue()))
                break
            read_back(bx, ed, m, log)
        else:
            ed.save_netlist(g)
            text = open(g, encoding=ed.encoding).read()
            judge(bx, m, text, log)
            read_back(bx, E.SpiceEditor(g), m, log + ['reread'])
        bx.done(str(log))


def vc_raises(fn, exc):
    try:
        return fn(), None
    except exc as e:
        return None, e


@bounded('C08', 'a netlist made from nothing', [f'{F}:SpiceFile.reset_netlist', f'{F}:SpiceFile.add_instruction'])
def blank(bx):
    E = bx.mod('editor.spice_editor')
    U[:] = [bx.mod('utils.float_unit')]
    d = bx.dir()
    for r in bx.each(60, 600):
        ed = E.SpiceEditor(os.path.join(d, 'new.net'), create_blank=True)
        want, ps, un = [], {}, None
        for _ in range(r.randint(1, 6)):
            k = r.choice(['instr', 'param', 'unique'])
            if k == 'instr':
                t = r.choice(['.save V(a)', '.meas q max V(a)', '.temp 30', '.lib x.lib'])
                ed.add_instruction(t)
                if t not in want:
                    want.append(t)
            elif k == 'unique':
                t = r.choice(['.tran 1m', '.ac dec 1 1 10'])
                ed.add_instruction(t)
                if un is None:
                    want.append(t)
                else:
                    want[want.index(un)] = t
                un = t
            else:
                n, v = r.choice(NAMES), r.choice(SETS)[0]
                ed.set_parameter(n, v)
                ps[[q for q in ps if q.upper() == n.upper()][0] if any(q.upper() == n.upper() for q in ps) else n] = v
        s = io.StringIO()
        ed.save_netlist(s)
        got = statements(s.getvalue())
        bx.check(got and got[0].startswith('*'), 'the first line stays the title', got)
        bx.check(got[-1].lower() == '.end', 'the last line is the end', got)
        bx.check([x for x in got[1:-1] if not x.lower().startswith('.param')] == want, 'the instructions in the order they were added', (want, got))
        gp = [p for x in got if x.lower().startswith('.param') for p in pairs_of(x)]
        bx.check(sorted(k for k, _ in gp) == sorted(ps) and all(same_value(v, ps[k]) for k, v in gp), 'the parameters', (ps, got))
        bx.done(str(got))


@bounded('C08', 'directives and parameters of a sub circuit', [f'{S}:SpiceCircuit.add_instruction', f'{S}:SpiceCircuit.remove_instruction',
         f'{S}:SpiceCircuit.remove_Xinstruction', f'{S}:SpiceCircuit.set_parameter', f'{S}:SpiceCircuit.get_parameter'])
def inside(bx):
    """a definition is edited on its own: the main circuit has directives and parameters of the same text and name"""
    E = bx.mod('editor.spice_editor')
    U[:] = [bx.mod('utils.float_unit')]
    d = bx.dir()
    pool = ['.ic V(a)=1', '.nodeset V(a)=2', '.model D1 D(Is=1n)', '.lib x.lib', '.IC V(a)=1', '.nodeset V(a)=22']
    for r in bx.each(60, 600):
        want = ['R1 a b 1k', 'C1 a b 1u'] + r.sample(pool, r.randint(0, 3))
        r.shuffle(want)
        ps = {k: r.choice(['1', '10k', '{2*y}']) for k in r.sample(['q', 'gain', 'w1'], r.randint(0, 2))}
        for k, v in ps.items():
            want.insert(r.randint(0, len(want)), f'.param {k}={v}')
        main = ['X1 n1 0 S'] + r.sample(pool, 2) + ['.param q=77', '.tran 1m']
        f, g = os.path.join(d, 'a.net'), os.path.join(d, 'b.net')
        with open(f, 'w') as h:
            h.write('\n'.join(['* title', *main[:2], '.subckt S a b', *want, '.ends S', *main[2:], '.end']) + '\n')
        ed = E.SpiceEditor(f)
        sub = ed.get_subcircuit_named('S')
        log = [list(want)]
        for _ in range(r.randint(1, 6)):
            k = r.choice(['add', 'add', 'remove', 'removeX', 'param', 'unique'])
            t = r.choice(pool)
            log.append((k, t))
            if k == 'add':
                sub.add_instruction(t + r.choice(['', ' ', '\n']))
                if t not in want:
                    want.append(t)
            elif k == 'remove':
                got = sub.remove_instruction(r.choice(['', ' ']) + t)
                bx.check(got is (t in want), 'tells whether there was one', (log, got))
                if t in want:
                    want.remove(t)
            elif k == 'removeX':
                p = r.choice([r'\.ic', r'\.nodeset', r'\.nodeset', r'\.nodeset V\(a\)=2$', r'\.model', r'\.lib\b'])
                log[-1] += (p,)
                hit = [x for x in want if re.match(p, x, re.I)]
                got = sub.remove_Xinstruction(p)
                bx.check(got is bool(hit), 'tells whether any matches', (log, got))
                want = [x for x in want if x not in hit]
            elif k == 'param':
                n, v = r.choice(['q', 'Q', 'gain', 'new']), r.choice(['3.5', '{a b}', '1e-9'])
                log[-1] += (n, v)
                sub.set_parameter(n, v)
                old = [x for x in ps if x.upper() == n.upper()]
                ps[old[0] if old else n] = v
                if not old:
                    want.append(f'.param {n}={v}')
                else:
                    i = [x.split('=')[0].lower() for x in want].index('.param ' + old[0].lower())
                    want[i] = f'.param {old[0]}={v}'
                bx.check(same_value(sub.get_parameter(n), v), 'the parameter reads the value set', (log, sub.get_parameter(n)))
            else:
                x = vc_raises(lambda: sub.add_instruction(r.choice(['.tran 1', '.AC dec 1 1 2', '.param z=1'])), RuntimeError)[1]
                bx.check(x is not None, 'analyses and parameters are refused', log)
        ed.save_netlist(g)
        got = [l.rstrip() for l in open(g).read().split('\n') if l.strip()]
        i, j = [x.lower() for x in got].index('.subckt s a b'), [x.lower() for x in got].index('.ends s')
        par = lambda xs: sorted((k.upper(), v) for x in xs if x.lower().startswith('.param') for k, v in pairs_of(x))
        rest = lambda xs: [x for x in xs if not x.lower().startswith('.param')]
        bx.check(rest(got[i + 1:j]) == rest(want), 'the statements of the sub circuit', (log, want, got))
        bx.check(len(par(got[i + 1:j])) == len(par(want)) and all(a[0] == b[0] and same_value(a[1], b[1]) for a, b in zip(par(got[i + 1:j]), par(want))),
                 'the parameters of the sub circuit', (log, want, got))
        bx.check(got[:i] + got[j + 1:] == ['* title', *main, '.end'], 'the main circuit is as it was', (log, got))
        bx.done(str(log))


class AscKind:
    ext = 'asc'

    @staticmethod
    def write(r, f, bodies, coms):
        out = ['Version 4', 'SHEET 1 800 600', 'WIRE 0 0 16 0', 'FLAG 0 0 out', 'SYMBOL res 32 32 R0', 'SYMATTR InstName R1', 'SYMATTR Value 1k']
        ts = [(b, '!') for b in bodies]
        for c in coms:
            ts.insert(r.randint(0, len(ts)) if c is coms[0] else len(ts), (c, ';'))
        out += [f'TEXT {r.randint(-99, 99)} {r.randint(-99, 99)} Left 2 {k}{b}' for b, k in ts]
        with open(f, 'w') as h:
            h.write('\n'.join(out) + '\n')

    @staticmethod
    def read(f):
        bodies, coms, rest = [], [], []
        for l in open(f).read().split('\n'):
            if l.startswith('TEXT'):
                b = l.split(None, 5)[5]
                (bodies if b[0] == '!' else coms).append(b[1:])
            elif l:
                rest.append(l)
        return bodies, coms, rest


class QschKind:
    ext = 'qsch'

    @staticmethod
    def write(r, f, bodies, coms):
        s = qschgen.Sheet(r)
        s.root.items = [t for t in s.root.items if t.words[0] != 'text']
        ts = [(b, 0) for b in bodies]
        for c in coms:
            ts.insert(r.randint(0, len(ts)) if c is coms[0] else len(ts), (c, 1))
        for b, k in ts:
            s.text(r, b, k)
        s.write(f, r)

    @staticmethod
    def read(f):
        bodies, coms, rest = [], [], []
        for t in qschgen.read_file(f)[1]:
            if t[0].startswith('text '):
                b = t[0].split(None, 8)[8][1:-1]
                (coms if t[0].split()[4] == '1' else bodies).append(b.removeprefix(qschgen.BOM))
            else:
                rest.append(t)
        return bodies, coms, rest


def sheet(bx, Editor, kind):
    U[:] = [bx.mod('utils.float_unit')]
    d = bx.dir()
    ascgen.library(d)
    f, g = os.path.join(d, 'a.' + kind.ext), os.path.join(d, 'b.' + kind.ext)
    for r in bx.each(500, 8000):
        # a schematic with texts of one or more directives; each is a list of ('text', t) or ('param', pairs, t)
        boxes = []
        names = r.sample(NAMES, r.randint(0, 8))
        while names:
            k = r.randint(1, min(4, len(names)))
            pairs = [(n, r.choice(list(VALS))) for n in names[:k]]
            names = names[k:]
            boxes.append([('param', pairs, param_line(r, pairs, cont=False, comments=False))])
        for t in r.sample(['.meas tran v MAX V(out)', '.save V(a)', '.ic V(o)=1', '.tran 1m', '.ac dec 5 1 9', '.model D1 D(Is=1)', '.step param a 1 2 1', '.lib x.lib'],
                          r.randint(0, 5)):
            boxes.append([('text', t)])
        r.shuffle(boxes)
        i = 0
        while i + 1 < len(boxes):
            if r.random() < .2:
                boxes[i] += boxes.pop(i + 1)
            else:
                i += 1
        coms = ['.param ghost=1 a=77', '.tran 99'][:r.choice([0, 0, 1, 2])]
        kind.write(r, f, ['\\n'.join(s[2] if s[0] == 'param' else s[1] for s in b) for b in boxes], coms)
        rest0 = kind.read(f)[2]
        ed = Editor(f)
        log = [open(f, encoding='latin-1').read()]

        def params():
            return {k: v for b in boxes for s in b if s[0] == 'param' for k, v in s[1]}

        def check_read(e):
            ps = params()
            bx.check(e.get_all_parameter_names() == sorted(k.upper() for k in ps), 'the parameters listed are those there are', (log, e.get_all_parameter_names(), ps))
            for k, v in ps.items():
                bx.check(same_value(e.get_parameter(k.swapcase()), v), 'a parameter reads as its value', (log, k, e.get_parameter(k), v))

        def check_saved():
            bodies, notes, rest = kind.read(g)
            got = [[('param', pairs_of(t)) if t.lower().startswith('.param') else ('text', t) for t in body.split('\\n')] for body in bodies]
            want = [[s[:2] for s in b] for b in boxes]
            tx = lambda x: [[s[1] if s[0] == 'text' else [k for k, _ in s[1]] for s in b] for b in x]
            bx.check(tx(got) == tx(want), 'the directives saved are those there are, in order', (log, tx(want), tx(got)))
            ps = params()
            for b in got:
                for s in b:
                    if s[0] == 'param':
                        for k, v in s[1]:
                            bx.check(same_value(v, ps[k]), 'a parameter is saved with its value', (log, k, v, ps[k]))
            bx.check(notes == coms and rest == rest0, 'the rest of the schematic is unchanged', (log, notes, rest, rest0))

        check_read(ed)
        for _ in range(r.randint(1, 8)):
            op = r.choice(['set', 'set', 'new', 'add', 'unique', 'unique', 'rem', 'remx', 'save', 'param'])
            if op in ('set', 'new'):
                k = r.choice(list(params()) or NAMES) if op == 'set' else r.choice(NAMES + ['fresh'])
                k = r.choice([k, k, k.upper(), k.lower()])
                v = r.choice(SETS)[0]
                log.append((op, k, v))
                r.choice([lambda: ed.set_parameter(k, v), lambda: ed.set_parameters(**{k: v})])()
                for b in boxes:
                    for s in b:
                        if s[0] == 'param':
                            for j, (q, _) in enumerate(s[1]):
                                if q.upper() == k.upper():
                                    s[1][j] = (q, v)
                                    break
                            else:
                                continue
                            break
                    else:
                        continue
                    break
                else:
                    boxes.append([('param', [(k, v)])])
            elif op == 'add':
                t = r.choice(['.save I(R1)', '.meas qq max V(q)', '.temp 30', '.ic V(q)=1', '.op'])
                if any(t in s[1] for b in boxes for s in b if s[0] == 'text'):
                    continue
                log.append((op, t))
                r.choice([lambda: ed.add_instruction(t), lambda: ed.add_instructions(t + '\n')])()
                boxes.append([('text', t)])
            elif op == 'unique':
                t = r.choice(['.tran 5m', '.ac dec 10 1 1Meg', '.TF V(o) V1', '.dc V1 0 1 0.1', '.noise V(o) V1 dec 5 1 9'])
                log.append((op, t))
                ed.add_instruction(t)
                hit = False
                for b in list(boxes):
                    keep = []
                    for s in b:
                        if s[0] == 'text' and s[1].split()[0].upper() in UNIQUE:
                            if not hit:
                                keep.append(('text', t))
                            hit = True
                        else:
                            keep.append(s)
                    b[:] = keep
                boxes[:] = [b for b in boxes if b]
                if not hit:
                    boxes.append([('text', t)])
            elif op == 'param':
                _, e = vc_raises(lambda: ed.add_instruction('.param zz=1'), RuntimeError)
                bx.check(e is not None, 'parameters are not added as instructions', log)
            elif op in ('rem', 'remx'):
                have = [s[1] for b in boxes for s in b if s[0] == 'text']
                p = r.choice([r'\.(meas|save)\b', r'\.tran', r'\.ic\b.*', r'\.NOTHING', r'\.step.*', r'tran'])
                if op == 'rem':
                    t = r.choice(have) if have and r.random() < .8 else '.nothing like it'
                    log.append((op, t))
                    bx.check(ed.remove_instruction(t) is (t in have), 'a directive is found by removal in the same text', log)
                else:
                    log.append((op, p))
                    bx.check(ed.remove_Xinstruction(p) is any(re.match(p, t, re.I) for t in have), 'directives are found by pattern', log)
                one = [op == 'rem']
                for b in list(boxes):
                    keep = []
                    for s in b:
                        if s[0] == 'text' and (re.match(p, s[1], re.I) if op == 'remx' else one[0] and t in s[1]):
                            one[0] = False
                        else:
                            keep.append(s)
                    b[:] = keep
                boxes[:] = [b for b in boxes if b]
            elif op == 'save':
                log.append(op)
                ed.save_as(g)
                check_saved()
                if r.random() < .5:
                    ed = Editor(g)
            check_read(ed)
        ed.save_netlist(g)
        check_saved()
        check_read(Editor(g))
        bx.done(str(log))


@bounded('C08', 'parameters and directives of an LTspice schematic', [f'{A}:AscEditor.set_parameter', f'{A}:AscEditor.get_parameter',
         f'{A}:AscEditor.add_instruction', f'{A}:AscEditor.remove_instruction', f'{A}:AscEditor.remove_Xinstruction', f'{A}:AscEditor.get_all_parameter_names'])
def asc(bx):
    sheet(bx, bx.mod(A).AscEditor, AscKind)


@bounded('C08', 'parameters and directives of a QSPICE schematic', [f'{Q}:QschEditor.set_parameter', f'{Q}:QschEditor.get_parameter',
         f'{Q}:QschEditor.add_instruction', f'{Q}:QschEditor.remove_instruction', f'{Q}:QschEditor.remove_Xinstruction', f'{Q}:QschEditor.get_all_parameter_names'])
def qsch(bx):
    sheet(bx, bx.mod(Q).QschEditor, QschKind)


# --- proofs: a circuit is any list of statements, of any class and text ------------------------------------------------

def circuit(vc):
    """a circuit of any length; a text is an opaque value with what strip() and the command of the line give"""
    m, f = vc.mod(S), vc.mod(F)
    up = vc.mod('editor.updates')
    be = vc.mod(B)
    text = RecordType('Text', {'stripped': IntK, 'cmd': StrK})
    text.fields['stripped'] = text
    text.pytypes = (str,)
    text.methods = {'strip': lambda t: t.stripped, 'endswith': lambda t, e: True, 'replace': lambda t, a, b: t}
    st = RecordType('Statement', {'_cls': IntK, 'obj': text})
    st.classes = (str, m.Primitive, m.SpiceComponent, m.SpiceCircuitInstance, m.SpiceCircuit, m.ControlEditor, m.IncludeFile)
    net = vc.seq('netlist', st)
    ed = f.SpiceFile.__new__(f.SpiceFile)
    log, ed.netlist = [], []
    vc.rep(ed, netlist=net)
    vc.assume(Forall(0, vc.len(net), lambda i: And(at(net, i)._cls >= 0, at(net, i)._cls < len(st.classes))))
    vc.stub(f.SpiceFile.begin_update, 'begin_update: editing is allowed and recorded', lambda self: up.UpdatePermission.Inform)
    vc.stub(f.SpiceFile.end_update, 'end_update: the edit is recorded', lambda self, *a: log.append(a))
    vc.stub(m.get_line_command, 'get_line_command: the command a statement starts with', lambda x: x.cmd if x._rt is text else x.obj.cmd)
    return m, f, ed, net, st, text, log


@prove('C08', 'new statements go before the first .BACKANNO, .END or .ENDS, or last when there is none', [f'{S}:SpiceCircuit._end_of_circuit'],
       internal=True, conc=0)
def end_of_circuit(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, f, ed, net, st, text, log = circuit(vc)
    n = vc.len(net)
    prim = lambda e: And(e._cls != 0, e._cls != 2, e._cls != 3, e._cls != 4)
    end = lambda e: And(prim(e), Or([e.obj.cmd == c for c in ('.BACKANNO', '.END', '.ENDS')]))
    vc.loop(f'{S}:SpiceCircuit._end_of_circuit#0', lambda L, i: [Forall(0, i, lambda j: Not(end(at(net, j))))])
    r = ed._end_of_circuit()
    vc.check('a position of the circuit', And(r >= 0, r <= n))
    vc.check('nothing before it ends the circuit', Forall(0, r, lambda j: Not(end(at(net, j)))))
    vc.check('it is where the circuit ends', Or(r == n, end(at(net, r))))


@prove('C08', 'removing a directive removes the first statement with that text and no other, and tells whether there was one',
       [f'{F}:SpiceFile.remove_instruction', f'{S}:SpiceCircuit.remove_instruction'], internal=True, conc=0)
def remove_instruction(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, f, ed, net, st, text, log = circuit(vc)
    cls = vc.choice('circuit', ['main', 'sub'])
    if cls == 'sub':
        ed.__class__ = m.SpiceCircuit
        vc.stub(m.SpiceCircuit.begin_update, 'begin_update: editing is allowed', lambda self: vc.mod('editor.updates').UpdatePermission.Inform)
        vc.stub(m.SpiceCircuit.end_update, 'end_update: the edit is recorded', lambda self, *a: log.append(a))
    old, n = net.copy(), vc.len(net)
    gone = SRef(text, z3.Int('instruction'))
    hit = lambda e: And(Or([e._cls == i for i, c in enumerate(st.classes) if issubclass(c, m.Primitive)]), e.obj.stripped == gone.stripped)
    k = vc.int('first', 0, n)  # the first statement with that text, or n: defined by what it is
    vc.assume(Forall(0, k, lambda j: Not(hit(at(old, j)))), Or(k == n, hit(at(old, k))))
    vc.loop((f'{S}:SpiceCircuit' if cls == 'sub' else f'{F}:SpiceFile') + '.remove_instruction#0',
            lambda L, i: [L.i == i, vc.len(net) == n, Forall(0, i, lambda j: Not(hit(at(old, j)))), Forall(0, n, lambda j: at(net, j) == at(old, j))])
    r = ed.remove_instruction(gone)
    cut = vc.len(ed.netlist)
    if r is True:
        vc.check('one statement less', cut == n - 1)
        vc.check('there was a statement with that text', k < n)
        vc.check('the statements before it stay', Forall(0, k, lambda j: at(ed.netlist, j) == at(old, j)))
        vc.check('the ones after it stay, in order', Forall(k, cut, lambda j: at(ed.netlist, j) == at(old, j + 1)))
        vc.check('recorded once', len(log) == 1)
    else:
        vc.check('False', r is False)
        vc.check('no statement has that text', Forall(0, n, lambda j: Not(hit(at(old, j)))))
        vc.check('the circuit is as it was', And(cut == n, Forall(0, n, lambda j: at(ed.netlist, j) == at(old, j))))
        vc.check('nothing recorded', len(log) == 0)


def adding(vc):
    m, f, ed, net, st, text, log = circuit(vc)
    n = vc.len(net)
    isa = lambda e, cls: Or([e._cls == i for i, c in enumerate(st.classes) if issubclass(c, cls)])
    new = SRef(text, z3.Int('instruction'))
    stmt = SRef(st, z3.Int('statement'))
    E = core.eng()
    vc.assume(Forall(0, n, lambda j: at(net, j) != stmt))

    stmt.obj, stmt._cls = new, 1

    def make(*a, **k):
        vc.check('the statement has the text given', (k['obj'] if 'obj' in k else a[0]) == new)
        return stmt
    vc.stub(m.Primitive, 'Primitive(netlist, obj): a statement with that text', make)
    vc.stub(m.SpiceCircuit.class_for_instruction, 'class_for_instruction: a statement with that text', lambda self, *a: make(*a))
    vc.stub(m._is_unique_instruction, '_is_unique_instruction: the command is an analysis',
            lambda x: Or([(x if isinstance(x, core.SStr) else x.cmd) == c for c in UNIQUE]))
    return m, f, ed, net, st, text, log, n, isa, new, stmt


@prove('C08', 'a directive that is added is there once: before the end when it is new, and nothing else moves', [f'{F}:SpiceFile.add_instruction'],
       internal=True, conc=0)
def add_new(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, f, ed, net, st, text, log, n, isa, new, stmt = adding(vc)
    vc.assume(Not(Or([new.cmd == c for c in UNIQUE])))
    old = net.copy()
    end = vc.int('end', 0, n)
    vc.stub(m.SpiceCircuit._end_of_circuit, '_end_of_circuit: where statements are inserted', lambda self: end)
    hit = lambda e: And(isa(e, m.Primitive), e.obj.stripped == new.stripped)
    first = vc.int('first', 0, n)  # the first statement with that text, or n: defined by what it is
    vc.assume(Forall(0, first, lambda j: Not(hit(at(old, j)))), Or(first == n, hit(at(old, first))))
    vc.loop(f'{F}:SpiceFile.add_instruction#1', lambda L, i: [Forall(0, i, lambda j: Not(hit(at(old, j))))])
    _, exc = vc.raises(lambda: ed.add_instruction(new), RuntimeError)
    cut = vc.len(ed.netlist)
    if exc is not None:
        vc.check('only parameters are refused', new.cmd == '.PARAM')
        vc.check('nothing is added when refused', cut == n)
        return
    vc.check('parameters are refused', new.cmd != '.PARAM')
    if bool(cut == n + 1):
        vc.check('it was not there', Forall(0, n, lambda j: Not(hit(at(old, j)))))
        vc.check('it is where statements are inserted', at(ed.netlist, end) == stmt)
        vc.check('the statements before it stay', Forall(0, end, lambda j: at(ed.netlist, j) == at(old, j)))
        vc.check('the ones after it stay, in order', Forall(end, n, lambda j: at(ed.netlist, j + 1) == at(old, j)))
        vc.check('recorded once', len(log) == 1)
    else:
        vc.check('nothing is added', And(cut == n, Forall(0, n, lambda j: at(ed.netlist, j) == at(old, j))))
        vc.check('it was there', first < n)
        vc.check('nothing recorded', len(log) == 0)


@prove('C08', 'an analysis that is added replaces the first analysis, the other analyses go, and the other statements stay in order',
       [f'{F}:SpiceFile.add_instruction'], internal=True, conc=0)
def add_unique(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, f, ed, net, st, text, log, n, isa, new, stmt = adding(vc)
    vc.assume(Or([new.cmd == c for c in UNIQUE]))
    old = net.copy()
    E = core.eng()
    unique = lambda e: And(isa(e, m.Primitive), Or([e.obj.cmd == c for c in UNIQUE]))
    first = vc.int('first', 0, n)
    vc.assume(Forall(0, first, lambda j: Not(unique(at(old, j)))), Or(first == n, unique(at(old, first))))
    keep = lambda j: Or(j == first, Not(unique(at(old, j))))
    # rank(j): how many of the first j statements stay (primitive recursion over j)
    rank_ = z3.Function('rank', z3.IntSort(), z3.IntSort())
    rank = lambda j: core.wrap(rank_(to_z3(j)))
    vc.assume(rank(0) == 0, Forall(0, n, lambda j: rank(j + 1) == rank(j) + core.wrap(z3.If(to_z3(keep(j)), z3.IntVal(1), z3.IntVal(0)))))
    # lemma (by induction over j, from the definition): rank grows by at most one per statement, and does not decrease
    vc.assume(Forall(0, n + 1, lambda j: And(rank(j) >= 0, rank(j) <= j)))
    vc.assume(Forall(0, n + 1, lambda j: Forall(0, j, lambda i: And(rank(i) <= rank(j), Implies(keep(i), rank(i) < rank(j))))))
    want = lambda j: core.wrap(z3.If(to_z3(j == first), stmt._id, at(old, j)._id))
    end = vc.int('end', 0, n)
    vc.stub(m.SpiceCircuit._end_of_circuit, '_end_of_circuit: where statements are inserted', lambda self: end)
    net = ed.netlist

    def inv(L, i=None):
        p = L.i + (n - vc.len(net))  # statements of the original circuit seen so far
        return [And(L.i >= 0, L.i <= vc.len(net), vc.len(net) <= n), L.i == rank(p), Iff(L.replaced, first < p),
                Forall(0, p, lambda j: Implies(keep(j), core.wrap(at(net, rank(j))._id) == want(j))),
                Forall(L.i, vc.len(net), lambda j: at(net, j) == at(old, j + (n - vc.len(net)))),
                ]
    def havoc(E, L):
        net.arr, net.n = (q := E.fresh_seq(st, 'netlist')).arr, q.n
        log[:] = []
        return [net, log]
    vc.loop(f'{F}:SpiceFile.add_instruction#0', inv, havoc=havoc, variant=lambda L, i: vc.len(net) - L.i)
    vc.loop(f'{F}:SpiceFile.add_instruction#1', lambda L, i: [])
    ed.add_instruction(new)
    if bool(first < n):
        vc.check('as many statements as stay', vc.len(ed.netlist) == rank(n))
        vc.check('the analysis is in the place of the first one and the others stay in order',
                 Forall(0, n, lambda j: Implies(keep(j), core.wrap(at(ed.netlist, rank(j))._id) == want(j))))


# --- the same inside a sub circuit, and removal by pattern -------------------------------------------------------------

@prove('C08', 'a directive that is added to a sub circuit is there once: before its end when it is new, and nothing else moves',
       [f'{S}:SpiceCircuit.add_instruction'], internal=True, conc=0)
def add_inside(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, f, ed, net, st, text, log, n, isa, new, stmt = adding(vc)
    ed.__class__ = m.SpiceCircuit
    vc.assume(n > 0)                # it ends with .ENDS
    old = net.copy()
    hit = lambda e: And(isa(e, m.Primitive), e.obj.stripped == new.stripped)
    first = vc.int('first', 0, n)  # the first statement with that text, or n: defined by what it is
    vc.assume(Forall(0, first, lambda j: Not(hit(at(old, j)))), Or(first == n, hit(at(old, first))))
    vc.loop(f'{S}:SpiceCircuit.add_instruction#0', lambda L, i: [Forall(0, i, lambda j: Not(hit(at(old, j))))])
    _, exc = vc.raises(lambda: ed.add_instruction(new), RuntimeError)
    cut = vc.len(ed.netlist)
    if exc is not None:
        vc.check('only parameters and analyses are refused', Or(new.cmd == '.PARAM', Or([new.cmd == c for c in UNIQUE])))
        vc.check('nothing is added when refused', cut == n)
        return
    vc.check('parameters and analyses are refused', And(new.cmd != '.PARAM', Not(Or([new.cmd == c for c in UNIQUE]))))
    if bool(cut == n + 1):
        vc.check('it was not there', Forall(0, n, lambda j: Not(hit(at(old, j)))))
        vc.check('it is before the end', at(ed.netlist, n - 1) == stmt)
        vc.check('the statements before it stay', Forall(0, n - 1, lambda j: at(ed.netlist, j) == at(old, j)))
        vc.check('the end stays the end', at(ed.netlist, n) == at(old, n - 1))
    else:
        vc.check('nothing is added', And(cut == n, Forall(0, n, lambda j: at(ed.netlist, j) == at(old, j))))
        vc.check('it was there', first < n)


@prove('C08', 'removing by a pattern removes exactly the statements that match it, in the main circuit and in a sub circuit, and tells whether there were any',
       [f'{F}:SpiceFile.remove_Xinstruction', f'{S}:SpiceCircuit.remove_Xinstruction'], internal=True, conc=0)
def remove_matching(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, f, ed, net, st, text, log = circuit(vc)
    cls = vc.choice('circuit', ['main', 'sub'])
    if cls == 'sub':
        ed.__class__ = m.SpiceCircuit
        vc.stub(m.SpiceCircuit.begin_update, 'begin_update: editing is allowed', lambda self: vc.mod('editor.updates').UpdatePermission.Inform)
        vc.stub(m.SpiceCircuit.end_update, 'end_update: the edit is recorded', lambda self, *a: log.append(a))
    text.fields['matches'] = BoolK
    st.fields['matches'] = BoolK
    asked = []

    class Pattern:
        def match(self, t):
            return type('M', (), {'string': t})() if bool(t.matches) else None

    def compiled(p, flags=0):
        asked.append((p, flags))
        return Pattern()
    vc.stub(re.compile, 're.compile: a pattern', compiled)
    n = vc.len(net)
    old = net.copy()
    prim = lambda e: Or([e._cls == i for i, c in enumerate(st.classes) if issubclass(c, m.Primitive)])
    hit = lambda e: Or(And(prim(e), e.obj.matches), And(e._cls == 0, e.matches))
    st.methods['strip'] = lambda s: s
    keep = lambda j: Not(hit(at(old, j)))
    rank_ = z3.Function('rank', z3.IntSort(), z3.IntSort())
    rank = lambda j: core.wrap(rank_(to_z3(j)))
    vc.assume(rank(0) == 0, Forall(0, n, lambda j: rank(j + 1) == rank(j) + core.wrap(z3.If(to_z3(keep(j)), z3.IntVal(1), z3.IntVal(0)))))
    # lemma (by induction over j, from the definition): rank grows by at most one per statement, and past each one that stays
    vc.assume(Forall(0, n + 1, lambda j: And(rank(j) >= 0, rank(j) <= j)))
    vc.assume(Forall(0, n + 1, lambda j: Forall(0, j, lambda i: And(rank(i) <= rank(j), Implies(keep(i), rank(i) < rank(j))))))
    net = ed.netlist

    def inv(L, i=None):
        p = L.i + (n - vc.len(net))
        return [And(L.i >= 0, L.i <= vc.len(net), vc.len(net) <= n), L.i == rank(p), Iff(L.instr_removed, vc.len(net) < n),
                Forall(0, p, lambda j: Implies(keep(j), at(net, rank(j)) == at(old, j))),
                Forall(L.i, vc.len(net), lambda j: at(net, j) == at(old, j + (n - vc.len(net))))]

    def havoc(E, L):
        net.arr, net.n = (q := E.fresh_seq(st, 'netlist')).arr, q.n
        log[:] = []
        return [net, log]
    name = f'{S}:SpiceCircuit' if cls == 'sub' else f'{F}:SpiceFile'
    vc.loop(name + '.remove_Xinstruction#0', inv, havoc=havoc, variant=lambda L, i: vc.len(net) - L.i)
    r = ed.remove_Xinstruction('PATTERN')
    vc.check('the pattern asked for, whatever the letter case', asked == [('PATTERN', re.IGNORECASE)])
    vc.check('as many statements as stay', vc.len(ed.netlist) == rank(n))
    vc.check('those that do not match stay, in order', Forall(0, n, lambda j: Implies(keep(j), at(ed.netlist, rank(j)) == at(old, j))))
    vc.check('tells whether any was removed', And(isinstance(r, bool), r == (True if bool(rank(n) < n) else False)))


# --- the texts of a schematic, one at a time ------------------------------------------------------------------------
# A text of a schematic holds one or more directives.  The loops over the texts are cut: each of them is treated on its own, whatever the
# others are, and the texts that the loop is not at are not within its reach.

LINES = ['.tran 1m', '.ac dec 10 1 1k', '.meas a max V(1)', '.step param p 1 2 1\\n+ 1', '']


class _Directives(core.SymBase):
    """the texts of an LTspice schematic: the one the loop is at, and what was added at the end"""

    def __init__(self, vc, cur):
        self.vc, self.n, self.i, self.cur, self.removed, self.added = vc, vc.int('texts', 0), None, cur, False, []

    def len_(self):
        if self.added:
            raise core.Unsupported('the number of texts after one was added')
        return self.n - 1 if self.removed else self.n

    def __getitem__(self, k):
        if self.removed or self.i is None:
            raise core.Unsupported('another text')
        self.vc.check('the text that is looked at is the one of this step', k == self.i)
        return self.cur

    def __delitem__(self, k):
        if self.removed or self.i is None:
            raise core.Unsupported('another text')
        self.vc.check('the text that is removed is the one of this step', k == self.i)
        self.removed = True

    def append(self, t):
        self.added.append(t)


class _AscTexts:
    """the loop over the texts of an LTspice schematic"""

    def __init__(self, vc, fn, n=1):
        self.vc = vc
        AE, T, up = vc.mod(A), vc.mod('editor.base_schematic'), vc.mod('editor.updates')
        self.T, self.log, self.comment = T, [], vc.choice('a comment', [False, True])
        self.text0 = None
        self.ed = AE.AscEditor.__new__(AE.AscEditor)
        self.cur = T.Text(coord=T.Point(0, 0), text='', size=2, type=T.TextTypeEnum.COMMENT if self.comment else T.TextTypeEnum.DIRECTIVE)
        self.ed.directives = self.dirs = _Directives(vc, self.cur)
        vc.stub(AE.AscEditor.begin_update, 'begin_update: editing is allowed', lambda s: up.UpdatePermission.Inform)
        vc.stub(AE.AscEditor.end_update, 'end_update: the edit is recorded', lambda s, *a: self.log.append(a))
        vc.stub(AE.AscEditor._get_text_space, '_get_text_space: a free place', lambda s: (16, 32))
        self.ident = f'{A}:AscEditor.{fn}#0'

    def put(self, text):
        self.text0 = self.cur.text = text

    def loop(self, after, vals=None):
        d, st = self.dirs, self

        def inv(L, i=None):
            if d.i is None:
                return {'starts at the first': L.i == 0}
            if st.fresh:
                st.fresh = False
                return [L.i == d.i, d.i >= 0, d.i <= d.n]
            r = after(L)
            r['goes on with the next'] = L.i == (d.i if d.removed else d.i + 1)
            return r

        def havoc(E, L):
            d.i, st.fresh = self.vc.int('at'), True
            self.log[:] = []
            return [d, self, self.log, self.cur]
        self.vc.loop(self.ident, inv, havoc=havoc, havoc_vals=vals or {}, variant=lambda L, i: d.len_() - L.i)

    def read(self):
        return None if self.dirs.removed else self.cur.text

    def untouched(self):
        return not self.dirs.removed and self.cur.text == self.text0

    def added(self):
        return [(t.text, t.type == self.T.TextTypeEnum.DIRECTIVE) for t in self.dirs.added]


class _QschTexts:
    """the loop over the texts of a QSPICE schematic"""

    def __init__(self, vc, fn):
        self.vc = vc
        QE, up = vc.mod(Q), vc.mod('editor.updates')
        self.QE, self.log, self.comment = QE, [], vc.choice('a comment', [False, True])
        self.ed = QE.QschEditor.__new__(QE.QschEditor)
        self.qualifier = vc.choice('qualifier', [QE.QSCH_TEXT_INSTR_QUALIFIER, ''])
        self.cur, _ = QE.QschTag.parse('«text (0,0) 1 7 %d 0x1000000 -1 -1 "x"»' % (1 if self.comment else 0))
        self.removed, self.extra = [], []
        self.rows = Rows(vc, 'texts', lambda n: self.cur)
        sheet = self.ed.schematic = QE.QschTag('schematic')
        me = self

        class Items(list):
            def remove(self, t):
                vc.check('the text that is removed is the one of this step', t is me.cur)
                me.removed.append(t)

            def append(self, t):
                me.extra.append(t)

            def _no(self, *a, **k):
                raise core.Unsupported('the items of the schematic')
            __getitem__ = __setitem__ = __delitem__ = insert = pop = extend = clear = __iter__ = __len__ = index = _no
        sheet.items = self.items = Items()
        vc.stub(QE.QschTag.get_items, 'get_items: the texts of the schematic', lambda s, name: self.texts(s, name))
        vc.stub(QE.QschEditor.begin_update, 'begin_update: editing is allowed', lambda s: up.UpdatePermission.Inform)
        vc.stub(QE.QschEditor.end_update, 'end_update: the edit is recorded', lambda s, *a: self.log.append(a))
        vc.stub(QE.QschEditor._get_text_space, '_get_text_space: a free place', lambda s: (16, 32))
        self.at, self.ident = None, f'{Q}:QschEditor.{fn}#0'

    def texts(self, s, name):
        if name != 'text' or s is not self.ed.schematic:
            raise core.Unsupported('other items')
        return self.rows

    def put(self, text):
        self.cur.set_attr(self.QE.QSCH_TEXT_STR_ATTR, self.qualifier + text)
        self.text0 = text

    def loop(self, after, vals=None):
        def inv(L, i):
            if L.seq is not self.rows:
                raise core.Unsupported('a loop over something else')
            if self.at is None:
                return []
            if self.at == 'next':
                self.at = i
                return []
            return after(L)

        def havoc(E, L):
            self.at = 'next'
            self.log[:] = []
            return [self, self.log, self.removed, self.extra, self.cur, self.cur.tokens, self.items]
        self.vc.loop(self.ident, inv, havoc=havoc, havoc_vals=vals or {})

    def read(self):
        t = self.cur.get_attr(self.QE.QSCH_TEXT_STR_ATTR)
        return None if self.removed else t.removeprefix(self.QE.QSCH_TEXT_INSTR_QUALIFIER)

    def untouched(self):
        return not self.removed and self.cur.get_attr(self.QE.QSCH_TEXT_STR_ATTR) == self.qualifier + self.text0

    def added(self):
        q = self.QE
        return [(t.get_attr(q.QSCH_TEXT_STR_ATTR).removeprefix(q.QSCH_TEXT_INSTR_QUALIFIER),
                 t.tag == 'text' and t.get_attr(q.QSCH_TEXT_STR_ATTR).startswith(q.QSCH_TEXT_INSTR_QUALIFIER) and t.get_attr(q.QSCH_TEXT_COMMENT) != 1)
                for t in self.extra]


def _records(w, log):
    up = w.vc.mod('editor.updates').UpdateType
    names = {up.DeleteInstruction: '-', up.AddInstruction: '+'}
    return [(names.get(a[2], '?'), a[1].strip()) for a in log if a[0] == 'INSTRUCTION'] + [('?', a[0]) for a in log if a[0] != 'INSTRUCTION']


def sheet_matching(vc, Texts):
    """texts of one to three directives, each of which matches or not"""
    if not vc.symbolic:
        return vc.assume(False)
    w = Texts(vc, 'remove_Xinstruction')
    k = vc.choice('directives of the text', [1, 2, 3])
    lines = [f"{vc.str(f'directive {j}')}" + (vc.choice('its continuation', ['', r'\n+ x']) if j == 0 else '') for j in range(k)]
    match = {l: vc.choice(f'directive {j} matches', [False, True]) for j, l in enumerate(lines)}
    w.put(r'\n'.join(lines))
    asked = []

    class Pattern:
        def match(self, t):
            if t not in match:
                raise core.Unsupported('the pattern is asked about another text')
            return object() if match[t] else None

    def compiled(p, flags=0):
        asked.append((p, flags))
        return Pattern()
    vc.stub(re.compile, 're.compile: a pattern', compiled)
    st = type('State', (), {})()
    st.before = vc.choice('one was removed before', [False, True])
    gone = [] if w.comment else [l for l in lines if match[l]]

    def after(L):
        keep = [l for l in lines if l not in gone]
        return {'a comment stays': not w.comment or w.untouched(),
                'exactly the directives that match are removed': w.untouched() if not gone else w.read() == (r'\n'.join(keep) if keep else None),
                'each one that is removed is recorded': _records(w, w.log) == [('-', l) for l in gone],
                'whether any was removed': L.instr_removed is (st.before or bool(gone))}
    w.loop(after, {'instr_removed': lambda E, old, L: st.before})
    r = w.ed.remove_Xinstruction('PATTERN')
    vc.check('the pattern asked for, whatever the letter case', asked == [('PATTERN', re.IGNORECASE)])
    vc.check('nothing is added', w.added() == [])
    vc.check('tells whether any was removed', r is st.before)


def sheet_add(vc, Texts):
    """texts of one to three directives of a few kinds"""
    if not vc.symbolic:
        return vc.assume(False)
    w = Texts(vc, 'add_instruction')
    new = vc.choice('instruction', ['.tran 0 2m 1m', '.AC lin 1 1 2\n', '.save V(x)', '.param a=1', '.ic V(1)=0'])
    unique = new[:3] in ('.tr', '.AC')
    k = vc.choice('directives of the text', [1, 2, 3]) if unique else 1
    lines = [vc.choice(f'directive {j}', LINES) for j in range(k)] if unique else LINES[:1]
    w.put(r'\n'.join(lines))
    st = type('State', (), {})()
    st.before = vc.choice('one was replaced before', [False, True]) if unique else False
    out, log, rep = [], [], st.before
    for l in lines:
        if l[:3] in ('.tr', '.ac'):
            log.append(('-', l))
            if rep:
                continue
            log.append(('+', new.strip()))
            l, rep = new.strip(), True
        out.append(l)
    if w.comment:
        out, log, rep = lines, [], st.before

    def after(L):
        return {'a comment stays': not w.comment or w.untouched(),
                'the first analysis is replaced, the others go, and the other directives stay': w.untouched() if not log else
                w.read() == (r'\n'.join(out) if out else None),
                'each change is recorded': _records(w, w.log) == log,
                'whether one was replaced': L.replaced is rep}
    w.loop(after, {'replaced': lambda E, old, L: st.before})
    _, e = vc.raises(lambda: w.ed.add_instruction(new), RuntimeError)
    if new.startswith('.param'):
        vc.check('parameters are refused', And(e is not None, w.added() == [], w.log == []))
        return
    vc.check('accepted', e is None)
    if st.before:
        vc.check('nothing is added when one was replaced', And(w.added() == [], _records(w, w.log) == []))
    else:
        vc.check('added once, as a directive', w.added() == [(new.strip(), True)])
        vc.check('recorded once', _records(w, w.log) == [('+', new.strip())])


def sheet_remove(vc, Texts):
    """texts of one to three directives of a few kinds"""
    if not vc.symbolic:
        return vc.assume(False)
    w = Texts(vc, 'remove_instruction')
    ins = vc.choice('instruction', ['.tran 1m', '.meas a', '.save V(x)'])
    k = vc.choice('directives of the text', [1, 2, 3])
    lines = [vc.choice(f'directive {j}', LINES) for j in range(k)]
    w.put(r'\n'.join(lines))
    j = next((j for j in range(k) if ins in lines[j]), None)
    hit = not w.comment and j is not None

    def after(L):
        return {'a text without it stays': w.untouched(), 'the first text with it is the last looked at': not hit, 'nothing is recorded': w.log == []}
    w.loop(after)
    r = w.ed.remove_instruction(ins)
    vc.check('tells whether it was there', isinstance(r, bool))
    vc.check('nothing is added', w.added() == [])
    if r:
        keep = lines[:j] + lines[j + 1:] if hit else None
        vc.check('what is removed was there', hit)
        vc.check('only the first directive with it is removed', hit and w.read() == (r'\n'.join(keep) if keep else None))
        vc.check('recorded once', hit and _records(w, w.log) == [('-', lines[j])])
    else:
        vc.check('nothing changes when it is not there', And(w.untouched(), w.log == []))


for _T, _m, _e, _n in ((_AscTexts, A, 'AscEditor', 'LTspice'), (_QschTexts, Q, 'QschEditor', 'QSPICE')):
    prove('C08', f'{_n} schematic: removing by a pattern removes exactly the directives that match it, in any number of texts', [f'{_m}:{_e}.remove_Xinstruction'],
          internal=True, conc=0)(lambda vc, T=_T: sheet_matching(vc, T))
    prove('C08', f'{_n} schematic: a directive that is added is there once, an analysis in the place of the first one', [f'{_m}:{_e}.add_instruction'],
          internal=True, conc=0)(lambda vc, T=_T: sheet_add(vc, T))
    prove('C08', f'{_n} schematic: removing a directive removes the first one with that text and no other', [f'{_m}:{_e}.remove_instruction'],
          internal=True, conc=0)(lambda vc, T=_T: sheet_remove(vc, T))


# ------------------------------------------------------------------------------------------------
# The parameters of a schematic: the first text that defines the parameter is found, only its value is changed,
# and one directive is added when no text defines it.
# text before the value, value, text after it, of the parameter a; None when the text doesn't define it
DEFS = [('.param a=', '1k', ''), ('.PARAM b=2 A = ', '{x+1}', ' ba=3'), (r'.tran 1m\n.param a=', '2*(3+b)', r'\n.meas a=7'),
        (r'.param b=1\n+ a=', '4.7u', ' c=5'), ('.param aa=1 b={a} a=', '-3', r'\n.param c=1'), ('.tran 1m', None, ''),
        ('.param ab=1 ba={a}', None, ''), (r'.meas a=1\n.step param a 1 2 1', None, ''), ('; a=1', None, '')]


class _AscParams(_AscTexts):
    loops_over = 'directives'

    def __init__(self, vc, fn):
        super().__init__(vc, fn)
        me = self

        class Texts(Rows):
            def append(self, t):
                me.extra.append(t)
        self.extra = []
        self.rows = self.ed.directives = Texts(vc, 'texts', lambda n: self.cur)
        self.fn, self.mod = fn, vc.mod(A)
        self.cls = self.mod.AscEditor

    def ident_of(self, fn):
        return f'{A}:AscEditor.{fn}#0'

    def read(self):
        return self.cur.text

    def added(self):
        return [(t.text, t.type == self.T.TextTypeEnum.DIRECTIVE) for t in self.extra]


class _QschParams(_QschTexts):
    def __init__(self, vc, fn):
        super().__init__(vc, fn)
        self.mod, self.cls = self.QE, self.QE.QschEditor

    def ident_of(self, fn):
        return f'{Q}:QschEditor.{fn}#0'


def _params(vc, Texts, fn):
    w = Texts(vc, fn)
    pre, val, post = vc.choice('text', DEFS)
    if w.comment:
        val, pre = None, pre + (val or '')
    w.put(pre + (val or '') + post)
    w.place = 'before'

    def inv(L, i):
        if L.seq is not w.rows:
            raise core.Unsupported('a loop over something else')
        if w.place == 'before':
            return []
        if w.place == 'start':
            w.place = 'in'
            return []
        return {'a text is passed only when it does not define the parameter': val is None}

    def havoc(E, L):
        w.place = 'start'
        return [w] + ([w.items] if hasattr(w, 'items') else [])
    vc.loop(w.ident_of('_get_param_named'), inv, havoc=havoc)
    return w, pre, val, post


def sheet_param_get(vc, Texts):
    if not vc.symbolic:
        return vc.assume(False)
    w, pre, val, post = _params(vc, Texts, 'get_parameter')
    got, e = vc.raises(lambda: w.ed.get_parameter(vc.choice('name', ['a', 'A'])), vc.mod('editor.editor_errors').ParameterNotFoundError)
    vc.check('nothing is changed', And(w.untouched(), w.added() == [], w.log == []))
    if e is None:
        vc.check('what is read is the value of a text that defines it', val is not None and got == val)


def sheet_param_set(vc, Texts):
    if not vc.symbolic:
        return vc.assume(False)
    w, pre, val, post = _params(vc, Texts, 'set_parameter')
    up = vc.mod('editor.updates')
    name, kind = vc.choice('name', ['a', 'A']), vc.choice('value', ['text', 'number'])
    new = '{z*2}' if kind == 'text' else vc.real('new')
    asked = []

    def formatted(x, *a, **k):
        if a or k:
            raise core.Unsupported('a format of another kind')
        asked.append(x)
        return '47.25f'
    vc.stub(w.mod.format_eng, 'format_eng: the text of a number (C05)', formatted)
    perm = vc.choice('permission', [up.UpdatePermission.Inform, up.UpdatePermission.Deny])
    vc.stub(w.cls.begin_update, 'begin_update: whether editing is allowed', lambda s: perm)
    _, e = vc.raises(lambda: w.ed.set_parameter(name, new), PermissionError)
    if perm == up.UpdatePermission.Deny:
        vc.check('nothing changes when editing is denied', And(e is not None, w.untouched(), w.added() == [], w.log == []))
        return
    vc.check('accepted', e is None)
    text = new if kind == 'text' else '47.25f'
    vc.check('a number is written as it is formatted', And(*(x == new for x in asked)) if kind == 'number' and asked else kind == 'text')
    vc.check('one edit is recorded, of that parameter', len(w.log) == 1 and w.log[0][0] == name)
    v = w.log[0][1]
    vc.check('with the value that was set', v is new or isinstance(v, str) and v == text)
    if w.log[0][2] == up.UpdateType.UpdateParameter:
        vc.check('a parameter that is changed was there', val is not None)
        vc.check('only its value changes', val is not None and And(w.read() == pre + text + post, w.added() == []))
    else:
        vc.check('recorded as added', w.log[0][2] == up.UpdateType.AddParameter)
        vc.check('one directive is added when no text defines it, and no other text changes',
                 And(w.untouched(), w.added() == [(f'.param {name}={text}', True)]))


# the text of a directive and the parameters that it defines
LISTED = [('.param a=1k', ['A']), (r'.PARAM b=2 A1 = {x+1} ; c=5', ['A1', 'B']), (r'.tran 1m\n.param z=1\n+ y={z*2}', ['Y', 'Z']),
          (r'.meas q=1\n.step param q 1 2 1', []), ('* .param c=1', []), ('.tran 1m', []), (r'.param b=1\n.param b=2', ['B', 'B']), ('', [])]


class _Names(core.SymBase):
    """the names so far: only what this step adds is seen"""

    def __init__(self):
        self.new = []

    def __iter__(self):
        return iter(['_', '$'])

    def append(self, x):
        self.new.append(x)

    def extend(self, xs):
        self.new.extend(xs)


def sheet_param_names(vc, Texts):
    if not vc.symbolic:
        return vc.assume(False)
    w = Texts(vc, 'get_all_parameter_names')
    text, names = vc.choice('text', LISTED)
    w.put(text)
    state = {'at': None, 'names': None}

    def inv(L, i):
        if L.seq is not w.rows:
            raise core.Unsupported('a loop over something else')
        if isinstance(L.param_names, list):
            return {'there are no names before the first text': L.param_names == []}
        if state['at'] == 'start':
            state['at'] = 'in'
            return []
        return {'a text adds the names that it defines, in upper case, and a comment none': sorted(L.param_names.new) == ([] if w.comment else names)}

    def havoc(E, L):
        state['at'] = 'start'
        return [w] + ([w.items] if hasattr(w, 'items') else [])

    def fresh(E, old, L):
        state['names'] = _Names()
        return state['names']
    vc.loop(w.ident_of('get_all_parameter_names'), inv, havoc=havoc, havoc_vals={'param_names': fresh})
    got = w.ed.get_all_parameter_names()
    vc.check('all of them, sorted', got == (['$', '_'] if state['names'] is not None else []))
    vc.check('nothing is changed', And(w.untouched(), w.added() == [], w.log == []))


for _T, _m, _e, _n in ((_AscParams, A, 'AscEditor', 'LTspice'), (_QschParams, Q, 'QschEditor', 'QSPICE')):
    prove('C08', f'{_n} schematic: a parameter that is read is that of the first text that defines it', [f'{_m}:{_e}.get_parameter', f'{_m}:{_e}._get_param_named'],
          internal=True, conc=0)(lambda vc, T=_T: sheet_param_get(vc, T))
    prove('C08', f'{_n} schematic: setting a parameter changes its value only, or adds one directive', [f'{_m}:{_e}.set_parameter', f'{_m}:{_e}._get_param_named'],
          internal=True, conc=0)(lambda vc, T=_T: sheet_param_set(vc, T))
    prove('C08', f'{_n} schematic: the parameters listed are those that the texts define, each as often as it is defined', [f'{_m}:{_e}.get_all_parameter_names'],
          internal=True, conc=0)(lambda vc, T=_T: sheet_param_names(vc, T))

# --- proofs: the parameters of a circuit ------------------------------------------------------------------------------
# The statement that defines a parameter is found in a circuit of any length (an included file, by what its own circuit finds); then only its value
# is changed, for each of the shapes of statement below, whatever the other statements are.
PARAMS = [('.param a=', '1k', '\n'), ('.PARAM b=2 A = ', '{x+1}', ' ba=3 ; a=5\n'), ('.param  aa=1 b={a} a=', '-3', '  c=1\n'),
          ('.param b=1\n+ a=', '4.7u', ' c=5\n'), ('.param a ', '5k', ' b=4\n'), ('.Param ab=1, a=', "'q + 2'", ', c=3\n'), ('.param a=', '2*(3+b)', '\n')]


def command(x):
    """the command of a statement that is not a text"""
    for k, c in ((4, '.SUBCKT'), (5, '.CONTROL'), (6, '.INCLUDE')):
        if bool(x._cls == k):
            return c
    return x.obj.cmd


class _Inside(core.Kind):
    """the circuit of an included file: none was found, or one that is known by what it finds"""

    def __init__(self, m):
        super().__init__('inside', z3.IntSort())
        found = self.found = (z3.Function('inside_line', z3.IntSort(), z3.IntSort()), type('M', (), {})(), type('N', (), {})())

        class Sub(m.SpiceCircuit):
            def __init__(self, e):
                self.e = e

            def __bool__(self):
                return True

            def _get_parameter_named(self, name):
                if name.upper() != 'PAR':
                    raise core.Unsupported('another parameter')
                if bool(core.wrap(self.e % 2 == 0)):
                    return core.wrap(found[0](self.e)), found[1], found[2]
                return -1, None, None
        self.Sub = Sub

    def wrap(self, e):
        return None if bool(core.wrap(e < 0)) else self.Sub(e)

    def unwrap(self, v):
        return z3.IntVal(-1) if v is None else v.e


@prove('C08', 'the statement that defines a parameter is the first one, also in included files, and there is none only when no statement defines it',
       [f'{S}:SpiceCircuit._get_parameter_named'], internal=True, conc=0)
def param_found(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, f, ed, net, st, text, log = circuit(vc)
    n = vc.len(net)
    vc.assume(Forall(0, n, lambda j: Implies(at(net, j)._cls == 5, at(net, j).obj.cmd == '.CONTROL')))      # what makes it a control section
    inc = _Inside(m)
    st.fields['editor'] = inc
    st.fields['own'] = IntK
    text.fields['defines'] = BoolK

    class Match:
        def __init__(self, name, line):
            self.name, self.line = name, line

        def group(self, k):
            if k != 'name':
                raise core.Unsupported('another group')
            return self.name

    def found(line):
        t = line if line._rt is text else line.obj
        return [Match('other', t)] + ([Match('Par', t)] if bool(t.defines) else []) + [Match('parity', t)]
    vc.stub(m.find_parameters, 'find_parameters: the parameters defined in a text', found)
    vc.stub(m.get_line_command, 'get_line_command: the command a statement starts with',
            lambda x: x.cmd if x._rt is text else command(x))
    inside = lambda e: And(e._cls == 6, core.wrap(z3.And((k := z3.Select(core.eng().heap(st, 'editor'), e._id)) >= 0, k % 2 == 0)))
    own = lambda e: And(Not(Or([e._cls == k for k in (4, 5, 6)])), e.obj.cmd == '.PARAM', e.obj.defines)
    hit = lambda e: Or(inside(e), own(e))
    vc.loop(f'{S}:SpiceCircuit._get_parameter_named#0', lambda L, i=None: [And(L.line_no >= 0, L.line_no <= n), Forall(0, L.line_no, lambda j: Not(hit(at(net, j))))],
            variant=lambda L, i=None: n - L.line_no)
    vc.loop(f'{S}:SpiceCircuit._get_parameter_named', lambda L, i: [])
    line, match, netlist = ed._get_parameter_named(vc.choice('name', ['par', 'PAR', 'Par']))
    if match is None:
        vc.check('no statement defines it', Forall(0, n, lambda j: Not(hit(at(net, j)))))
        return
    if match is inc.found[1]:
        k = vc.int('k', 0, n)
        vc.assume(hit(at(net, k)), Forall(0, k, lambda j: Not(hit(at(net, j)))))
        e = z3.Select(core.eng().heap(st, 'editor'), at(net, k)._id)
        vc.check('what the included file finds is given as it is', And(netlist is inc.found[2], line == core.wrap(inc.found[0](e))))
        vc.check('that file is before any other definition', inside(at(net, k)))
        return
    vc.check('a statement of the circuit', And(netlist is ed.netlist, line >= 0, line < n))
    vc.check('no statement before it defines it', Forall(0, line, lambda j: Not(hit(at(net, j)))))
    vc.check('it defines it', own(at(net, line)))
    vc.check('the match is of that parameter, in that statement', And(match.name == 'Par', match.line == at(net, line).obj))


class _OneStatement(core.SymBase):
    """a circuit seen at one statement only: any other is out of reach"""

    def __init__(self, k, statement):
        self.k, self.statement, self.put, self.inserted = k, statement, [], []

    def __getitem__(self, i):
        if self.k is None or not bool(i == self.k):
            raise core.Unsupported('another statement')
        return self.put[-1] if self.put else self.statement

    def __setitem__(self, i, x):
        if self.k is None or not bool(i == self.k):
            raise core.Unsupported('another statement')
        self.put.append(x)

    def insert(self, i, x):
        self.inserted.append((i, x))


def _spice_params(vc):
    m, f, up = vc.mod(S), vc.mod(F), vc.mod('editor.updates')
    cls = vc.choice('circuit', ['main', 'sub'])
    C = {'main': f.SpiceFile, 'sub': m.SpiceCircuit}[cls]
    ed = C.__new__(C)
    where = vc.choice('where', ['nowhere', 'here', 'in a file'])
    k, end = vc.int('k', 0), vc.int('end', 0)
    shape = vc.choice('shape', PARAMS) if where != 'nowhere' else None
    stmt = m.Primitive(obj=''.join(shape)) if shape else None
    one = _OneStatement(k if shape else None, stmt)
    other = _OneStatement(None, None)
    ed.netlist = one if where != 'in a file' else other

    def found(self, name):
        if self is not ed or name.upper() != 'A':
            raise core.Unsupported('another search')
        if shape is None:
            return -1, None, None
        return k, [q for q in m.find_parameters(stmt.obj) if q.group('name').upper() == 'A'][0], one
    vc.stub(m.SpiceCircuit._get_parameter_named, '_get_parameter_named (proved above): the statement that defines a parameter', found)
    vc.stub(m.SpiceCircuit._end_of_circuit, '_end_of_circuit (proved above): where new statements go', lambda self: end)
    log = []
    perm = vc.choice('permission', [up.UpdatePermission.Inform, up.UpdatePermission.Deny, up.UpdatePermission.Initializing])
    vc.stub(C.begin_update, 'begin_update: whether editing is allowed', lambda self: perm)
    vc.stub(C.end_update, 'end_update: the edit is recorded', lambda self, *a: log.append(a))
    vc.stub(C.name, 'name(): the name of the circuit', lambda self: 'the circuit')
    return m, up, ed, where, k, end, shape, stmt, one, other, perm, log


@prove('C08', 'a parameter that is read is that of the statement that defines it, or it is not found', [f'{S}:SpiceCircuit.get_parameter'], internal=True, conc=0)
def spice_param_get(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, up, ed, where, k, end, shape, stmt, one, other, perm, log = _spice_params(vc)
    got, exc = vc.raises(lambda: ed.get_parameter(vc.choice('name', ['a', 'A'])), vc.mod('editor.editor_errors').ParameterNotFoundError)
    vc.check('found when it is defined', (exc is None) == (shape is not None))
    if exc is None:
        number = {'1k': 1e3, '-3': -3.0, '4.7u': 4.7e-6, '5k': 5e3}.get(shape[1])
        vc.check('the value', got == shape[1] if isinstance(got, str) else number is not None and abs(got - number) <= 1e-9 * abs(number))
    vc.check('nothing changes', stmt is None or stmt.obj == ''.join(shape))
    vc.check('nothing is put or recorded', not (one.put or one.inserted or other.put or other.inserted or log))


@prove('C08', 'setting a parameter changes its value only, or adds one statement before the end; setting it to None removes it only',
       [f'{S}:SpiceCircuit.set_parameter'], internal=True, conc=0)
def spice_param_set(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, up, ed, where, k, end, shape, stmt, one, other, perm, log = _spice_params(vc)
    name, kind = vc.choice('name', ['a', 'A']), vc.choice('value', ['text', 'number', 'none'])
    new = {'text': '{z*2}', 'none': None, 'number': vc.real('new')}[kind]
    asked = []

    def formatted(x, *a, **kw):
        if a or kw:
            raise core.Unsupported('a format of another kind')
        asked.append(x)
        return '47.25f'
    vc.stub(m.format_eng, 'format_eng: the text of a number (C05)', formatted)
    _, exc = vc.raises(lambda: ed.set_parameter(name, new), ValueError)
    before = ''.join(shape) if shape else ''
    if perm == up.UpdatePermission.Deny:
        vc.check('nothing changes when editing is denied', exc is not None and (stmt is None or stmt.obj == before) and
                 not (one.put or one.inserted or other.put or other.inserted or log))
        return
    vc.check('accepted', exc is None)
    text = '47.25f' if kind == 'number' else new
    vc.check('a number is written as it is formatted', kind != 'number' or And(*(x == new for x in asked)))
    inserted = (one if where != 'in a file' else other).inserted
    vc.check('nothing is put elsewhere', not ((other if where != 'in a file' else one).inserted or other.put))
    note = lambda t: t[t.index(';'):].strip() if ';' in t else ''
    if shape is not None:
        vc.check('no statement is added', inserted == [])
        was = pairs_of(before)
        if kind == 'none':
            left = [(q, v) for q, v in was if q.upper() != 'A']
            if one.put:
                vc.check('a statement that defines nothing any more becomes a comment', not left and len(one.put) == 1 and isinstance(one.put[0], str)
                         and one.put[0].startswith('*') and one.put[0].endswith('\n') and one.put[0].count('\n') == 1)
            else:
                vc.check('the others stay as they are', left != [] and pairs_of(stmt.obj) == left)
                vc.check('and so does what the line ends with', note(stmt.obj) == note(before))
        else:
            vc.check('the value is the one that was set, and the others are as they were',
                     not one.put and [(q, v.strip()) for q, v in pairs_of(stmt.obj)] == [(q, text if q.upper() == 'A' else v.strip()) for q, v in was])
            vc.check('what the line ends with is as it was', note(stmt.obj) == note(before) and stmt.obj.endswith('\n'))
            vc.check('one command', [t.split()[0].upper() for t in statements(stmt.obj)] == ['.PARAM'])
    elif kind == 'none':
        vc.check('there is nothing to remove', not (inserted or one.put or log))
    else:
        vc.check('one statement is added, before the end', len(inserted) == 1 and not one.put)
        at_, term = inserted[0]
        vc.check('its place', at_ == end)
        if kind == 'number' and not asked:
            value, spec = vc.E.untoken(pairs_of(term.obj)[0][1])
            vc.check('the number that was set', value == new)
        else:
            vc.check('it defines the parameter', pairs_of(no_comment(term.obj)) == [(name, text)])
        vc.check('it is a whole line of the circuit', term.obj.upper().startswith('.PARAM ') and term.obj.count('\n') == 1 and term.obj.endswith('\n') and term.parent is ed)
    if perm != up.UpdatePermission.Inform or (shape is None and kind == 'none'):
        vc.check('nothing is recorded', log == [])
        return
    vc.check('one edit is recorded, of that parameter', len(log) == 1 and log[0][0] == name)
    kinds = {True: {True: up.UpdateType.DeleteParameter, False: up.UpdateType.UpdateParameter}[kind == 'none'], False: up.UpdateType.AddParameter}[shape is not None]
    vc.check('as what it is', log[0][2] == kinds)
    v = log[0][1]
    vc.check('with the value that was set', v is new or isinstance(v, str) and v == text)


class _Maybe(core.Kind):
    """a value, or None"""

    def __init__(self, value):
        super().__init__('maybe', z3.IntSort())
        self.value = value

    def wrap(self, e):
        return self.value if bool(core.wrap(e >= 0)) else None

    def unwrap(self, v):
        return z3.IntVal(-1 if v is None else 0)


@prove('C08', 'the parameters listed are those that the statements define, also in included files, each as often as it is defined',
       [f'{S}:SpiceCircuit.get_all_parameter_names'], internal=True, conc=0)
def param_names(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, f, ed, net, st, text, log = circuit(vc)
    n = vc.len(net)
    vc.assume(Forall(0, n, lambda j: Implies(at(net, j)._cls == 5, at(net, j).obj.cmd == '.CONTROL')))      # what makes it a control section
    text.fields['defines'] = IntK               # a statement defines that many parameters, up to two

    class Sub(m.SpiceCircuit):
        def __init__(self):
            pass

        def __bool__(self):
            return True

        def get_all_parameter_names(self):
            return ['IN', 'FILE']
    sub = Sub()
    st.fields['editor'] = _Maybe(sub)

    class Match:
        def __init__(self, name):
            self.name = name

        def group(self, k):
            if k != 'name':
                raise core.Unsupported('another group')
            return self.name

    def found(line):
        t = line if line._rt is text else line.obj
        return [Match(x) for x in ([] if bool(t.defines == 0) else ['one'] if bool(t.defines == 1) else ['b2', 'A1'])]
    vc.stub(m.find_parameters, 'find_parameters: the parameters defined in a text', found)
    vc.stub(m.get_line_command, 'get_line_command: the command a statement starts with',
            lambda x: x.cmd if x._rt is text else command(x))
    want = {0: [], 1: ['ONE'], 2: ['A1', 'B2'], 3: ['FILE', 'IN']}

    class Names(core.SymBase):
        """the names so far: only what this step adds is seen"""

        def __init__(self):
            self.new = []

        def __iter__(self):
            return iter(['_', '$'])

        def append(self, x):
            self.new.append(x)

        def extend(self, xs):
            self.new.extend(xs)
    state = {'at': None, 'names': None}

    def expected(e):
        if bool(e._cls == 6):
            return want[3] if e.editor is not None else []
        if bool(Or(e._cls == 4, e._cls == 5)):
            return []
        if not bool(e.obj.cmd == '.PARAM'):
            return []
        return want[0] if bool(e.obj.defines == 0) else want[1] if bool(e.obj.defines == 1) else want[2]

    def inv(L, i):
        if isinstance(L.param_names, list):
            return {'there are no names before the first statement': L.param_names == []}
        if state['at'] is None:
            return []
        if state['at'] == 'start':
            state['at'], state['i'] = 'in', i
            return []
        e = at(net, state['i'])
        return {'a statement adds the names that it defines, in upper case': sorted(L.param_names.new) == expected(e)}

    def havoc(E, L):
        state['at'] = 'start'
        return []

    def names(E, old, L):
        state['names'] = Names()
        return state['names']
    vc.loop(f'{S}:SpiceCircuit.get_all_parameter_names#0', inv, havoc=havoc, havoc_vals={'param_names': names})
    got = ed.get_all_parameter_names()
    vc.check('all of them, sorted', got == (['$', '_'] if state['names'] is not None else []))


@prove('C08', 'the control sections listed are those of the netlist, in order; removing one by its position removes it and no other',
       ['editor.spice_editor:SpiceEditor.get_control_sections', 'editor.spice_editor:SpiceEditor.remove_control_section'], internal=True, conc=0)
def control_sections(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, f, ed, net, st, text, log = circuit(vc)
    SE = vc.mod('editor.spice_editor')
    ed.__class__ = SE.SpiceEditor
    st.fields['content'] = text
    up = vc.mod('editor.updates')
    perm = vc.choice('permission', [up.UpdatePermission.Inform, up.UpdatePermission.Deny])
    vc.stub(SE.SpiceEditor.begin_update, 'begin_update: whether editing is allowed', lambda self: perm)
    n, old = vc.len(net), net.copy()
    ctl = lambda e: e._cls == 5
    rank_ = z3.Function('rank', z3.IntSort(), z3.IntSort())
    rank = lambda j: core.wrap(rank_(to_z3(j)))
    vc.assume(rank(0) == 0, Forall(0, n, lambda j: rank(j + 1) == rank(j) + core.wrap(z3.If(to_z3(ctl(at(old, j))), z3.IntVal(1), z3.IntVal(0)))))
    # lemma (by induction over j, from the definition): rank does not decrease, and grows past each control section
    vc.assume(Forall(0, n + 1, lambda j: rank(j) >= 0))
    vc.assume(Forall(0, n + 1, lambda j: Forall(0, j, lambda i: And(rank(i) <= rank(j), Implies(ctl(at(old, i)), rank(i) < rank(j))))))
    if vc.choice('call', ['list', 'remove']) == 'list':
        vc.loop('editor.spice_editor:SpiceEditor.get_control_sections#0', lambda L, i: [vc.len(L.control_sections) == rank(i), True if isinstance(L.control_sections, list) else
                Forall(0, i, lambda j: Implies(ctl(at(net, j)), at(L.control_sections, rank(j)) == at(net, j).content))],
                havoc_vals={'control_sections': lambda E, o, L: E.fresh_seq(text, 'control_sections')})
        got = ed.get_control_sections()
        vc.check('as many as there are', vc.len(got) == rank(n))
        vc.check('each one in its place', Forall(0, n, lambda j: Implies(ctl(at(net, j)), at(got, rank(j)) == at(net, j).content)))
        return
    k = vc.int('index')
    vc.loop('editor.spice_editor:SpiceEditor.remove_control_section#0', lambda L, i: [L.i == rank(i), rank(i) <= k, vc.len(net) == n,
            Forall(0, n, lambda j: at(net, j) == at(old, j))])
    try:
        r = ed.remove_control_section(k)
    except (PermissionError, IndexError) as e:
        vc.check('refused only when editing is denied, or before the first one',
                 perm == up.UpdatePermission.Deny if isinstance(e, PermissionError) else k < 0)
        vc.check('nothing changes when refused', And(vc.len(ed.netlist) == n, Forall(0, n, lambda j: at(ed.netlist, j) == at(old, j)), log == []))
        return
    vc.check('refused when editing is denied', perm != up.UpdatePermission.Deny)
    cut = vc.len(ed.netlist)
    if r is True:
        p = vc.int('p', 0, n)
        vc.assume(ctl(at(old, p)), rank(p) == k)
        vc.check('one statement less', cut == n - 1)
        vc.check('the statements before it stay', Forall(0, p, lambda j: at(ed.netlist, j) == at(old, j)))
        vc.check('the ones after it stay, in order', Forall(p, cut, lambda j: at(ed.netlist, j) == at(old, j + 1)))
        vc.check('there was one at that position', k < rank(n))
        vc.check('recorded once', len(log) == 1)
    else:
        vc.check('False', r is False)
        vc.check('there are not so many', rank(n) <= k)
        vc.check('the circuit is as it was', And(cut == n, Forall(0, n, lambda j: at(ed.netlist, j) == at(old, j)), log == []))
