"""C24 - editing inside one instance of a subcircuit."""
import io
import os
import re
import types
import z3
from pyvc import core
from pyvc.core import RecordType, IntK, BoolK, SRef, to_z3
from pyvc.api import *
from .C10 import Rows

MI, MS = 'editor.spice_subcircuit_instance', 'editor.spice_subcircuit'
ASSUMPTIONS = ["a subcircuit name is looked up in the circuit of the instance first, then in the circuits around it, then in the included files"]


# --- circuits ----------------------------------------------------------------------------------------------------------

class Def:
    """a circuit: comps {ref: [kind, nodes, value, params]}, local definitions, parameters"""

    def __init__(self, name):
        self.name, self.comps, self.defs, self.params, self.order, self.args = name, {}, {}, {}, [], {}

    def sub(self, name, around):
        for d in (self,) + around:
            if name.upper() in d.defs:
                return d.defs[name.upper()]
        return None

    def text(self, r, top=False, sep='\n'):
        body = []
        case = (lambda t: t.upper() if r.random() < .15 else t.lower() if r.random() < .1 else t)
        for ref, (nodes, v, ps) in self.comps.items():
            line = f"{ref} {' '.join(nodes)} {case(v) if ref[0] in 'Xx' else v}"
            if ps:
                line += (' ' if r.random() < .8 else ' params: ' if ref[0] in 'Xx' else '  ') + ' '.join(f'{k}={x}' for k, x in ps.items())
            if r.random() < .1:
                line += ' ; a note R9=3'
            elif r.random() < .1:
                line = line.replace(' ', '\n+ ', 2)
            body.append(line)
        if self.params:
            body.append('.param ' + ' '.join(f'{k}={x}' for k, x in self.params.items()))
        if r.random() < .3:
            body.append('* R1 in a comment')
        if r.random() < .2:
            body.append('.model DX D(Is=1n)')
        if r.random() < .1:
            body.append(r.choice(['.machine\n.state A 0\n.endmachine', '.if (x==1)\n.temp 27\n.endif']))
        for d in self.defs.values():
            if getattr(d, 'file', None) and not top:
                with open(d.file, 'w') as h:
                    h.write(d.text(r) + '\n')
                body.append(r.choice(['', '', '', '  ']) + r.choice(['.lib ', '.inc ', '.include ']) + os.path.basename(d.file))
            elif not getattr(d, 'elsewhere', False):
                body.append(d.text(r))
        r.shuffle(body)
        if top:
            return '* a title\n' + '\n'.join(body) + '\n' + ('.backanno\n' if r.random() < .5 else '') + '.tran 1m\n' + r.choice(['.end', '.end', '.END', '  .end']) + '\n'
        head = r.choice(['.subckt ', '.SUBCKT ', '.Subckt ']) + self.name + ' a b'
        if self.args:
            head += ' ' + ' '.join(f'{k}={x}' for k, x in self.args.items())
        return head + '\n' + '\n'.join(body) + '\n' + r.choice(['.ends', '.ENDS', '.ends ' + self.name])


def make(r, name, depth, subs):
    """a definition that may use the definitions of subs, and may have its own"""
    d = Def(name)
    d.args = {'gain': '2'} if r.random() < .2 else {}
    if depth < 2 and r.random() < .25:
        for n in r.sample(['inner', 'loc', 'AMP'], r.choice([1, 1, 2])):
            if n.upper() not in [x.upper() for x in (name,)]:
                d.defs[n.upper()] = make(r, n, depth + 1, list(subs) + [x.name for x in d.defs.values()])
                if r.random() < .2 and not d.defs[n.upper()].defs:
                    COUNT[0] += 1
                    d.defs[n.upper()].file = os.path.join(COUNT[1], f'f{COUNT[0]}.lib')
    refs = ['R1', 'R2', 'C1', 'L1', 'D1', 'r3', 'V1', 'R10', 'X1A' if depth else 'R11']
    for ref in r.sample(refs[:8], r.randint(1, 4)):
        add(r, d, ref)
    av = list(subs) + [x.name for x in d.defs.values()]
    for ref in r.sample(['X1', 'X2', 'x3', 'XU1'], r.choice([0, 1, 1, 2]) if av else 0):
        add(r, d, ref, r.choice(av))
    for k in r.sample(['res', 'pin', 'x'], r.choice([0, 1, 1, 2])):
        d.params[k] = r.choice(['1', '2k', '{y*2}', '3.5'])
    return d


def add(r, d, ref, sub=None):
    ps = {}
    p = ref[0].upper()
    if p in 'RCL':
        v = r.choice(['1k', '10', '4.7u', '{res}', '33'])
        if r.random() < .3:
            ps = {k: r.choice(['1', '2.5m', '100']) for k in r.sample(['Rser', 'tc1', 'temp'], r.randint(1, 2))}
    elif p == 'D':
        v = r.choice(['1N4148', 'DX'])
    elif p == 'V':
        v = r.choice(['5', 'SINE(0 1 1k)'])
    else:
        v = sub
        if r.random() < .4:
            ps = {k: r.choice(['1', '2k', '{a*2}']) for k in r.sample(['gain', 'rr'], r.randint(1, 2))}
    d.comps[ref] = [r.sample(['a', 'b', 'n1', '0', 'out'], 2), v, ps]


COUNT = [0, '']


def build(r):
    """(top level circuit, files)"""
    top = Def('')
    names = r.sample(['sub1', 'AMP', 'filt_2', 'amp2', '2N3904', 'OP-07'], r.randint(1, 3))
    if r.random() < .25:  # a name like the one of a modified copy
        names.insert(1, names[0] + r.choice(['_X1', '_x1', '_X2']))
    for i, n in enumerate(names):
        top.defs[n.upper()] = make(r, n, 0 if r.random() < .7 else 1, names[:i])
    both = len(names) > 2 and r.random() < (.7 if names[1].startswith(names[0] + '_') else .1)
    if both:  # a circuit with an instance of each
        d = top.defs[names[-1].upper()]
        a, b = r.sample(['X1', 'X2'], 2) if r.random() < .3 or '_X' not in names[1].upper() else (names[1][-2:], 'X3')
        if not d.defs:
            d.comps = {k: v for k, v in d.comps.items() if k.upper() not in (a.upper(), b.upper())}
            add(r, d, a, names[0])
            add(r, d, b, names[1])
            add(r, top, 'XB', names[-1])
    lib = []
    if r.random() < .3:
        n = r.choice(['libsub', 'Op.1'])
        x = make(r, n, 2, [])
        x.elsewhere = True
        top.defs[n.upper()] = x
        lib.append(x)
        names.append(n)
    for ref in r.sample(['R1', 'R2', 'C1', 'D1', 'V1'], r.randint(1, 3)):
        add(r, top, ref)
    for ref in r.sample(['X1', 'X2', 'x3', 'X10', 'XU1', 'X1_2'], r.randint(2, 4)):
        add(r, top, ref, r.choice(names[:2] if r.random() < .6 else names))
    for k in r.sample(['res', 'pin', 'x'], r.choice([0, 1, 1])):
        top.params[k] = r.choice(['1', '2k'])
    return top, lib


# --- what a saved netlist means ----------------------------------------------------------------------------------------

def parse(text):
    """independent reader of netlists"""
    lines = []
    text = re.sub(r'(?im)^ *\.(lib|inc|include) (f\d+\.lib)$', lambda m: open(os.path.join(COUNT[1], m.group(2))).read(), text)
    for ln in text.replace('\r', '').split('\n'):
        if ln.startswith('+'):
            lines[-1] += ' ' + ln[1:]
        elif ln.strip() and not ln.lstrip().startswith('*'):
            lines.append(ln)
    top = Def('')
    stack = [top]
    for ln in lines:
        ln = ln.split(';')[0].strip()
        w = ln.split()
        if not w:
            continue
        c = w[0].upper()
        if c == '.SUBCKT':
            d = Def(w[1])
            if d.name.upper() in stack[-1].defs:
                raise ValueError(f'{d.name} is defined twice')
            stack[-1].defs[d.name.upper()] = d
            stack.append(d)
            d.args = dict(x.split('=') for x in w[4:])
        elif c == '.ENDS':
            if len(w) > 1 and w[1].upper() != stack[-1].name.upper():
                raise ValueError('.ENDS of another subcircuit')
            stack.pop()
        elif c == '.END':
            break
        elif c == '.PARAM':
            for k, v in re.findall(r'(\w+)\s*=\s*(\{[^}]*\}|\S+)', ln[6:]):
                stack[-1].params[k] = v
        elif c[0] == '.':
            stack[-1].order.append(' '.join(w))
        else:
            ps = dict(re.findall(r'(\w+)\s*=\s*(\{[^}]*\}|\S+)', ln))
            body = re.sub(r'(\w+)\s*=\s*(\{[^}]*\}|\S+)', '', ln).split()
            body = [x for x in body if x.lower() != 'params:']
            if w[0] in stack[-1].comps:
                raise ValueError(f'{w[0]} is there twice')
            stack[-1].comps[w[0]] = [body[1:3], ' '.join(body[3:]), ps]
    if len(stack) != 1:
        raise ValueError('.SUBCKT without .ENDS')
    return top


def flat(d, around=(), path='', depth=0, dynamic=False):
    """{path: (value, parameters)} of the components, {path.name: value} of the parameters"""
    if depth > 8:
        raise ValueError('recursive')
    out = {}
    for k, v in d.params.items():
        out[path.upper() + '.' + k.upper()] = v
    for ref, (nodes, v, ps) in d.comps.items():
        p = f'{path}:{ref}' if path else ref
        if ref[0] in 'Xx':
            s, a = None, ()
            chain = (d,) + around
            for i, c in enumerate(chain):
                if v.upper() in c.defs:
                    s, a = c.defs[v.upper()], chain if dynamic else chain[i:]
                    break
            if s is None:
                raise ValueError(f'{p}: there is no subcircuit {v}')
            out[p.upper()] = (s, dict(ps))
            out.update(flat(s, a, p, depth + 1, dynamic))
        else:
            out[p.upper()] = (v, dict(ps))
    return out


def eq(a, b, U):
    a, b = str(a).replace(' ', ''), str(b).replace(' ', '')
    if a == b:
        return True
    try:
        x, y = U.to_float(a, accept_invalid=False), U.to_float(b, accept_invalid=False)
        return abs(x - y) <= 1e-6 * max(abs(x), abs(y))
    except Exception:
        return False


def pars(p):
    return {k.upper(): v for k, v in p.items() if k not in ('Value', 'value')}


def same_def(a, b):
    return (a.name.upper() == b.name.upper() and a.args == b.args and a.params == b.params and sorted(a.order) == sorted(b.order)
            and {k: (x[0], x[1].upper(), x[2]) for k, x in a.comps.items()} == {k: (x[0], x[1].upper(), x[2]) for k, x in b.comps.items()}
            and set(a.defs) == set(b.defs) and all(same_def(x, b.defs[k]) for k, x in a.defs.items()))


def judge_reads(bx, ed, want, U, log, when, r):
    """what is read through each path"""
    for p in r.sample(sorted(want), len(want)):
        if '.' in p:
            path, _, k = p.rpartition('.')
            how = r.choice(['sub', 'sub', 'item']) if path else 'sub'
            if how == 'sub':
                got = (ed.get_subcircuit(path) if path else ed).get_parameter(k)
            else:
                got = ed[path][k]
            bx.check(eq(got, want[p], U), f'a parameter of a subcircuit is read through its path {when}', (log, p, got, want[p]))
            continue
        v, ps = want[p]
        if not isinstance(v, Def):
            path, _, last = p.rpartition(':')
            how = r.choice(['get', 'get', 'value', 'item'] + (['sub', 'inst', 'index', 'key'] if path else []))
            if how == 'get':
                got = ed.get_component_value(p)
            elif how == 'value':
                got = ed.get_component(p).value_str
            elif how == 'item':
                got = ed[p].value_str
            elif how == 'sub':
                got = ed.get_subcircuit(path).get_component_value(last)
            elif how == 'inst':
                got = ed.get_component(path).get_component_value(last)
            elif how == 'index':
                got = ed[path][last].value_str
            else:
                got = ed[path].get_component(last)['value']
            bx.check(eq(got, v, U), f'a value is read through its path {when}', (log, p, got, v, how))
        gp = pars(ed.get_component_parameters(p))
        bx.check(set(gp) == set(pars(ps)) and all(eq(gp[k], x, U) for k, x in pars(ps).items()), f'parameters are read through their path {when}', (log, p, gp, ps))


def judge_text(bx, text, want, defs, U, log, when):
    try:
        top = parse(text)
        got = flat(top)
    except ValueError as e:
        return bx.check(False, f'what is saved is a circuit {when}', (log, str(e), text))
    bx.check(set(got) == set(want), f'what is saved has the same items {when}', (log, sorted(set(got) ^ set(want)), text))
    for p, x in want.items():
        if '.' in p:
            bx.check(eq(got[p], x, U), f'parameters of subcircuits are saved {when}', (log, p, got[p], x, text))
            continue
        bx.check(isinstance(x[0], Def) or eq(got[p][0], x[0], U), f'values are saved {when}', (log, p, got[p], x, text))
        a, b = pars(got[p][1]), pars(x[1])
        bx.check(set(a) == set(b) and all(eq(a[k], b[k], U) for k in a), f'parameters are saved {when}', (log, p, a, b, text))
    for k, d in defs.defs.items():
        if k in top.defs:
            bx.check(same_def(top.defs[k], d), f'the definition stays as it was {when}', (log, k, text))
        else:
            bx.check(k in LIB, f'the definition is still there {when}', (log, k, text))


LIB = set()


def change(bx, r, ed, want, log, names):
    """one edit through a path"""
    inner = [p for p in want if ':' in p]
    inparams = [p for p in want if '.' in p and p[0] != '.']
    kind = r.choice(['value'] * 5 + ['params'] * 2 + ['param'] * 2 + ['newparam', 'xparams', 'top', 'retarget'])
    if kind == 'param' and not inparams or kind in ('value', 'params') and not inner:
        kind = 'top'
    up = (lambda t: t.lower() if r.random() < .1 else t)
    if kind in ('value', 'top'):
        ps = [p for p in want if ('.' not in p) and (':' in p) == (kind == 'value') and not isinstance(want[p][0], Def)]
        if not ps:
            return
        p = r.choice(ps)
        ref = p.split(':')[-1]
        model = ref[0] in 'D'
        v = r.choice(['DMOD', 'BAT54', '1N4148']) if model else r.choice([47, '3.3k', '{res*3}', 1e-9, 2200.0, '10Meg', '7.5u'])
        how = r.choice(['set', 'set', 'model' if model else 'set', 'comp', 'chain', 'sub', 'values', 'item', 'inst', 'index', 'instvalues',
                        'instmodel' if model else 'inst'])
        log.append((how, p, v))
        path, _, last = p.rpartition(':')
        if how == 'set':
            ed.set_component_value(up(p), v)
        elif how == 'model':
            ed.set_element_model(p, v)
        elif how == 'comp':
            ed.get_component(p).value = v
        elif how == 'chain':
            c = ed
            for x in p.split(':'):
                c = c.get_component(x)
            c.set_value(v)
        elif how == 'sub' and path:
            ed.get_subcircuit(path).set_component_value(last, v)
        elif how == 'values':
            ed.set_component_values(**{p: v})
        elif how == 'inst' and path:
            ed.get_component(path).set_component_value(last, v)
        elif how == 'index' and path:
            ed[path][last] = v
        elif how == 'instvalues' and path:
            ed.get_component(path).set_component_values(**{last: v})
        elif how == 'instmodel' and path:
            ed[path].set_element_model(last, v)
        else:
            ed[p].value = v
        want[p] = (v, want[p][1])
    elif kind in ('params', 'xparams'):
        ps = [p for p in want if '.' not in p and (isinstance(want[p][0], Def) if kind == 'xparams' else ':' in p and not isinstance(want[p][0], Def) and p.split(':')[-1][0] in 'RLC')]
        if not ps:
            return
        p = r.choice(ps)
        old = dict(want[p][1])
        new = {}
        for k in r.sample(['gain', 'rr', 'qq'] if kind == 'xparams' else ['Rser', 'tc1', 'temp'], r.randint(1, 2)):
            new[k] = r.choice([5, '1k', 0.5, '{z}'])
        if old and r.random() < .3:
            new[r.choice(sorted(old))] = None
        path, _, last = p.rpartition(':')
        how = r.choice(['set', 'comp', 'sub', 'one', 'inst'])
        log.append(('params', how, p, new))
        if how == 'set' or how == 'sub' and not path:
            ed.set_component_parameters(p, **new)
        elif how == 'comp':
            ed.get_component(p).set_parameters(**new)
        elif how == 'sub' and path:
            ed.get_subcircuit(path).set_component_parameters(last, **new)
        elif how == 'inst' and path:
            ed.get_component(path).set_component_parameters(last, **new)
        else:
            c = ed[p]
            for k, v in new.items():
                c.set_parameter(k, v)
        for k, v in new.items():
            old.pop(k, None)
            if v is not None:
                old[k] = v
        want[p] = (want[p][0], old)
    elif kind == 'param':
        p = r.choice(inparams)
        path, _, k = p.rpartition('.')
        v = r.choice([5, '1k', 0.5, '{z}', '3.3'])
        how = r.choice(['sub', 'sub', 'inst', 'index', 'one'])
        log.append(('param', how, p, v))
        if how == 'sub':
            ed.get_subcircuit(path).set_parameter(k, v)
        elif how == 'inst':
            ed.get_component(path).subcircuit.set_parameter(k, v)
        elif how == 'one':
            ed.get_subcircuit(path).set_parameters(**{k: v})
        else:
            ed[path][k] = v
        want[p] = v
    elif kind == 'retarget':
        ps = [p for p in want if '.' not in p and isinstance(want[p][0], Def) and ':' not in p]
        p = r.choice(ps)
        n = r.choice(sorted(names.defs))
        if flat_size(names, n) > 30:
            return
        n = names.defs[n].name
        log.append(('retarget', p, n))
        how = r.choice(['value', 'model', 'comp'])
        if how == 'value':
            ed.set_component_value(p, n)
        elif how == 'model':
            ed.set_element_model(p, n)
        else:
            ed.get_component(p).value = n
        ps = want[p][1]
        for k in [k for k in want if k.startswith(p + ':') or k.startswith(p + '.')]:
            del want[k]
        t = Def('')
        t.comps[p] = [['a', 'b'], n, ps]
        want.update(flat(t, (names,)))
    else:
        ps = [p for p in want if '.' not in p and isinstance(want[p][0], Def)]
        p, k = r.choice(ps), r.choice(['fresh', 'pin', 'Res'])
        v = r.choice([5, '1k', 0.5, '{z}'])
        log.append(('newparam', p, k, v))
        ed.get_subcircuit(p).set_parameter(k, v)
        want[p + '.' + k.upper()] = v


def flat_size(top, n):
    t = Def('')
    t.comps['X1'] = [['a', 'b'], n, {}]
    try:
        return len(flat(t, (top,))) if flat(t, (top,)) == flat(t, (top,), dynamic=True) else 99
    except ValueError:
        return 99


@bounded('C24', 'edits through the paths of instances', [f'{MI}:SpiceCircuitInstance', f'{MS}:SpiceCircuit.clone', f'{MS}:SpiceCircuit.setname',
         f'{MS}:SpiceCircuit.get_component', f'{MS}:SpiceCircuit.get_subcircuit_named', f'{MS}:SpiceCircuit.modified_subcircuits', f'{MS}:SpiceCircuit.write_lines'])
def instances(bx):
    E = bx.mod('editor.spice_editor')
    U = bx.mod('utils.float_unit')
    d = bx.dir()
    f, g = os.path.join(d, 'a.net'), os.path.join(d, 'b.net')
    for r in bx.each(400, 6000):
        COUNT[:] = [0, d]
        while True:
            top, lib = build(r)
            try:
                # (a circuit in which it matters from where a name is looked up is the known finding 'scope')
                if len(flat(top)) <= 70 and flat(top) == flat(top, dynamic=True):
                    break
            except ValueError:  # circuits that contain themselves
                pass
        if lib:
            with open(os.path.join(d, 'my.lib'), 'w') as h:
                h.write('* a library\n' + '\n'.join(x.text(r) + '\n' for x in lib))
                h.write('.subckt ' + lib[0].name + 'b a b\nR1 a b 99\n.ends\n')
        text = top.text(r, True)
        LIB.clear()
        inc = bool(lib) and r.random() < .4
        LIB.update(x.name.upper() for x in lib if not inc)
        if inc:  # the file becomes part of the circuit when it is saved
            text = text.replace('.tran 1m', r.choice(['.inc my.lib', '.include "my.lib"', '.INCLUDE my.lib']) + '\n.tran 1m')
            lib = []
            defs = parse(text.replace('.tran 1m', open(os.path.join(d, 'my.lib')).read() + '.tran 1m'))
            defs.order = [x for x in defs.order if not x.lower().startswith('.inc')]
        elif lib:
            text = text.replace('.tran 1m', '.lib my.lib\n.tran 1m' if r.random() < .7 else '.tran 1m\n.lib "my.lib"')
        with open(f, 'w') as h:
            h.write(text)
        if not inc:
            defs = parse(text)
        want = flat(top)
        log = [text]
        ed = E.SpiceEditor(f)
        ed.set_custom_library_paths(d)
        if r.random() < .5:
            judge_reads(bx, ed, want, U, log, 'before any edit', r)
            s = io.StringIO()
            ed.save_netlist(s)
            bx.check(same_def(parse(s.getvalue()), defs), 'reading does not change what is saved', (log, s.getvalue()))
        for i in range(r.choice([1, 1, 2, 3, 5, 8])):
            change(bx, r, ed, want, log, top)
            if r.random() < .4:
                judge_reads(bx, ed, want, U, log, 'after an edit', r)
            if r.random() < .2:
                judge_out(bx, ed, want, defs, U, log, lib, d)
        if r.random() < .6:
            judge_reads(bx, ed, want, U, log, 'after the edits', r)
        text = judge_out(bx, ed, want, defs, U, log, lib, d)
        ed.save_netlist(g)
        e2 = E.SpiceEditor(g)
        e2.set_custom_library_paths(d)
        log.append('saved and read')
        judge_reads(bx, e2, want, U, log, 'from the saved file', r)
        if r.random() < .5:
            defs2 = parse(open(g).read())
            for i in range(r.choice([1, 2, 3])):
                change(bx, r, e2, want, log, top)
            if r.random() < .6:
                judge_reads(bx, e2, want, U, log, 'after the edits of the saved file', r)
            judge_out(bx, e2, want, defs2, U, log, lib, d)
        bx.done(str(log))


def judge_out(bx, ed, want, defs, U, log, lib, d):
    s = io.StringIO()
    ed.save_netlist(s)
    text = s.getvalue()
    full = text
    if lib:
        l = open(os.path.join(d, 'my.lib')).read()
        full = re.sub(r'(?i) *\.end\n$', lambda m: l + m.group(0), text)
    judge_text(bx, full, want, defs, U, log, 'after the edits')
    return text


@finding('C24', 'scope')
def scope(bx):
    import tempfile
    E = bx.mod('editor.spice_editor')
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.net')
        with open(f, 'w') as h:
            h.write('* t\nX1 a b OUTER\n.subckt OUTER a b\nX2 a b USER\n.subckt AMP a b\nR1 a b 1\n.ends\n.ends\n'
                    '.subckt USER a b\nX3 a b AMP\n.ends\n.subckt AMP a b\nR1 a b 2\n.ends\n.end\n')
        v = E.SpiceEditor(f).get_component_value('X1:X2:X3:R1')
    if v != '2':
        return "X1:X2:X3:R1 is taken from the AMP of the circuit that contains the instance X2 and not from the AMP where X2's subcircuit is defined"
    return None


# --- proofs: a circuit is any list of statements, of any class ---------------------------------------------------------

def circuit(vc):
    m = vc.mod(MS)
    name = RecordType('Name', {'upped': IntK})
    name.fields['upped'] = name
    name.methods = {'upper': lambda t: t.upped}
    st = RecordType('Statement', {'_cls': IntK, 'title': name, 'obj': IntK, 'editor': IntK, 'was_modified': BoolK, 'shadow_subcircuit': IntK})
    st.methods = {'name': lambda s: s.title}
    st.classes = (str, m.Primitive, m.SpiceComponent, m.SpiceCircuitInstance, m.SpiceCircuit, m.ControlEditor, m.IncludeFile)
    net = vc.seq('netlist', st)
    ed = m.SpiceCircuit.__new__(m.SpiceCircuit)
    n = vc.len(net)
    vc.assume(Forall(0, n, lambda i: And(at(net, i)._cls >= 0, at(net, i)._cls < len(st.classes))))
    vc.assume(Forall(0, n, lambda i: Forall(0, i, lambda j: at(net, i) != at(net, j))))
    isa = lambda e, cls: Or([e._cls == i for i, c in enumerate(st.classes) if issubclass(c, cls)])
    return m, ed, net, n, st, name, isa


@prove('C24', 'the copy of a circuit has a copy of each of its statements, in order, and the circuit stays as it is', [f'{MS}:SpiceCircuit.clone'],
       internal=True, conc=0)
def copying(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, ed, net, n, st, name, isa = circuit(vc)
    ed.netlist = []
    vc.rep(ed, netlist=net)
    old = net.copy()

    class Copy:
        def __init__(self, of, into):
            self.of, self.into = of, into
    st.methods['clone'] = lambda s, into: Copy(s, into)

    class Made:
        """what a constructor of the class of a statement makes"""
        def __init__(self, cls, netlist, obj):
            self.cls, self.netlist, self.obj = cls, netlist, obj

    class G:
        n, end, names = 0, False, []

    class Text:
        """the list of statements of the copy: each one is looked at when it is appended"""
        def append(self, x):
            if bool(G.n == 0) and isinstance(x, str) or bool(G.n == n + 1) and isinstance(x, str):
                G.n = G.n + 1  # the comments around the copy
                return
            s = at(old, G.n - 1)
            vc.check('a statement of the circuit', And(G.n >= 1, G.n <= n))
            if isinstance(x, Copy):
                vc.check('circuits and components are copied', And(x.of == s, Or(isa(s, m.SpiceCircuit), isa(s, m.SpiceComponent))))
                vc.check('the copy belongs to the new circuit', x.into is G.clone)
            elif isinstance(x, SRef):
                vc.check('only texts are shared', And(x == s, isa(s, str)))
            else:
                vc.check('a directive is made again with the same text', And(x.obj == s.obj, isa(s, m.Primitive), Not(isa(s, m.SpiceComponent))))
                vc.check('an included file is included again', Or(x.cls is m.IncludeFile, Not(isa(s, m.IncludeFile))))
                vc.check('the copy belongs to the new circuit', x.netlist is G.clone)
            G.n = G.n + 1

    def empty(parent=None):
        c = m.SpiceCircuit.__new__(m.SpiceCircuit)
        c.parent, c.netlist, c._modified = parent, Text(), False
        G.clone = c
        return c
    vc.stub(m.SpiceCircuit, 'SpiceCircuit(): an empty circuit', empty)
    for c in (m.Primitive, m.IncludeFile, m.ControlEditor):
        vc.stub(c, 'the constructor of a directive keeps its circuit and its text', (lambda c: lambda netlist=None, obj=None: Made(c, netlist, obj))(c))
    vc.stub(m.SpiceCircuit.setname, 'setname: names the copy', lambda self, new: G.names.append((self, new)))
    me = object()
    vc.loop(f'{MS}:SpiceCircuit.clone#0', lambda L, i: [G.n == i + 1, Forall(0, n, lambda j: at(net, j) == at(old, j))],
            havoc=lambda E, L: (setattr(G, 'n', E.fresh_int('n')), [G])[1])
    rename = vc.choice('rename', [True, False])
    got = ed.clone(me, **({'new_name': 'A_X1'} if rename else {}))
    vc.check('it is the new circuit', got is G.clone and got.parent is me)
    vc.check('all of them', Or(G.n == n + 1, G.n == n + 2))
    vc.check('it is named', G.names == ([(got, 'A_X1')] if rename else []))
    vc.check('the circuit stays as it is', And(vc.len(ed.netlist) == n, Forall(0, n, lambda j: at(ed.netlist, j) == at(old, j))))


@prove('C24', 'the copies to be saved are those of the instances that were modified, each once', [f'{MS}:SpiceCircuit.modified_subcircuits'], internal=True, conc=0)
def modified(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, ed, net, n, st, name, isa = circuit(vc)
    ed.netlist = []
    vc.rep(ed, netlist=net)
    mod = lambda e: And(isa(e, m.SpiceCircuitInstance), e.was_modified)
    rank_ = z3.Function('rank', z3.IntSort(), z3.IntSort())
    rank = lambda j: core.wrap(rank_(to_z3(j)))
    vc.assume(rank(0) == 0, Forall(0, n, lambda j: rank(j + 1) == rank(j) + core.wrap(z3.If(to_z3(mod(at(net, j))), z3.IntVal(1), z3.IntVal(0)))))
    # lemma (by induction over j, from the definition): rank does not decrease, and grows past each modified one
    vc.assume(Forall(0, n + 1, lambda j: rank(j) >= 0))
    vc.assume(Forall(0, n + 1, lambda j: Forall(0, j, lambda i: And(rank(i) <= rank(j), Implies(mod(at(net, i)), rank(i) < rank(j))))))
    vc.loop(f'{MS}:SpiceCircuit.modified_subcircuits#0', lambda L, i: [vc.len(L.modified) == rank(i), True if isinstance(L.modified, list) else
            Forall(0, i, lambda j: Implies(mod(at(net, j)), at(L.modified, rank(j)) == at(net, j).shadow_subcircuit))],
            havoc_vals={'modified': lambda E, old, L: E.fresh_seq(IntK, 'modified')})
    got = ed.modified_subcircuits()
    vc.check('as many as were modified', vc.len(got) == rank(n))
    vc.check('each one in its place', Forall(0, n, lambda j: Implies(mod(at(net, j)), at(got, rank(j)) == at(net, j).shadow_subcircuit)))


@prove('C24', 'a subcircuit is looked up in the circuit first, whatever its letter case, then in its libraries, then around it',
       [f'{MS}:SpiceCircuit.get_subcircuit_named'], internal=True, conc=0)
def named(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, ed, net, n, st, name, isa = circuit(vc)
    ed.netlist = []
    vc.rep(ed, netlist=net)
    asked = SRef(name, z3.Int('asked'))
    # the included files do not have it
    inc_ = type('File', (), {'get_subcircuit_named': lambda self, x: None})()
    vc.assume(Forall(0, n, lambda i: Not(isa(at(net, i), m.IncludeFile))))
    hit = lambda e: And(isa(e, m.SpiceCircuit), e.title.upped == asked.upped)
    first = vc.int('first', 0, n)
    vc.assume(Forall(0, first, lambda j: Not(hit(at(net, j)))), Or(first == n, hit(at(net, first))))
    lib, around = vc.choice('lib', [None, 'from a library']), vc.choice('around', [None, 'from around'])
    parent = vc.choice('parent', [True, False])
    ed.parent = type('Parent', (), {'get_subcircuit_named': lambda self, x: around})() if parent else None
    vc.stub(m.SpiceCircuit._find_subckt_in_own_libs, 'what the libraries of the circuit have', lambda self, x: lib)
    vc.loop(f'{MS}:SpiceCircuit.get_subcircuit_named#0', lambda L, i: [Forall(0, i, lambda j: Not(hit(at(net, j))))])
    got = ed.get_subcircuit_named(asked)
    if isinstance(got, SRef):
        vc.check('the first with that name', And(first < n, got == at(net, first)))
    else:
        vc.check('only when the circuit does not have it', first == n)
        vc.check('from its libraries, or from around', got == (lib or (around if parent else None)))


# ------------------------------------------------------------------------------------------------
# An instance: its own copy of the circuit it is of, made once, under a name that nothing else has; the edits of what is
# in the copy mark it as modified, and are recorded under the path of the instance.
class _Around:
    """the circuit that the instance is in"""
    parent = None

    def __init__(self, vc, up, perm):
        self.vc, self.up, self.perm, self.log, self.asked, self.definition = vc, up, perm, [], [], None

    def begin_update(self):
        return self.perm

    def end_update(self, name, value, kind):
        self.log.append((name, value, kind))

    def get_subcircuit_named(self, name):
        self.asked.append(name)
        return self.definition


class _Circuit:
    """a circuit: the definition, or the copy of it that an instance has"""

    def __init__(self, label, modified=False):
        self.label, self._modified, self.clones, self.calls = label, modified, [], []

    def clone(self, parent, new_name=None):
        c = _Circuit(new_name)
        self.clones.append((parent, new_name, c))
        return c

    def name(self):
        return self.label


def _instance(vc, perm=None):
    m, up = vc.mod(MI), vc.mod('editor.updates')
    around = _Around(vc, up, perm or up.UpdatePermission.Inform)
    x = m.SpiceCircuitInstance(netlist=around, obj='X1 a b SUBC\n')
    return m, up, around, x


@prove('C24', 'an instance has one copy of its own of the circuit, under a name that no other circuit has', [f'{MI}:SpiceCircuitInstance.subcircuit'],
       internal=True, conc=0)
def own_copy(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, up, around, x = _instance(vc)
    around.definition = definition = _Circuit('SUBC') if vc.choice('there is such a circuit', [True, False]) else None
    answers, E = [], vc.E

    class Names:
        def __contains__(self, t):
            if not isinstance(t, str) or t != t.upper():
                raise core.Unsupported('a name that is not in upper case')
            r = vc.bool('in use')
            answers.append((t, r))
            return bool(r)
    vc.stub(m.SpiceCircuitInstance._subcircuit_names_in_use, '_subcircuit_names_in_use: the names that are in use', lambda self: Names())
    vc.loop(f'{MI}:SpiceCircuitInstance.subcircuit#0', lambda L, i: [L.i >= 1],
            havoc=lambda E, L: [x, answers], havoc_vals={'i': lambda E, old, L: vc.int('tried', 1), 'new_name': lambda E, old, L: f"SUBC_X1_{vc.int('one tried', 2)}"})
    _, e = vc.raises(lambda: x.subcircuit, AssertionError)
    if definition is None:
        vc.check('an instance of no circuit has no copy', And(e is not None, x.shadow_subcircuit is None))
        return
    vc.check('a copy is made', e is None and len(definition.clones) == 1)
    parent, name, copy = definition.clones[0]
    vc.check('of the circuit the instance is of', around.asked == ['SUBC'] * len(around.asked) and len(around.asked) >= 1)
    vc.check('it belongs to the instance', parent is x and x.shadow_subcircuit is copy)
    vc.check('under a name that is not in use', len(answers) >= 1 and answers[-1][0] == name.upper() and Not(answers[-1][1]))
    vc.check('the same copy every time', And(x.subcircuit is copy, x.subcircuit is copy, len(definition.clones) == 1))
    vc.check('making it is no edit', And(around.log == [], x.was_modified is False))
    if vc.choice('another circuit afterwards', [True, False]):
        vc.stub(m.SpiceComponent.set_value, 'SpiceComponent.set_value: the value is set (C07)', lambda self, v: m.Component.set_value(self, v))
        x.set_value('OTHER')
        vc.check('the copy is that of the circuit it was of', x.shadow_subcircuit is None)
        around.definition = other = _Circuit('OTHER')
        vc.check('a new copy, of the new circuit', And(x.subcircuit is other.clones[0][2], around.asked[-1] == 'OTHER'))


@prove('C24', 'the names that a copy cannot have are those of every circuit, every modified copy and every included circuit around it',
       [f'{MI}:SpiceCircuitInstance._subcircuit_names_in_use'], internal=True, conc=0)
def names_in_use(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m, up, around, x = _instance(vc)
    S, B = vc.mod(MS), m.BaseSubCircuit
    kind = vc.choice('statement', ['a circuit', 'an instance', 'an instance with a copy', 'a file', 'a component', 'a text'])
    want = []
    if kind == 'a circuit':
        line = S.SpiceCircuit.__new__(S.SpiceCircuit)
        want = ['INNER']
        vc.stub(S.SpiceCircuit.name, 'SpiceCircuit.name', lambda self: 'Inner')
    elif kind.startswith('an instance'):
        line = m.SpiceCircuitInstance.__new__(m.SpiceCircuitInstance)
        line.__dict__.update(_subcircuit=None, shadow_subcircuit=_Circuit('Subc_x2') if kind.endswith('copy') else None)
        want = ['SUBC_X2'] if kind.endswith('copy') else []
    elif kind == 'a file':
        line = types.SimpleNamespace(editor=types.SimpleNamespace(get_subcircuit_names=lambda: ['Lib1', 'lib2']))
        want = ['LIB1', 'LIB2']
    elif kind == 'a component':
        line = types.SimpleNamespace(obj='R1 a b 1k\n', editor=None)
    else:
        line = '* text\n'
    levels = vc.choice('circuits around', [1, 2, 3])
    rows, chain, outer = [], [], None
    for k in range(levels):
        c = _Around(vc, up, None)
        c.netlist, c.parent = Rows(vc, f'statements {k}', lambda n: line), outer
        rows.append(c.netlist)
        outer = c
    if vc.choice('an instance around it', [True, False]):
        # what is around a circuit can be an instance, that has no statements of its own
        x._netlist = types.SimpleNamespace(parent=outer)
    else:
        x._netlist = outer
    done = []

    def inv(L, i):
        if not any(L.seq is r for r in rows):
            raise core.Unsupported('a loop over something else')
        if L.seq is not st['seq']:
            st['seq'] = L.seq
            return []
        if st['at'] == 'start':
            st['at'] = 'in'
            return []
        return {'every name of the statement is in use': set(want) <= L.names, 'the names before stay': {'BEFORE'} <= L.names}
    st = {'at': 'in', 'seq': None}

    def havoc(E, L):
        st['at'] = 'start'
        done.append(L.seq)
        L.names.add('BEFORE')
        return [L.names, st, done]

    vc.loop(f'{MI}:SpiceCircuitInstance._subcircuit_names_in_use#1', inv, havoc=havoc)
    got = x._subcircuit_names_in_use()
    vc.check('the statements of every circuit around it are looked at', len(done) >= 1 and all(any(d is r for d in done) for r in rows))
    vc.check('the names are kept', 'BEFORE' in got)


@prove('C24', 'the first edit of an instance makes it one of its own copy, and later ones do not', [f'{MI}:SpiceCircuitInstance.begin_update',
       f'{MI}:SpiceCircuitInstance.end_update', f'{MI}:SpiceCircuitInstance.was_modified', f'{MI}:SpiceCircuitInstance.reset_netlist'], internal=True, conc=0)
def first_edit(vc):
    if not vc.symbolic:
        return vc.assume(False)
    up0 = vc.mod('editor.updates')
    P, U = up0.UpdatePermission, up0.UpdateType
    perm = vc.choice('permission', [P.Inform, P.Deny, P.Initializing])
    m, up, around, x = _instance(vc, perm)
    state = vc.choice('copy', ['none', 'made', 'modified'])
    copy = _Circuit('SUBC_X1' if state == 'none' else 'SUBC_X1_3', state == 'modified')
    definition = around.definition = _Circuit('SUBC')
    made = []
    definition.clone = lambda parent, new_name=None: made.append((parent, new_name)) or copy
    vc.stub(m.SpiceCircuitInstance._subcircuit_names_in_use, '_subcircuit_names_in_use: none', lambda self: set())
    if state != 'none':
        x._subcircuit, x.shadow_subcircuit = definition, copy
    before = x.value_str
    if state == 'modified':
        x.attributes['value'] = before = copy.label
    got = x.begin_update()
    vc.check('whether editing is allowed is what the circuit around it says', got == perm)
    if perm != P.Inform or state == 'modified':
        vc.check('nothing is recorded or changed', And(around.log == [], x.value_str == before, made == []))
    else:
        vc.check('the instance is one of its own copy', And(x.shadow_subcircuit is copy, x.value_str == copy.label, copy is not definition))
        vc.check('that is recorded', [(n, k) for n, v, k in around.log if n == 'X1'] == [('X1', U.UpdateComponentValue)] and
                 [v for n, v, k in around.log if n == 'X1'] == [copy.label])
        vc.check('and of what it is a copy', [(n, v, k) for n, v, k in around.log if n != 'X1'] == [('CLONE(SUBC)', 'SUBC', U.CloneSubcircuit)])
    if perm != P.Inform:
        return
    around.log.clear()
    name, kind, value = vc.choice('item', ['R1', 'X2:C1', 'R1:temp']), vc.choice('edit', [U.UpdateComponentValue, U.DeleteComponent]), vc.real('value')
    x.end_update(name, value, kind)
    vc.check('the copy is modified, the definition is not', And(copy._modified is True, x.was_modified is True, definition._modified is False))
    vc.check('the edit is recorded once, under the path of the instance', len(around.log) == 1 and around.log[0][0] == 'X1:' + name and
             around.log[0][1] is value and around.log[0][2] == kind)
    x.begin_update()
    vc.check('the copy is made once', And(len(around.log) == 1, x.shadow_subcircuit is copy))
    x.reset_netlist()
    vc.check('a reset drops the copy', And(x.shadow_subcircuit is None, x.was_modified is False))


@prove('C24', 'what is edited through an instance is what is in its own copy', [f'{MI}:SpiceCircuitInstance.set_component_value', f'{MI}:SpiceCircuitInstance.set_element_model',
       f'{MI}:SpiceCircuitInstance.set_component_parameters', f'{MI}:SpiceCircuitInstance.set_component_attribute', f'{MI}:SpiceCircuitInstance.set_component_values',
       f'{MI}:SpiceCircuitInstance.add_component', f'{MI}:SpiceCircuitInstance.remove_component', f'{MI}:SpiceCircuitInstance.__setitem__',
       f'{MI}:SpiceCircuitInstance.__getitem__', 'editor.base_subcircuit:BaseSubCircuitInstance.get_component',
       'editor.base_subcircuit:BaseSubCircuitInstance.get_component_value'], internal=True, conc=0)
def through(vc):
    if not vc.symbolic:
        return vc.assume(False)
    up0 = vc.mod('editor.updates')
    m, up, around, x = _instance(vc, up0.UpdatePermission.Inform)
    calls = []

    class Comp:
        def set_value(self, v):
            calls.append(('value', v))

        def set_parameters(self, **k):
            calls.append(('parameters', k))

        def __setattr__(self, k, v):
            calls.append(('attribute', k, v))

    comp = Comp()

    class Copy(_Circuit):
        def get_component(self, ref):
            calls.append(('get', ref))
            return comp

        def get_components(self, prefixes='*'):
            return ['R1', 'C1'] if prefixes == '*' else []

        def get_all_parameter_names(self):
            return ['GAIN']

        def __getattr__(self, name):
            if name.startswith('_'):
                raise AttributeError(name)
            return lambda *a, **k: calls.append((name, a, k)) or ('answer', name)
    copy = Copy('SUBC_X1', True)
    x._subcircuit, x.shadow_subcircuit = _Circuit('SUBC'), copy
    value = vc.real('value')
    cases = {'value': (lambda: x.set_component_value('R1', value), [('get', 'R1'), ('value', value)], None),
             'value by key': (lambda: x.__setitem__('R1', value), [('get', 'R1'), ('value', value)], None),
             'parameter by key': (lambda: x.__setitem__('GAIN', value), [('set_parameter', ('GAIN', value), {})], None),
             'model': (lambda: x.set_element_model('R1', 'mod'), [('get', 'R1'), ('value', 'mod')], None),
             'parameters': (lambda: x.set_component_parameters('R1', temp=value, m='2'), [('get', 'R1'), ('parameters', {'temp': value, 'm': '2'})], None),
             'attribute': (lambda: x.set_component_attribute('R1', 'note', 'text'), [('get', 'R1'), ('attribute', 'note', 'text')], None),
             'values': (lambda: x.set_component_values(R1=value, C1='1u'), [('set_component_values', (), {'R1': value, 'C1': '1u'})], None),
             'add': (lambda: x.add_component(comp, insert_before='R1'), [('add_component', (comp,), {'insert_before': 'R1'})], None),
             'remove': (lambda: x.remove_component('R1'), [('remove_component', ('R1',), {})], None),
             'read a component': (lambda: x['R1'], [('get', 'R1')], comp),
             'get a component': (lambda: x.get_component('X9:R1'), [('get', 'X9:R1')], comp),
             'read a parameter': (lambda: x['GAIN'], [('get_parameter', ('GAIN',), {})], ('answer', 'get_parameter')),
             'get a value': (lambda: x.get_component_value('R1'), [('get_component_value', ('R1',), {})], ('answer', 'get_component_value')),
             'get parameters': (lambda: x.get_component_parameters('R1'), [('get_component_parameters', ('R1',), {})], ('answer', 'get_component_parameters')),
             'get an attribute': (lambda: x.get_component_attribute('R1', 'note'), [('get_component_attribute', ('R1', 'note'), {})], ('answer', 'get_component_attribute')),
             'get nodes': (lambda: x.get_component_nodes('R1'), [('get_component_nodes', ('R1',), {})], ('answer', 'get_component_nodes')),
             'get a number': (lambda: x.get_component_floatvalue('R1'), [('get_component_floatvalue', ('R1',), {})], ('answer', 'get_component_floatvalue'))}
    which = vc.choice('what', sorted(cases))
    do, want, answer = cases[which]
    got = do()

    def eq(a, b):
        if type(a) is not type(b) and not (core.is_sym(a) or core.is_sym(b)):
            return False
        if isinstance(a, (tuple, list)):
            return len(a) == len(b) and all(eq(p, q) for p, q in zip(a, b))
        if isinstance(a, dict):
            return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
        return a is b or not core.is_sym(a) and not core.is_sym(b) and a == b
    vc.check('it is done on the copy of this instance, once', eq(calls, want))
    if answer is not None:
        vc.check('what is read is what the copy has', got is answer or got == answer)
    if which == 'values':
        vc.check('each value is recorded under the path of the instance', sorted((n, k.name) for n, v, k in around.log) == [('X1:C1', 'UpdateComponentValue'), ('X1:R1', 'UpdateComponentValue')])


class _Renamed(core.SymBase):
    """a text in which the name of the circuit was replaced"""

    def __init__(self, of, new, ended=False):
        self.of, self.new, self.ended = of, new, ended

    def __add__(self, end):
        if end != '\n' or self.ended:
            raise core.Unsupported('text after the line')
        return _Renamed(self.of, self.new, True)


class _Texts(RecordType):
    """the texts of statements; those that are made are numbered below zero"""

    def __init__(self, *a):
        super().__init__(*a)
        self.made = []

    def unwrap(self, v):
        if isinstance(v, SRef):
            return super().unwrap(v)
        if not isinstance(v, (str, _Renamed)):
            raise core.Unsupported('text of a statement')
        self.made.append(v)
        i = z3.IntVal(-len(self.made))
        if isinstance(v, _Renamed):
            core.eng().assume(core.wrap(z3.Select(core.eng().heap(self, 'cmd'), i)) == '.SUBCKT')
        return i


@prove('C24', 'renaming a circuit puts the new name in its first .SUBCKT line and in the .ENDS line that follows, and changes no other statement',
       [f'{MS}:SpiceCircuit.setname'], internal=True, conc=0)
def renaming(vc):
    if not vc.symbolic:
        return vc.assume(False)
    m = vc.mod(MS)
    text = _Texts('Text', {'cmd': core.StrK})
    text.pytypes = (str,)
    st = RecordType('Statement', {'_cls': IntK, '_obj': text, 'netlist': IntK})
    st.props = {'obj': lambda s: s._obj}
    st.classes = (str, m.Primitive, m.SpiceComponent, m.SpiceCircuitInstance, m.SpiceCircuit, m.ControlEditor, m.IncludeFile)
    net = vc.seq('netlist', st)
    n = vc.len(net)
    ed = m.SpiceCircuit.__new__(m.SpiceCircuit)
    ed.netlist = []
    new = 'AMP_X1'
    isa = lambda e, cls: Or([e._cls == i for i, c in enumerate(st.classes) if issubclass(c, cls)])
    made = []

    class Match:
        def __init__(self, t):
            self.t = t

        def start(self, k):
            return ('start', k, self.t)

        def end(self, k):
            return ('end', k, self.t)

    def txt(x):
        return x if x._rt is text else x._obj

    class Regex:
        @staticmethod
        def search(t):
            return Match(txt(t)) if bool(txt(t).cmd == '.SUBCKT') else None
        match = search

    def insert(line, start, end, name):
        vc.check('the name is what is replaced', And(start[:2] == ('start', 'name'), end[:2] == ('end', 'name'), name == new,
                                                     txt(line) == start[2], txt(line) == end[2]))
        return _Renamed(txt(line), new)

    def primitive(netlist=None, obj=None):
        vc.check('a new statement belongs to the circuit', netlist is ed)
        i = core.eng().fresh_int('made')
        s = st.wrap(to_z3(i))
        vc.assume(Forall(0, n, lambda j: at(net0, j) != s), *[x != s for x in made])
        s._cls, s._obj = 1, obj
        made.append(s)
        return s
    vc.stub(m._insert_section, '_insert_section: the part of the line is replaced', insert)
    vc.stub(m.Primitive, 'Primitive(): a statement with that text', primitive)
    vc.stub(m.get_line_command, 'get_line_command: the command a statement starts with', lambda x: txt(x).cmd)
    if vc.choice('empty', [True, False]):
        class Empty(list):
            pass
        vc.assume(n == 0)
        net0 = net.copy()
        ed.netlist = Empty()
        ed.setname(new)

        def number(x):
            """of the text that the statement was made with"""
            return next(-1 - k for k in range(len(text.made)) if core.eng().entails(x._obj._id == -1 - k))
        lines = [x if isinstance(x, str) else text.made[-number(x) - 1] for x in ed.netlist]
        vc.check('an empty circuit gets the two lines', [x.split() for x in lines if not x.startswith('*')] == [['.SUBCKT', new], ['.ENDS', new]])
        vc.check('each on a line of its own', all(x.endswith('\n') for x in lines if not x.startswith('*')))
        return
    vc.rep(ed, netlist=net)
    vc.assume(n > 0)
    net0 = net.copy()
    vc.assume(Forall(0, n, lambda i: And(at(net, i)._cls >= 0, at(net, i)._cls < len(st.classes))))
    vc.assume(Forall(0, n, lambda i: Forall(0, i, lambda j: at(net, i) != at(net, j))))
    vc.assume(Forall(0, n, lambda i: core.wrap(at(net, i)._obj._id >= 0)))
    old = core.eng().heap(st, '_obj')
    of = lambda e: text.wrap(z3.Select(old, e._id))
    head = lambda e: And(Or(isa(e, m.Primitive), e._cls == 0), of(e).cmd == '.SUBCKT')
    tail = lambda e: And(isa(e, m.Primitive), of(e).cmd == '.ENDS')
    # s is the first .SUBCKT line, e the first .ENDS line from there on (n when there is none)
    s, e = vc.int('s', 0), vc.int('e', 0)
    vc.assume(s <= n, Forall(0, s, lambda j: Not(head(at(net0, j)))), Or(s == n, head(at(net0, s))),
              s <= e, e <= n, Forall(s, e, lambda j: Not(tail(at(net0, j)))), Or(e == n, tail(at(net0, e))))
    vc.loop(f'{MS}:SpiceCircuit.setname#0', lambda L, i=None: [And(L.line_no >= 0, L.line_no <= s)], variant=lambda L, i=None: n - L.line_no)
    vc.loop(f'{MS}:SpiceCircuit.setname#1', lambda L, i=None: [And(L.line_no >= s, L.line_no <= e), s < n], variant=lambda L, i=None: n - L.line_no)
    regex = m.subckt_regex
    m.subckt_regex = Regex
    try:
        _, exc = vc.raises(lambda: ed.setname(new), m.MissingExpectedClauseError)
    finally:
        m.subckt_regex = regex
    if exc is not None:
        vc.check('refused only when one of the two lines is not there', Or(s == n, e == n))
        return
    vc.check('refused when one of the two lines is not there', And(s < n, e < n))
    vc.check('as many statements', vc.len(ed.netlist) == n)
    vc.check('every other statement is the same one', Forall(0, n, lambda j: Implies(j != s, at(ed.netlist, j) == at(net0, j))))
    now = core.eng().heap(st, '_obj')
    vc.check('with the same text', Forall(0, n, lambda j: Implies(And(j != s, j != e), core.wrap(z3.Select(now, at(net0, j)._id) == z3.Select(old, at(net0, j)._id)))))
    got = core.wrap(z3.Select(now, at(ed.netlist, s)._id))
    first = [k for k, x in enumerate(text.made) if isinstance(x, _Renamed) and x.ended]
    vc.check('the .SUBCKT line is the line with the new name', len(first) > 0 and And(got == -1 - first[-1], text.made[first[-1]].of == of(at(net0, s))))
    got = core.wrap(z3.Select(now, at(ed.netlist, e)._id))
    last = [k for k, x in enumerate(text.made) if isinstance(x, str) and x.split() == ['.ENDS', new] and x.endswith('\n')]
    vc.check('the .ENDS line has the new name', len(last) > 0 and got == -1 - last[-1])
