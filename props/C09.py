"""C09 - the record of edits tells exactly what changed."""
import copy
import io
import os
import types
import z3
from pyvc.api import *
from pyvc.core import EnumK, RecordType, SVal, SStr, SRef

M = 'editor.updates'
ASSUMPTIONS = ["values recorded in the list of updates are opaque values compared with =="]

SET_P = ('UpdateParameter', 'AddParameter')
SET_CP = ('UpdateComponentParameter', 'AddComponentParameter')


def setup(vc):
    U = vc.mod(M)
    K = EnumK(U.UpdateType)
    T = RecordType('Update', {'name': StrK, 'value': ValK, 'updates': K}, )
    T.pytypes = (U.Update,)
    ups = U.Updates()
    s = vc.seq('entries', T)
    vc.rep(ups, netlist_updates=s)
    return U, K, T, ups, s


def same_kind(U, a, b):
    ks = U.UpdateType
    r = [a == b]
    for fam in (SET_P, SET_CP):
        r.append(And(Or([a == ks[k] for k in fam]), Or([b == ks[k] for k in fam])))
    return Or(r)


def same_entry(U, n1, v1, k1, n2, v2, k2):
    """two recorded edits are edits of the same item"""
    return And(same(n1, n2), same_kind(U, k1, k2), Or(n1 != 'INSTRUCTION', v1 == v2))


def same(n1, n2):
    return n1.upper() == n2.upper()


def clean(n):
    """no item but the instructions is called INSTRUCTION in another case"""
    return Iff(n.upper() == 'INSTRUCTION', n == 'INSTRUCTION')


def invariant(vc, U, s, n=None):
    n = vc.len(s) if n is None else n
    E = core.eng()
    E.assume(SStr(z3.StringVal('INSTRUCTION')).upper() == 'INSTRUCTION')
    return [Forall(0, n, lambda i: Forall(0, i, lambda j: at(s, i) != at(s, j))),
            Forall(0, n, lambda i: clean(at(s, i).name)),
            Forall(0, n, lambda i: Forall(0, i, lambda j: Not(same_entry(
                U, at(s, i).name, at(s, i).value, at(s, i).updates, at(s, j).name, at(s, j).value, at(s, j).updates))))]


def add(vc, part):
    if not vc.symbolic:
        return vc.assume(False)
    U, K, T, ups, s = setup(vc)
    E = core.eng()
    name, value = vc.str('name'), SVal(z3.Const('value', ValK.sort))
    kind = vc.choice('kind', [k for i, k in enumerate(U.UpdateType) if i % PARTS == part])
    vc.assume(*invariant(vc, U, s))
    vc.assume(clean(name))
    new = SRef(T, z3.Int('new'))
    vc.assume(Forall(0, vc.len(s), lambda j: at(s, j) != new))

    def make(n, v, k=U.UpdateType.InvalidUpdate):
        new.name, new.value, new.updates = n, v, k
        return new
    vc.stub(U.Update, 'Update(name, value, kind): a new record', make)
    invalid = kind is U.UpdateType.InvalidUpdate

    def match(e):
        return And(same(e.name, name), Or(name != 'INSTRUCTION', e.value == value),
                   True if invalid else same_kind(U, e.updates, kind))
    old = s.copy()
    n0 = vc.len(s)
    before = {f: E.heap(T, f) for f in T.fields}

    def was(i, f):
        return T.fields[f].wrap(z3.Select(before[f], z3.Select(old.arr, to_z3(i))))
    vc.loop(f'{M}:Updates.add_update#0', lambda L, i: [Forall(0, i, lambda j: Not(match(at(old, j))))])
    hit_before = [Forall(0, n0, lambda j: Not(And(same(was(j, 'name'), name), Or(name != 'INSTRUCTION', was(j, 'value') == value),
                                                  True if invalid else same_kind(U, was(j, 'updates'), kind))))]
    r = ups.add_update(name, value, kind)
    s = ups.netlist_updates
    vc.check('the entry returned names the item', same(r.name, name))
    vc.check('the entry holds the latest value', r.value == value)
    if not invalid:
        vc.check('the entry tells the latest kind of edit', r.updates == kind)
    grown = vc.len(s) == n0 + 1
    vc.check('the list grows by at most one', Or(grown, vc.len(s) == n0))
    vc.check('entries keep their position', Forall(0, n0, lambda j: at(s, j) == at(old, j)))
    vc.check('other entries are unchanged', Forall(0, n0, lambda j: Or(
        at(s, j) == r, And(at(s, j).name == was(j, 'name'), at(s, j).value == was(j, 'value'),
                           at(s, j).updates == was(j, 'updates')))))
    if bool(grown):
        vc.check('a new item goes to the end', at(s, n0) == r)
        vc.check('only an item that was not there is added', hit_before)
    else:
        vc.check('the entry of the item is one of the list', Not(r == new))
    vc.check('names do not change', Forall(0, n0, lambda j: at(s, j).name == was(j, 'name')))
    for k, c in zip(('records', 'names', 'items'), invariant(vc, U, s)):
        vc.check(f'no two entries for the same item ({k})', c)


PARTS = 7
for _part in range(PARTS):
    prove('C09', f'add_update: one entry per item, latest value, first-edit order (kinds {_part} modulo {PARTS})',
          ['editor.updates:Updates.add_update', 'editor.updates:_same_item'], internal=True, conc=0)(
        lambda vc, part=_part: add(vc, part))


@prove('C09', 'value and parameter return the value last set and None when there is none',
       ['editor.updates:Updates.value', 'editor.updates:Updates.parameter'], internal=True, conc=0)
def look(vc):
    if not vc.symbolic:
        return vc.assume(False)
    U, K, T, ups, s = setup(vc)
    ks = U.UpdateType
    vc.assume(*invariant(vc, U, s))
    name = vc.str('name')
    vc.assume(name != 'INSTRUCTION', clean(name))
    which = vc.choice('lookup', ['value', 'parameter'])
    kinds = [ks.UpdateComponentValue] if which == 'value' else [ks[k] for k in SET_P]

    def hit(j):
        e = at(s, j)
        return And(same(e.name, name), Or([e.updates == k for k in kinds]))
    vc.loop(f'{M}:Updates.{which}#0', lambda L, i: [Forall(0, i, lambda j: Not(hit(j)))])
    r = getattr(ups, which)(name)
    if r is None:
        vc.check('None only when the item was never set', Forall(0, vc.len(s), lambda j: Not(hit(j))))
    else:
        # by the invariant there is at most one entry of the item
        vc.check('the value is the one of the entry of the item', Forall(0, vc.len(s), lambda j: Implies(hit(j), at(s, j).value == r)))
        j = core.eng().fresh_int('j')
        no = Forall(0, vc.len(s), lambda j: Not(hit(j)))
        core.eng().assume(no)
        vc.check('a value is returned only for an item that was set', False)


@prove('C09', 'look-up by name, by position and by prefix', ['editor.updates:Updates.__getitem__',
                                                            'editor.updates:Updates.updates_on'], internal=True, conc=0)
def byname(vc):
    if not vc.symbolic:
        return vc.assume(False)
    U, K, T, ups, s = setup(vc)
    name = vc.str('name')
    vc.loop(f'{M}:Updates.__getitem__#0', lambda L, i: [Forall(0, i, lambda j: Not(same(at(s, j).name, name)))])
    r, e = vc.raises(lambda: ups[name], IndexError)
    if e is None:
        vc.check('the entry has that name', same(r.name, name))
    else:
        vc.check('an unknown name raises', Forall(0, vc.len(s), lambda j: Not(same(at(s, j).name, name))))
    on = ups.updates_on(name)
    own = lambda x: Or(same(x.name, name), x.name.upper().startswith(name.upper() + ':'))
    vc.check('updates_on gives only entries of the item', Forall(0, vc.len(on), lambda j: own(at(on, j))))
    if hasattr(on, 'inv'):
        vc.check('updates_on gives every entry of the item', Forall(0, vc.len(s), lambda j: Implies(
            own(at(s, j)), at(on, wrap(z3.Select(on.inv, to_z3(j)))) == at(s, j))))


@prove('C09', 'clear and reset empty the list', ['editor.updates:Updates.clear', 'editor.base_editor:BaseEditor.reset_netlist',
                                               'editor.updates:Updates.__len__'], internal=True, conc=0)
def clear(vc):
    if not vc.symbolic:
        return vc.assume(False)
    U, K, T, ups, s = setup(vc)
    if vc.choice('how', ['clear', 'reset']) == 'clear':
        ups.clear()
    else:
        B = vc.mod('editor.base_editor').BaseEditor
        ed = type('Ed', (), {'netlist_updates': ups, 'update_permission': None})()
        B.reset_netlist(ed)
    vc.check('the list is empty', ups.__len__() == 0)
    vc.check('nothing is left to look up', ups.value('R1') is None and ups.parameter('x') is None)


# ---------------------------------------------------------------------------------------------------------------
# bounded: the list itself, and the editors that write it
# ---------------------------------------------------------------------------------------------------------------

class Model:
    """reference: ordered list of [family, name, value, kind]"""

    def __init__(self):
        self.e = []

    @staticmethod
    def item(name, value, kind):
        fam = 'set-p' if kind in SET_P else 'set-cp' if kind in SET_CP else kind
        return (fam, name.upper(), value if name == 'INSTRUCTION' else None)

    def add(self, name, value, kind):
        it = self.item(name, value, kind)
        for x in self.e:
            if x[0] == it:
                x[2:] = [value, kind]
                return
        self.e.append([it, name, value, kind])


@bounded('C09', 'sequences of updates against an independent record', ['editor.updates:Updates.add_update',
         'editor.updates:Updates.value', 'editor.updates:Updates.parameter', 'editor.updates:Updates.updates_on',
         'editor.updates:Updates.__copy__'])
def sequences(bx):
    U = bx.mod(M)
    KS = [k for k in U.UpdateType if k.value != 0]
    for r in bx.each(3000, 40000):
        names = ['R1', 'R10', 'R1:Tc1', 'X1', 'X1:R1', 'TEMP', 'temp', 'INSTRUCTION', '']
        kinds = r.sample(KS, r.randint(1, len(KS)))
        ups, m, log = U.Updates(), Model(), []
        snap = None
        for _ in range(r.randint(1, 25)):
            n = r.choice(names)
            k = r.choice(kinds)
            v = r.choice([1, 2.5, '10k', None, 0, '.tran 1', '.ac dec 1 1 1'])
            log.append((n, v, k.name))
            if r.random() < .03:
                ups.clear()
                m = Model()
                bx.check(len(ups) == 0 and list(ups) == [], 'cleared list is empty', log)
            if r.random() < .1:
                snap = (copy.copy(ups), [(e.name, e.value, e.updates.name) for e in ups])
            e = ups.add_update(n, v, k)
            m.add(n, v, k.name)
            bx.check(e.name.upper() == n.upper() and e.value == v and e.updates == k, 'the entry returned is the edit', log)
            got = [(e.name, e.value, e.updates.name) for e in ups]
            want = [tuple(x[1:]) for x in m.e]
            bx.check(got == want, 'one entry per item, latest value, first-edit order', (log, got, want))
        for n in names + ['nosuch']:
            vals = [x[2] for x in m.e if x[1].upper() == n.upper() and x[3] == 'UpdateComponentValue']
            bx.check(ups.value(n) == (vals[0] if vals else None), 'value()', (log, n, ups.value(n), vals))
            if n != 'INSTRUCTION':
                vals = [x[2] for x in m.e if x[1].upper() == n.upper() and x[3] in SET_P]
                bx.check(ups.parameter(n) == (vals[0] if vals else None), 'parameter()', (log, n, ups.parameter(n), vals))
            hits = [tuple(x[1:]) for x in m.e if x[1].upper() == n.upper() or x[1].upper().startswith(n.upper() + ':')]
            bx.check([(e.name, e.value, e.updates.name) for e in ups.updates_on(n)] == hits, 'updates_on()', (log, n))
            first = [tuple(x[1:]) for x in m.e if x[1].upper() == n.upper()]
            try:
                e = ups[n]
                bx.check(first and (e.name, e.value, e.updates.name) == first[0], 'look-up by name', (log, n))
            except IndexError:
                bx.check(not first, 'look-up by name raises', (log, n))
        if snap:
            bx.check([(e.name, e.value, e.updates.name) for e in snap[0]] == snap[1], 'a copy is independent', log)
        bx.done(tuple(log))


# --- editors

def norm(v):
    from spicelib.utils.float_unit import format_eng
    return format_eng(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v


class Story:
    """what the harness did to an editor: values, parameters, component parameters, removals, instructions"""

    def __init__(self):
        self.order = []      # items in the order of their first edit
        self.last = {}

    def did(self, item, value=None):
        item = (item[0], item[1] if item[0] in ('instr+', 'DeleteInstruction') else item[1].upper())
        if item not in self.last:
            self.order.append(item)
        self.last[item] = norm(value)


def family(e):
    k = e.updates.name
    return ('param' if k in SET_P else 'cparam' if k in SET_CP else 'value' if k == 'UpdateComponentValue' else
            'instr+' if k in ('AddInstruction', 'UpdateInstruction') else k)


def judge(bx, ed, st, refs, params, log):
    ups = ed.netlist_updates
    rows = [((family(e), e.name.upper()) if e.name != 'INSTRUCTION' else (family(e), e.value), norm(e.value)) for e in ups]
    keys = [k for k, _ in rows]
    bx.check(len(set(keys)) == len(keys), 'one entry per edited item', (log, keys))
    got = {k: v for k, v in rows}
    for it in st.order:
        bx.check(it in got, 'every edit is recorded', (log, it, rows))
        if it[0] in ('param', 'cparam', 'value'):
            bx.check(got.get(it) == st.last[it], 'the entry holds the latest value', (log, it, got.get(it), st.last[it]))
    bx.check([k for k in keys if k in st.last] == st.order, 'order of the first edits', (log, keys, st.order))
    extra = [k for k in keys if k not in st.last and k[0] not in ('CloneSubcircuit', 'DeleteInstruction')
             and not (k[0] == 'value' and k[1][0] == 'X')]
    bx.check(not extra, 'nothing else is recorded', (log, extra))
    for ref in refs:
        v = norm(ups.value(ref))
        w = st.last.get(('value', ref.upper()))
        if ref[0] == 'X' and ':' not in ref and w is None:
            continue
        bx.check(v == w, 'value() of a component', (log, ref, v, w))
    for p in params:
        bx.check(norm(ups.parameter(p)) == st.last.get(('param', p.upper())), 'parameter()', (log, p, ups.parameter(p)))


VALUES = ['1k', 10, 2.2e-6, '{res*2}', 4700.0, '100n', 0]


@bounded('C09', 'edits of a SPICE netlist are recorded', ['editor.spice_subcircuit:SpiceCircuit.set_component_value',
         'editor.spice_components:SpiceComponent.set_value', 'editor.spice_components:SpiceComponent.set_parameter',
         'editor.spice_subcircuit:SpiceCircuit.set_parameter', 'editor.spice_file:SpiceFile.add_instruction',
         'editor.spice_file:SpiceFile.remove_instruction', 'editor.spice_subcircuit:SpiceCircuit.remove_component',
         'editor.spice_subcircuit_instance:SpiceCircuitInstance.end_update', 'editor.spice_file:SpiceFile.reset_netlist'])
def spice(bx):
    from . import netgen
    E = bx.mod('editor.spice_editor')
    SC = bx.mod('editor.spice_components').SpiceComponent
    d = bx.dir()
    for r in bx.each(400, 4000):
        net = netgen.netlist(r)
        f = os.path.join(d, 'a.net')
        with open(f, 'w') as fh:
            fh.write(net.text())
        ed = E.SpiceEditor(f)
        st, log = Story(), [net.text()]
        tops = [s['ref'] for s in net.comps()]
        val = [x for x in tops if x[0] in 'RLCVIDQMEB']
        xs = [s for s in net.comps() if s['ref'][0] == 'X']
        pars = list(net.params) + ['newp', 'newq']
        insts = ['.meas a MAX V(x)', '.save V(zz)', '.option x=1', '.tran 5m', '.ac dec 3 1 10']
        alive = list(val)
        present = {}
        ctl = []
        for _ in range(r.randint(1, 12)):
            op = r.choice(['value', 'value', 'param', 'param', 'cparam', 'model', 'sub', 'add', 'rem', 'del', 'reset', 'obj', 'unparam', 'many', 'ctl', 'remx', 'new'])
            v = r.choice(VALUES)
            if op == 'reset' and r.random() < .7:
                continue
            if op in ('value', 'obj') and alive:
                c = r.choice(alive)
                log.append((op, c, v))
                if op == 'value':
                    ed.set_component_value(c, v)
                else:
                    ed[c].value = v
                st.did(('value', c), v)
            elif op == 'model' and alive:
                c = r.choice(alive)
                log.append((op, c))
                ed.set_element_model(c, 'NEWM')
                st.did(('value', c), 'NEWM')
            elif op == 'param':
                p = r.choice(pars)
                log.append((op, p, v))
                ed.set_parameter(p, v)
                st.did(('param', p), v)
            elif op == 'unparam':
                p = r.choice(pars)
                there = p.upper() in [q.upper() for q in ed.get_all_parameter_names()]
                log.append((op, p))
                ed.set_parameter(p, None)
                if there:
                    st.did(('DeleteParameter', p))
            elif op == 'many':
                some = {p: r.choice(VALUES) for p in r.sample(pars, min(len(pars), r.randint(1, 3)))}
                more = {c: r.choice(VALUES) for c in r.sample(alive, min(len(alive), r.randint(1, 3)))}
                log.append((op, some, more))
                ed.set_parameters(**some)
                ed.set_component_values(**more)
                for p, v in some.items():
                    st.did(('param', p), v)
                for c, v in more.items():
                    st.did(('value', c), v)
            elif op == 'ctl':
                t = r.choice(['.control\nrun\n.endc', '.control\nplot a\n.endc'])
                log.append((op, t))
                if t not in ctl:
                    ed.add_control_section(t)
                    ctl.append(t)
                    st.did(('instr+', t), t)
                else:
                    bx.check(ed.remove_control_section(ctl.index(t)) is True, 'the control section is removed', log)
                    ctl.remove(t)
                    dels = [e.value for e in ed.netlist_updates if e.updates.name == 'DeleteInstruction']
                    bx.check(any(x.replace('\\n', '\n').strip() == t for x in dels), 'the removal of a control section is recorded', (log, dels))
            elif op == 'new':
                c, how = f'R{900 + len(st.order)}', r.choice(['parts', 'parts here', 'text', 'clone', 'clone of another'])
                if c in alive:
                    continue
                log.append((op, c, how))
                if how == 'clone' and any(x[0] == 'R' for x in alive):
                    new = ed[next(x for x in alive if x[0] == 'R')].clone()
                    new.reference = c
                elif how == 'clone of another':
                    with open(os.path.join(d, 'b.net'), 'w') as fh:
                        fh.write('* x\nR1 a b 1k tc1=2\n.end\n')
                    other = E.SpiceEditor(os.path.join(d, 'b.net'))
                    new = other['R1'].clone()
                    new.reference = c
                elif how == 'text':
                    new = SC(obj=f'{c} a b 1k\n')
                else:
                    new = SC(netlist=ed if how == 'parts here' else None, obj='', reference=c, ports=['a', 'b'], value='1k')
                ed.add_component(new)
                st.did(('AddComponent', c))
                alive.append(c)
                if r.random() < .7:
                    r.choice([lambda: ed.set_component_value(c, v), lambda: setattr(new, 'value', v)])()
                    st.did(('value', c), v)
                if how == 'clone of another':
                    bx.check(len(other.netlist_updates) == 0, 'an edit is recorded by the circuit that has the component', (log, list(other.netlist_updates)))
            elif op == 'remx' and present:
                p = r.choice([r'\.meas a', r'\.save V\(zz', r'\.(meas a|save V\(zz|option x)'])
                import re
                hit = [i for i in present if re.match(p, i)]
                log.append((op, p))
                bx.check(ed.remove_Xinstruction(p) is bool(hit), 'instructions found by pattern', log)
                for i in hit:
                    del present[i]
                    st.did(('DeleteInstruction', i), i)
            elif op == 'cparam' and alive:
                c = r.choice([x for x in alive if x[0] in 'RLCQM'] or [None])
                if c is None:
                    continue
                p = r.choice(['tc1', 'ic', 'newpar'])
                if r.random() < .2:
                    if p not in ed.get_component_parameters(c):
                        continue
                    log.append(('del-cparam', c, p))
                    ed.set_component_parameters(c, **{p: None})
                    st.did(('DeleteComponentParameter', f'{c}:{p}'))
                else:
                    log.append((op, c, p, v))
                    ed.set_component_parameters(c, **{p: v})
                    st.did(('cparam', f'{c}:{p}'), v)
            elif op == 'sub' and xs:
                x = r.choice(xs)
                inner = [s['ref'] for s in net.subs[x['value']]['st'] if s['kind'] == 'comp' and s['ref'][0] in 'RCL']
                c = f"{x['ref']}:{r.choice(inner)}".upper()
                log.append((op, c, v))
                ed.set_component_value(c, v)
                st.did(('value', c), v)
            elif op == 'add':
                i = r.choice(insts)
                if i in present or (i[1:3] in ('tr', 'ac') and (any(k[1:3] in ('tr', 'ac') for k in present) or
                                                               any(s['kind'] == 'unique' for s in net.st))):
                    continue
                log.append((op, i))
                ed.add_instruction(i)
                present[i] = 1
                st.did(('instr+', i), i)
            elif op == 'rem' and present:
                i = r.choice(list(present))
                log.append((op, i))
                bx.check(ed.remove_instruction(i) is True, 'the instruction is removed', log)
                del present[i]
                st.did(('DeleteInstruction', i), i)
            elif op == 'del' and len(alive) > 1:
                c = r.choice(alive)
                alive.remove(c)
                log.append((op, c))
                ed.remove_component(c)
                st.did(('DeleteComponent', c))
            elif op == 'reset':
                log = log[:1] + [(op,)]
                ed.reset_netlist()
                bx.check(len(ed.netlist_updates) == 0, 'a reset empties the list', log)
                st, present, alive, ctl = Story(), {}, list(val), []
        judge(bx, ed, st, tops + ['R98'] + [f"{x['ref']}:R99" for x in xs], pars + ['other'], log)
        ed.reset_netlist()
        bx.check(len(ed.netlist_updates) == 0 and ed.netlist_updates.value('R1') is None, 'a reset empties the list', log)
        bx.done(str(log))


def sheets(bx, Editor, ext):
    """edits of a schematic, of any kind, in any order"""
    from . import ascgen, qschgen
    d = bx.dir()
    ascgen.library(d)
    f = os.path.join(d, 'a.' + ext)
    for r in bx.each(400, 6000):
        if ext == 'asc':
            sh = ascgen.Sheet(r, block=False)
            with open(f, 'w', encoding='utf-8') as h:
                h.write(sh.text())
            refs = [s.ref for s in sh.syms if 'Value' in s.attrs]
            names = ['Rser', 'temp', 'tc', 'x', 'newone', 'Value2', 'SpiceModel', 'Cpar']
        else:
            sh = qschgen.Sheet(r)
            sh.write(f, r)
            refs = list(sh.comps)
            names = ['Rser', 'tc1', 'ic', 'm', 'temp', 'new1', 'W']
        ed = Editor(f)
        st, log = Story(), []
        alive = list(refs)
        pars = ['a', 'b', 'q', 'TEMP', 'temp', 'fresh']
        here = []
        for _ in range(r.randint(1, 12)):
            op = r.choice(['value', 'value', 'many', 'param', 'param', 'cparam', 'cparam', 'model', 'add', 'rem', 'del', 'reset', 'remx', 'pos', 'save'])
            v = r.choice(VALUES)
            c = r.choice(alive) if alive else None
            if op == 'value' and c:
                log.append((op, c, v))
                r.choice([lambda: ed.set_component_value(c, v), lambda: setattr(ed[c], 'value', v), lambda: ed.set_component_values(**{c: v}),
                          lambda: ed.get_component(c).set_value(v)])()
                st.did(('value', c), v)
            elif op == 'many':
                some = {p: r.choice(VALUES) for p in r.sample(pars[:3] + ['temp'], r.randint(1, 3))}
                more = {k: r.choice(VALUES) for k in r.sample(alive, min(len(alive), r.randint(0, 3)))}
                log.append((op, some, more))
                ed.set_parameters(**some)
                ed.set_component_values(**more)
                for p, x in some.items():
                    st.did(('param', p), x)
                for k, x in more.items():
                    st.did(('value', k), x)
            elif op == 'param':
                p = r.choice(pars)
                log.append((op, p, v))
                ed.set_parameter(p, v)
                st.did(('param', p), v)
            elif op == 'cparam' and c:
                some = {}
                for k in r.sample(names, r.choice([1, 1, 2, 3])):
                    some[k] = r.choice([None, v, 12, '{zz}'])
                log.append((op, c, some))
                for k, x in some.items():
                    if x is None and k in ed.get_component_parameters(c):
                        st.did(('DeleteComponentParameter', f'{c}:{k}'))
                    elif x is not None:
                        st.did(('cparam', f'{c}:{k}'), x)
                ed.set_component_parameters(c, **some)
            elif op == 'model' and c:
                log.append((op, c))
                ed.set_element_model(c, 'NEWM')
                st.did(('value', c), 'NEWM')
                if ext == 'asc':
                    alive.remove(c)  # the symbol there is no file of
            elif op == 'add':
                i = r.choice(['.meas a MAX V(x)', '.save V(zz)', '.option x=1', '.tran 5m', '.ac dec 3 1 10'])
                if i in here:
                    continue
                log.append((op, i))
                ed.add_instruction(i)
                if i[1:3] in ('tr', 'ac'):
                    here = [x for x in here if x[1:3] not in ('tr', 'ac')]
                here.append(i)
                st.did(('instr+', i), i)
            elif op == 'rem' and here:
                i = r.choice(here)
                log.append((op, i))
                bx.check(ed.remove_instruction(i) is True, 'the instruction is removed', log)
                here.remove(i)
                st.did(('DeleteInstruction', i), i)
            elif op == 'remx' and here:
                i = r.choice([x for x in here])
                log.append((op, i))
                bx.check(ed.remove_Xinstruction(i.replace('(', '.').replace(')', '.')) is True, 'instructions found by pattern', log)
                here.remove(i)
                st.did(('DeleteInstruction', i), i)
            elif op == 'del' and len(alive) > 1:
                log.append((op, c))
                alive.remove(c)
                ed.remove_component(c)
                st.did(('DeleteComponent', c))
            elif op == 'pos' and c:
                ed.set_component_position(c, (1, 2) if ext == 'qsch' else ed.get_component_position(c)[0], 0 if ext == 'qsch' else ed.get_component_position(c)[1])
            elif op == 'save':
                ed.save_netlist(os.path.join(d, 'out.' + ext))
            elif op == 'reset' and r.random() < .3:
                log = [(op,)]
                ed.reset_netlist()
                bx.check(len(ed.netlist_updates) == 0, 'a reset empties the list', log)
                st, here, alive = Story(), [], list(refs)
        judge(bx, ed, st, refs + ['R98'], pars + ['other'], log)
        ed.reset_netlist()
        bx.check(len(ed.netlist_updates) == 0 and ed.netlist_updates.value('R1') is None, 'a reset empties the list', log)
        bx.done(str(log))


@bounded('C09', 'edits of an LTspice schematic are recorded', ['editor.asc_editor:AscComponent.set_value', 'editor.asc_editor:AscComponent.set_parameters',
         'editor.asc_editor:AscEditor.set_parameter', 'editor.asc_editor:AscEditor.add_instruction', 'editor.asc_editor:AscEditor.remove_instruction',
         'editor.asc_editor:AscEditor.remove_Xinstruction', 'editor.asc_editor:AscEditor.remove_component', 'editor.asc_editor:AscEditor.reset_netlist',
         'editor.base_schematic:BaseSchematic.end_update'])
def asc(bx):
    sheets(bx, bx.mod('editor.asc_editor').AscEditor, 'asc')


@bounded('C09', 'edits of a QSPICE schematic are recorded', ['editor.qsch_editor:QschComponent.set_model', 'editor.qsch_editor:QschComponent._set_parameters',
         'editor.qsch_editor:QschEditor.set_parameter', 'editor.qsch_editor:QschEditor.add_instruction', 'editor.qsch_editor:QschEditor.remove_instruction',
         'editor.qsch_editor:QschEditor.remove_Xinstruction', 'editor.qsch_editor:QschEditor.remove_component', 'editor.qsch_editor:QschEditor.reset_netlist',
         'editor.base_schematic:BaseSchematic.end_update'])
def qsch(bx):
    sheets(bx, bx.mod('editor.qsch_editor').QschEditor, 'qsch')


# ------------------------------------------------------------------------------------------------
# The setters of the components of a schematic: one record per item that changed, with the value it was set to, and
# nothing else of the component changes.
AE, QE = 'editor.asc_editor', 'editor.qsch_editor'


class _Sheet:
    """the schematic that a component belongs to: it grants or denies the edit and takes down what is recorded"""

    def __init__(self, up, perm):
        self.up, self.perm, self.log, self.open, self.canvas_updated = up, perm, [], False, False

    def begin_update(self):
        self.open = True
        return self.perm

    def end_update(self, name, value, kind):
        if not self.open:
            raise core.Unsupported('an edit that was not asked for')
        if self.perm == self.up.UpdatePermission.Inform:
            self.log.append((name, value, kind))


def _value(vc, mod, label, none=False):
    """a value to set, and the text it is written as"""
    kind = vc.choice(label, ['a text', 'a number'] + (['none'] if none else []))
    if kind == 'none':
        return None, None
    if kind == 'a text':
        return '{z*2}', '{z*2}'
    x = vc.real(label)

    def formatted(v, *a, **k):
        if a or k or v is not x:
            raise core.Unsupported('the text of something else')
        return '47.25f'
    vc.stub(mod.format_eng, 'format_eng: the text of a number (C05)', formatted)
    return x, '47.25f'


def _recorded(vc, up, log, want):
    """exactly these edits, under these names: texts of values are those written, or the values set"""
    vc.check('one record for each item that changed, and no other', [(n, k) for n, v, k in log] == [(n, k) for n, t, v, k in want])
    for (n, v, k), (_, text, value, _) in zip(log, want):
        if k != up.UpdateType.DeleteComponentParameter:
            vc.check('recorded with the value it was set to', v is value or isinstance(v, str) and v == text)


def _asc(vc):
    mod, up = vc.mod(AE), vc.mod('editor.updates')
    sheet = _Sheet(up, vc.choice('permission', [up.UpdatePermission.Inform, up.UpdatePermission.Deny]))
    c = mod.AscComponent(sheet, '')
    c.reference, c.symbol = 'R1', 'res'
    return mod, up, sheet, c


@prove('C09', 'the value of a component of an LTspice schematic', [f'{AE}:AscComponent.set_value'], internal=True, conc=0)
def asc_value(vc):
    if not vc.symbolic:
        return vc.assume(False)
    mod, up, sheet, c = _asc(vc)
    base = {'Value': '1k', 'SpiceLine': 'temp=25', 'Value2': 'x'} if vc.choice('has a value', [True, False]) else {'SpiceLine': 'temp=25'}
    c.attributes.update(base)
    value, text = _value(vc, mod, 'value')
    _, e = vc.raises(lambda: c.set_value(value), Exception)
    if isinstance(e, core.Unsupported):
        raise e
    if 'Value' not in base or sheet.perm == up.UpdatePermission.Deny:
        vc.check('refused, and nothing changes', And(e is not None, dict(c.attributes) == base, sheet.log == []))
        return
    vc.check('accepted', e is None)
    vc.check('the value is set, and nothing else changes', And(dict(c.attributes) == {**base, 'Value': text}, c.reference == 'R1', c.symbol == 'res'))
    _recorded(vc, up, sheet.log, [('R1', text, value, up.UpdateType.UpdateComponentValue)])


def _line(pairs):
    return ' '.join(f'{n}={t}' for n, t in pairs)


@prove('C09', 'the parameters of a component of an LTspice schematic', [f'{AE}:AscComponent.set_parameters', f'{AE}:AscComponent.set_parameter'],
       internal=True, conc=0)
def asc_params(vc):
    if not vc.symbolic:
        return vc.assume(False)
    mod, up, sheet, c = _asc(vc)
    U = up.UpdateType
    base = {'Value': '1k'}
    lines = {'SpiceLine': vc.choice('SpiceLine', [[], [('Rser', '1')], [('temp', '{t+1}'), ('Rser', '1m'), ('tc', '1,2')]]),
             'SpiceLine2': vc.choice('SpiceLine2', [[], [('Cpar', '"a b"'), ('aRser', '3'), ('m', '2')]])}
    for k, p in lines.items():
        if p:
            base[k] = _line(p)
    if vc.choice('second value', [True, False]):
        base['Value2'] = 'x'
    c.attributes.update(base)
    two = vc.choice('number of parameters', [1, 2])
    keys = vc.choice('parameters', [['Rser', 'm'], ['new', 'Value2'], ['Value2', 'tc'], ['Value', 'new'], ['m', 'temp'], ['SpiceModel', 'Cpar'], ['Rser', 'tc']])[:two]
    first, text = _value(vc, mod, 'value', none=True)
    vals = [(first, text), vc.choice('other value', [(' 7 ', '7'), (None, None)])][:two]
    want, attrs, lines = [], {k: v for k, v in base.items() if k not in lines}, {k: list(p) for k, p in lines.items()}
    for k, (v, t) in zip(keys, vals):
        if k in mod.LTSPICE_PARAMETERS:
            if t is not None:
                attrs[k] = t
                want.append((f'R1:{k}', t, v, U.UpdateComponentParameter))
            elif k != 'Value' and k in attrs:
                del attrs[k]
                want.append((f'R1:{k}', t, v, U.DeleteComponentParameter))
            continue
        there = [l for l in lines if any(n == k for n, _ in lines[l])]
        for l in there:
            lines[l] = [(n, t if n == k else x) for n, x in lines[l] if n != k or t is not None]
        if there:
            want.append((f'R1:{k}', t, v, U.DeleteComponentParameter if t is None else U.UpdateComponentParameter))
        elif t is not None:
            lines['SpiceLine'].append((k, t))
            want.append((f'R1:{k}', t, v, U.AddComponentParameter))
    one = two == 1 and vc.choice('one by one', [True, False])
    _, e = vc.raises(lambda: c.set_parameter(keys[0], vals[0][0]) if one else c.set_parameters(**{k: v for k, (v, t) in zip(keys, vals)}), PermissionError)
    if sheet.perm == up.UpdatePermission.Deny:
        vc.check('refused, and nothing changes', And(e is not None, dict(c.attributes) == base, sheet.log == []))
        return
    vc.check('accepted', e is None)
    got = {k: v for k, v in c.attributes.items() if k not in lines}
    vc.check('no other attribute changes', got == attrs)
    for l, p in lines.items():
        vc.check('each parameter of a line has the value it was set to, and the others keep theirs', ' '.join(c.attributes.get(l, '').split()) == _line(p))
    fam = {U.AddComponentParameter: U.UpdateComponentParameter}
    vc.check('one record for each item that changed, and no other', [(n, fam.get(k, k)) for n, v, k in sheet.log] == [(n, fam.get(k, k)) for n, t, v, k in want])
    for (n, v, k), (_, text, value, _) in zip(sheet.log, want):
        if k != U.DeleteComponentParameter:
            vc.check('recorded with the value it was set to', v is value or isinstance(v, str) and v.strip() == text)


def _qsch(vc, texts):
    mod, up = vc.mod(QE), vc.mod('editor.updates')
    sheet = _Sheet(up, vc.choice('permission', [up.UpdatePermission.Inform, up.UpdatePermission.Deny]))
    body = ''.join('«text (0,%d) 1 7 0 0x1000000 -1 -1 "%s"»' % (100 * i, t) for i, t in enumerate(texts))
    tag, _ = mod.QschTag.parse('«component (0,0) 0 0\n«symbol R\n«type: R»\n%s\n«pin (0,200) (0,0) 1 0 0 0x0 -1 "1"»\n«pin (0,-200) (0,0) 1 0 0 0x0 -1 "2"»\n»\n»' % body)
    c = mod.QschComponent(sheet, tag)
    c.reference = 'R1'
    c.attributes['value'] = texts[1]
    return mod, up, sheet, c


def _texts(mod, c):
    return [t.get_attr(mod.QSCH_TEXT_STR_ATTR) for t in c.symbol_tag.get_items('text')]


def _rest(c):
    return [str(t) for t in c.symbol_tag.items if t.tag != 'text'], [t.tag for t in c.tag.items]


@prove('C09', 'the value of a component of a QSPICE schematic', [f'{QE}:QschComponent.set_value', f'{QE}:QschComponent.set_model'], internal=True, conc=0)
def qsch_value(vc):
    if not vc.symbolic:
        return vc.assume(False)
    texts = ['R1', vc.choice('value before', ['1k', 'mod W=1']), 'tc=1']
    mod, up, sheet, c = _qsch(vc, texts)
    value, text = _value(vc, mod, 'value')
    rest = _rest(c)
    _, e = vc.raises(lambda: c.set_value(value), PermissionError)
    vc.check('the rest of the component stays', _rest(c) == rest)
    if sheet.perm == up.UpdatePermission.Deny:
        vc.check('refused, and nothing changes', And(e is not None, _texts(mod, c) == texts, sheet.log == []))
        return
    vc.check('accepted', e is None)
    vc.check('the value is set, and no other text changes', And(_texts(mod, c) == [texts[0], text, texts[2]], c.attributes['value'] == text))
    _recorded(vc, up, sheet.log, [('R1', text, value, up.UpdateType.UpdateComponentValue)])


@prove('C09', 'the parameters of a component of a QSPICE schematic', [f'{QE}:QschComponent._set_parameters', f'{QE}:QschComponent.set_parameters',
                                                                     f'{QE}:QschComponent.set_parameter'], internal=True, conc=0)
def qsch_params(vc):
    """texts of a few kinds; a parameter by its name, by the number of its text, or a new one"""
    if not vc.symbolic:
        return vc.assume(False)
    head = vc.choice('value', [('1k', []), ('mod', [('W', '1u'), ('L', '{l}')])])
    more = vc.choice('texts', [[], [[('tc1', '1m')]], [[('m', '2'), ('W2', '3')], [('tc1', '{a b}')]]])
    texts = ['R1', ' '.join(filter(None, [head[0], _line(head[1])]))] + [_line(p) for p in more]
    mod, up, sheet, c = _qsch(vc, texts)
    U = up.UpdateType
    key = vc.choice('parameter', ['W', 'tc1', 'm', 'new', 2, 3, 1])
    value, text = _value(vc, mod, 'value', none=True)
    rest = _rest(c)
    how = vc.choice('by', ['set_parameter', 'set_parameters']) if isinstance(key, str) else 'set_parameter'
    _, e = vc.raises(lambda: c.set_parameter(key, value) if how == 'set_parameter' else c.set_parameters(**{key: value}), Exception)
    if isinstance(e, core.Unsupported):
        raise e
    vc.check('the rest of the component stays', _rest(c) == rest)
    got = _texts(mod, c)
    bad = isinstance(key, int) and not 2 <= key <= len(texts)
    if sheet.perm == up.UpdatePermission.Deny or bad:
        vc.check('refused, and nothing changes', And(e is not None, got == texts, sheet.log == []))
        return
    vc.check('accepted', e is None)

    def norm(t):
        return ' '.join(t.split())
    if isinstance(key, int):
        if key == len(texts):
            out, kind = texts + ([text] if text is not None else []), U.AddComponentParameter
            changed = text is not None
        elif text is None:
            out, kind, changed = texts[:key] + texts[key + 1:], U.DeleteComponentParameter, True
        else:
            out, kind, changed = texts[:key] + [text] + texts[key + 1:], U.UpdateComponentParameter, True
    else:
        rows = [(head[0], head[1])] + [('', p) for p in more]
        there = any(n == key for _, p in rows for n, _ in p)
        changed = there or text is not None
        kind = U.AddComponentParameter if not there else U.DeleteComponentParameter if text is None else U.UpdateComponentParameter
        rows = [(h, [(n, text if n == key else x) for n, x in p if n != key or text is not None], p) for h, p in rows]
        out = ['R1'] + [' '.join(filter(None, [h, _line(p)])) for j, (h, p, old) in enumerate(rows) if p or not j]
        if not there and text is not None:
            out.append(f'{key}={text}')
    vc.check('the parameter has the value it was set to, and the others keep theirs', [norm(t) for t in got] == [norm(t) for t in out])
    vc.check('the value that is read is that of the component', norm(c.attributes['value']) == norm(got[1]))
    fam = {U.AddComponentParameter: U.UpdateComponentParameter}
    want = [(f'R1:{key}', fam.get(kind, kind))] if changed else []
    vc.check('one record for each item that changed, and no other', [(n, fam.get(k, k)) for n, v, k in sheet.log] == want)
    for n, v, k in sheet.log:
        if k != U.DeleteComponentParameter:
            vc.check('recorded with the value it was set to', v is value or isinstance(v, str) and v == text)


# ------------------------------------------------------------------------------------------------
# The editors of schematics: what is edited is the component that was named, on the sheet or inside a block of it; the
# sheet that has it records the edit, once, under the name that the component has there.
def _sheets(vc, name, cls):
    """a sheet with a block X1 whose sheet has a component of the same name"""
    mod, up = vc.mod(name), vc.mod('editor.updates')
    calls = []

    class Comp:
        def __init__(self, label, ref):
            self.__dict__.update(label=label, reference=ref, attributes={'value': '1k'}, symbol='res', tag=types.SimpleNamespace(label=label))

        def set_value(self, v):
            calls.append((self.label, 'value', v))

        def set_parameters(self, **k):
            calls.append((self.label, 'parameters', k))

        def set_position(self, *a):
            calls.append((self.label, 'position', a))

    out = []
    for k, label in enumerate(['top', 'block']):
        ed = getattr(mod, cls).__new__(getattr(mod, cls))
        ed.components = {r: Comp(f'{label} {r}', r) for r in ('R1', 'X1', 'R2')}
        ed.netlist_updates, ed.canvas_updated = up.Updates(), False
        ed.update_permission = vc.choice(f'permission of the {label}', [up.UpdatePermission.Inform, up.UpdatePermission.Deny])
        ed.schematic = types.SimpleNamespace(items=[types.SimpleNamespace(label='wire')] + [c.tag for c in ed.components.values()] + [types.SimpleNamespace(label='net')])
        out.append(ed)
    top, block = out
    top.components['X1'].attributes['_SUBCKT'] = block
    # read-only is something of files that are protected
    vc.stub(getattr(mod, cls).is_read_only, 'is_read_only: it is not', lambda self: False)
    return mod, up, top, block, calls


def _sheet_edits(vc, name, cls):
    if not vc.symbolic:
        return vc.assume(False)
    mod, up, top, block, calls = _sheets(vc, name, cls)
    D, U = up.UpdatePermission.Deny, up.UpdateType
    where = vc.choice('where', ['R1', 'X1:R1', 'R9', 'X1:R9', 'X9:R1'])
    home, other = (block, top) if ':' in where else (top, block)
    label = 'block R1' if ':' in where else 'top R1'
    value = vc.real('value')
    asc = cls == 'AscEditor'
    what = vc.choice('edit', ['remove', 'value', 'parameters', 'get'] + (['attribute', 'model'] if asc else ['model']))
    before = [({r: dict(c.attributes) for r, c in e.components.items()}, list(e.schematic.items), {r: c.symbol for r, c in e.components.items()}) for e in (home, other)]
    now = lambda e: ({r: dict(c.attributes) for r, c in e.components.items()}, list(e.schematic.items), {r: c.symbol for r, c in e.components.items()})
    do = {'remove': lambda: top.remove_component(where), 'value': lambda: top.set_component_value(where, value),
          'parameters': lambda: top.set_component_parameters(where, m=value, tc='2'), 'get': lambda: top.get_component(where),
          'attribute': lambda: top.set_component_attribute(where, 'note', 'text'), 'model': lambda: top.set_element_model(where, 'other')}[what]
    got, e = vc.raises(do, Exception)
    if isinstance(e, core.Unsupported):
        raise e
    logs = [[(u.name, u.value, u.updates) for u in x.netlist_updates] for x in (home, other)]
    vc.check('nothing changes on the other sheet', And(now(other) == before[1], logs[1] == []))
    denied = home.update_permission == D or what == 'remove' and top.update_permission == D
    own = what in ('remove', 'attribute') or what == 'model' and asc
    if '9' in where or own and denied:
        vc.check('refused, and nothing changes', And(e is not None, now(home) == before[0], logs[0] == [], calls == []))
        return
    vc.check('accepted', e is None)
    a, items, symbols = (dict(before[0][0]), list(before[0][1]), dict(before[0][2]))
    want_calls, want_log = [], []
    if what == 'get':
        vc.check('the one that was named', got is home.components['R1'])
    elif what == 'value':
        want_calls = [(label, 'value', value)]
    elif what == 'parameters':
        want_calls = [(label, 'parameters', {'m': value, 'tc': '2'})]
    elif what == 'model' and not asc:
        want_calls = [(label, 'value', 'other')]
    elif what == 'model':
        symbols['R1'], want_log = 'other', [('R1', U.UpdateComponentValue, 'other')]
    elif what == 'attribute':
        a['R1'] = dict(a['R1'], note='text')
        want_log = [('R1:note', U.UpdateComponentParameter, 'text')]
    else:
        del a['R1'], symbols['R1']
        items = [t for t in items if asc or t.label != label]
        want_log = [('R1', U.DeleteComponent, None)]
    vc.check('that component is edited, once, and no other', [c[:2] for c in calls] == [c[:2] for c in want_calls])
    for c, w in zip(calls, want_calls):
        vc.check('with what was asked', c[2] is w[2] or c[2] == w[2])
    vc.check('nothing else of the sheet changes', And(now(home)[0] == a, now(home)[2] == symbols, list(now(home)[0]) == list(a)))
    if not asc:
        vc.check('nothing else is on the sheet', [t.label for t in now(home)[1]] == [t.label for t in items])
    vc.check('recorded once, by the sheet that has it, under the name it has there', [(n, k) for n, v, k in logs[0]] == [(n, k) for n, k, v in want_log])
    vc.check('with what it was set to', all(v == w[2] for (_, v, _), w in zip(logs[0], want_log) if w[2] is not None))


@prove('C09', 'an edit of an LTspice schematic is one of the component that was named, on the sheet that has it',
       [f'{AE}:AscEditor.remove_component', f'{AE}:AscEditor.set_component_value', f'{AE}:AscEditor.set_component_parameters', f'{AE}:AscEditor.set_component_attribute',
        f'{AE}:AscEditor.set_element_model', 'editor.base_schematic:BaseSchematic.get_component', 'editor.base_schematic:BaseSchematic._get_parent'],
       internal=True, conc=0)
def asc_edits(vc):
    _sheet_edits(vc, AE, 'AscEditor')


@prove('C09', 'an edit of a QSPICE schematic is one of the component that was named, on the sheet that has it',
       [f'{QE}:QschEditor.remove_component', f'{QE}:QschEditor.set_component_value', f'{QE}:QschEditor.set_component_parameters', f'{QE}:QschEditor.set_element_model',
        'editor.base_schematic:BaseSchematic.get_component', 'editor.base_schematic:BaseSchematic._get_parent'], internal=True, conc=0)
def qsch_edits(vc):
    _sheet_edits(vc, QE, 'QschEditor')


# --- the components of a netlist

CE = 'editor.spice_components'


@prove('C09', 'the value and the parameters of a component of a netlist', [f'{CE}:SpiceComponent.set_value', f'{CE}:SpiceComponent.set_parameter',
                                                                       f'{CE}:SpiceComponent.set_parameters', f'{CE}:SpiceComponent.begin_update',
                                                                       f'{CE}:SpiceComponent.end_update'], internal=True, conc=0)
def net_component(vc):
    """whatever values there were and are set; one or two items, by a name that is there or not"""
    if not vc.symbolic:
        return vc.assume(False)
    mod, up = vc.mod(CE), vc.mod('editor.updates')
    U = up.UpdateType
    perm = vc.choice('permission', [up.UpdatePermission.Inform, up.UpdatePermission.Deny, up.UpdatePermission.Initializing])
    sheet = _Sheet(up, perm)
    alone = vc.choice('in a netlist', [True, False]) is False
    c = mod.SpiceComponent(netlist=None if alone else sheet, obj='')
    P = dict(vc.choice('parameters before', [{}, {'tc1': vc.real('tc1'), 'm': vc.real('m')}, {'value': vc.real('value parameter')}]))
    before = {'value': vc.real('value before'), 'ports': [], 'params': mod.OrderedDict(P)} if P else {'value': vc.real('value before'), 'ports': []}
    c._reference, c._attributes = 'R1', dict(before)
    n = vc.choice('how many', [1, 2])
    keys = vc.choice('items', [['tc1', 'm'], ['new', 'tc1'], ['value', 'm'], ['Value', 'new'], ['TC1', 'new']])[:n]
    vals = [vc.choice('set to', [vc.real('first'), None]), vc.choice('other set to', [vc.real('second'), '{x}', None])][:n]
    want, value, params = [], before['value'], dict(P)
    if vc.choice('by', ['value', 'parameters']) == 'value':
        keys, vals = ['value'], [vc.real('first')]
        how, value = 'value', vals[0]
        want.append(('R1', value, U.UpdateComponentValue))
    else:
        how = 'one by one' if n == 1 and vc.choice('one by one', [True, False]) else 'together'
        for k, v in zip(keys, vals):
            if k in ('value', 'Value') and v is not None and k not in params:
                value = v
                want.append(('R1', v, U.UpdateComponentValue))
            else:
                want.append((f'R1:{k}', v, U.DeleteComponentParameter if v is None else U.UpdateComponentParameter if k in params else U.AddComponentParameter))
                params.pop(k, None) if v is None else params.__setitem__(k, v)

    def call():
        if how == 'value':
            c.set_value(vals[0])
        elif how == 'one by one':
            c.set_parameter(keys[0], vals[0])
        else:
            c.set_parameters(**dict(zip(keys, vals)))
    _, e = vc.raises(call, PermissionError)
    got = dict(c._attributes)
    kept = dict(got.pop('params', {}))
    vc.check('the rest of the component stays', And(c._reference == 'R1', set(got) == {'value', 'ports'}, got['ports'] == []))
    if perm == up.UpdatePermission.Deny and not alone:
        vc.check('refused, and nothing changes', And(e is not None, got['value'] is before['value'], kept == P, sheet.log == []))
        return
    vc.check('accepted', e is None)
    vc.check('the value is the one set last', got['value'] is value)
    vc.check('so is each parameter, and the others keep theirs', list(kept) == list(params) and all(kept[k] is params[k] for k in params))
    if alone or perm == up.UpdatePermission.Initializing:
        vc.check('nothing is recorded of what is being read', sheet.log == [])
        return
    vc.check('one record for each item, under its name, in order', [(a, k) for a, v, k in sheet.log] == [(a, k) for a, v, k in want])
    vc.check('with the value it was set to', all(v is w or k == U.DeleteComponentParameter for (_, v, k), (_, w, _) in zip(sheet.log, want)))


@prove('C09', 'an edit inside a circuit is recorded by the editor that the circuit is of, however deep it is in it',
       ['editor.base_subcircuit:BaseSubCircuit.begin_update', 'editor.base_subcircuit:BaseSubCircuit.end_update', 'editor.base_subcircuit:BaseSubCircuit.was_modified',
        'editor.base_subcircuit:BaseSubCircuit.editor', 'editor.base_schematic:BaseSchematic.end_update', 'editor.base_schematic:BaseSchematic.updated',
        'editor.updates:Updates.__copy__'], internal=True, conc=0)
def passed_on(vc):
    """by induction on how deep the circuit is: what is around it does what is shown here"""
    if not vc.symbolic:
        return vc.assume(False)
    import copy
    up, F, SC, B = vc.mod('editor.updates'), vc.mod('editor.spice_file'), vc.mod('editor.spice_subcircuit'), vc.mod('editor.asc_editor')
    perm = vc.choice('permission', list(up.UpdatePermission))
    kind = vc.choice('kind', ['editor', 'inside', 'nowhere', 'schematic'])
    name, value, what = vc.choice('name', ['R1', 'par']), vc.int('value'), vc.choice('what', list(up.UpdateType))
    log, asked = [], []

    class Around:
        editor = object()

        def begin_update(self):
            asked.append(1)
            return perm

        def end_update(self, *a):
            log.append(a)

    class Record:
        def add_update(self, *a):
            log.append(a)

        def __len__(self):
            return len(log)
    C = {'editor': F.SpiceFile, 'inside': SC.SpiceCircuit, 'nowhere': SC.SpiceCircuit, 'schematic': B.AscEditor}[kind]
    x = C.__new__(C)
    if kind in ('editor', 'schematic'):
        x.update_permission, x.netlist_updates = perm, Record()
    else:
        x.parent = Around() if kind == 'inside' else None
    if kind == 'schematic':
        x.canvas_updated = False
        vc.check('not edited yet', x.updated() is False)
    else:
        x._modified = False
        vc.check('not edited yet', x.was_modified is False)
        want = {'editor': x, 'inside': getattr(x, 'parent', None) and Around.editor, 'nowhere': None}[kind]
        vc.check('the editor that it is of', x.editor is want)
    vc.check('whether editing is allowed is what that editor says', x.begin_update() == (up.UpdatePermission.Deny if kind == 'nowhere' else perm))
    x.end_update(name, value, what)
    if kind == 'schematic':
        vc.check('edited', x.updated() is True)
    else:
        vc.check('edited', x.was_modified is True)
    recorded = {'editor': perm == up.UpdatePermission.Inform, 'inside': True, 'nowhere': False, 'schematic': True}[kind]
    vc.check('recorded once, or not at all', len(log) == int(recorded))
    if recorded:
        vc.check('as what it is', log[0][0] == name and log[0][2] == what)
        vc.check('with its value', log[0][1] == value)
    one = up.Updates()
    one.netlist_updates = [up.Update('R1', '1k', up.UpdateType.UpdateComponentValue), up.Update('p', None, up.UpdateType.DeleteParameter)]
    two = copy.copy(one)
    two.netlist_updates[0].value = '2k'
    del two.netlist_updates[1]
    vc.check('the record of a copy is its own', [(u.name, u.value, u.updates) for u in one.netlist_updates] ==
             [('R1', '1k', up.UpdateType.UpdateComponentValue), ('p', None, up.UpdateType.DeleteParameter)] and type(two) is up.Updates)
