"""Mechanical instrumentation of /repo's current source.

`spicelib` (the real, untouched package) and `vspicelib` (the same files, read from /repo at every run, with the
rewriting below) are both imported into the checking process.  The rewriting is purely syntactic and drops nothing:

  f(a, ...)              ->  __vc_call__(f, a, ...)         (so that len/int/isinstance/np.abs... accept symbolic values)
  a in b, a not in b     ->  __vc_in__(b, a)
  a == b, a != b         ->  __vc_eq__(a, b)
  a[b]  (read, no slice) ->  __vc_get__(a, b)
  "fmt" % x              ->  __vc_mod__("fmt", x)
  x is True / False      ->  __vc_is__(x, True/False)
  [e for t in s if c]    ->  __vc_comp__(...)               (one generator, native when s is not symbolic)
  for / while            ->  __vc_head__ / __vc_for__ / __vc_tick__   (cut points for loop contracts)
  except:                ->  except Exception:            (engine control flow is not an Exception)

Without a symbolic value in sight every helper is the plain Python operation.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import logging
import math
import os
import sys

import z3

from . import core
from .core import (is_sym, SNum, SInt, SReal, SBool, SStr, SVal, SSeq, SRange, SEnum, SZip, SRef, Unsupported, PathDone,
                   Stop, Infeasible, And, Or, Not, Ite, wrap, to_z3, at, length, Forall, SymBase)

REPO = os.environ.get('VP_REPO', '/repo')
ALIAS = 'vspicelib'


# ---------------------------------------------------------------------------------------------------------------
# AST transform
# ---------------------------------------------------------------------------------------------------------------

class _Names(ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)


def assigned(nodes):
    v = _Names()
    for n in nodes:
        v.visit(n)
    return sorted(x for x in v.names if not x.startswith('__vc'))


def _name(i):
    return ast.Name(i, ast.Load())


def _call(f, *a):
    return ast.Call(_name(f), list(a), [])


class Instrument(ast.NodeTransformer):
    NOCALL = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec'}

    def __init__(self, mod):
        self.mod = mod
        self.qual = []
        self.ord = [0]
        self.infunc = [False]
        self.h = 0

    def _scope(self, node, isfunc):
        # decorators, defaults and annotations are left as they are
        self.qual.append(node.name)
        self.ord.append(0)
        self.infunc.append(isfunc)
        node.body = [self.visit(s) for s in node.body]
        flat = []
        for s in node.body:
            flat.extend(s if isinstance(s, list) else [s])
        node.body = flat
        self.qual.pop()
        self.ord.pop()
        self.infunc.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._scope(node, True)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        return self._scope(node, False)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if not isinstance(node.target, ast.Name):
            node.target = self.visit(node.target)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and (node.func.id in self.NOCALL or node.func.id.startswith('__vc')):
            return node
        return ast.Call(_name('__vc_call__'), [node.func] + node.args, node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, l, r = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return _call('__vc_in__', r, l)
            if isinstance(op, ast.NotIn):
                return _call('__vc_not__', _call('__vc_in__', r, l))
            if isinstance(op, ast.Eq):
                return _call('__vc_eq__', l, r)
            if isinstance(op, ast.NotEq):
                return _call('__vc_ne__', l, r)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and isinstance(r.value, bool):
                c = _call('__vc_is__', l, r)
                return c if isinstance(op, ast.Is) else _call('__vc_not__', c)
            if isinstance(op, (ast.Is, ast.IsNot)) and not isinstance(r, ast.Constant) \
                    and not isinstance(l, ast.Constant):
                c = _call('__vc_same__', l, r)
                return c if isinstance(op, ast.Is) else _call('__vc_not__', c)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return _call('__vc_mod__', node.left, node.right)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Tuple)) \
                and any(self.infunc[1:]):
            return _call('__vc_get__', node.value, node.slice)
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) != 1 or not any(self.infunc[1:]):
            return node
        g = node.generators[0]
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(node)):
            return node
        if isinstance(g.target, ast.Name):
            names = [g.target.id]
            star = False
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
            names = [e.id for e in g.target.elts]
            star = True
        else:
            return node

        if len(set(names)) < len(names):  # the last one of the same name is the one that is seen
            names = [f'__vc_unused{i}' if n in names[i + 1:] else n for i, n in enumerate(names)]

        def lam(body):
            a = ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, [])
            return ast.Lambda(a, body)
        cond = ast.Constant(None)
        if g.ifs:
            cond = lam(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs))
        return _call('__vc_comp__', g.iter, lam(node.elt), cond, ast.Constant(star))

    def visit_GeneratorExp(self, node):
        # lazily evaluated natively, a symbolic source gives a symbolic sequence
        r = self.visit_ListComp(node)
        if isinstance(r, ast.Call):
            r.func.id = '__vc_gen__'
        return r

    def visit_ExceptHandler(self, node):
        if node.type is None:
            node.type = _name('Exception')
        else:
            pass
        node.body = self._body(node.body)
        return node

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def _loop(self, node, kind):
        ident = f"{self.mod}:{'.'.join(self.qual)}#{self.ord[-1]}"
        self.ord[-1] += 1
        names = assigned(node.body + ([node.target] if kind == 'for' else []))
        # lists that the body grows: replaced at the head only where the contract says by what
        grown = sorted({c.func.value.id for b in node.body for c in ast.walk(b)
                        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name)
                        and c.func.attr in ('append', 'extend', 'insert', 'pop', 'add', 'remove')} - set(names))
        node.body = self._body(node.body)
        node.orelse = self._body(node.orelse)
        if not any(self.infunc[1:]):
            if kind == 'for':
                node.iter = self.visit(node.iter)
            else:
                node.test = self.visit(node.test)
            return node
        self.h += 1
        h = f"__vc_h{self.h}__"
        pre = []
        if kind == 'for':
            node.iter = self.visit(node.iter)
            src = f"__vc_s{self.h}__"
            pre.append(ast.Assign([ast.Name(src, ast.Store())], node.iter))
            pre.append(ast.Assign([ast.Name(h, ast.Store())],
                                  _call('__vc_head__', ast.Constant(ident), _call('locals'), _name(src),
                                        ast.Constant(tuple(names) + tuple('*' + g for g in grown)))))
        else:
            node.test = self.visit(node.test)
            pre.append(ast.Assign([ast.Name(h, ast.Store())],
                                  _call('__vc_head__', ast.Constant(ident), _call('locals'), ast.Constant(None),
                                        ast.Constant(tuple(names) + tuple('*' + g for g in grown)))))
        hv = []
        for n in list(names) + grown:
            hv.append(ast.If(ast.Compare(ast.Constant(n), [ast.In()], [ast.Attribute(_name(h), 'vals', ast.Load())]),
                             [ast.Assign([ast.Name(n, ast.Store())],
                                         ast.Subscript(ast.Attribute(_name(h), 'vals', ast.Load()), ast.Constant(n),
                                                       ast.Load()))], []))
        if hv:
            pre.append(ast.If(ast.Attribute(_name(h), 'cut', ast.Load()), hv, []))
        if kind == 'for':
            node.iter = _call('__vc_for__', _name(h), _name(src))
        else:
            node.test = ast.BoolOp(ast.And(), [_call('__vc_tick__', _name(h), _call('locals')), node.test])
        return pre + [node]

    def visit_For(self, node):
        return self._loop(node, 'for')

    def visit_While(self, node):
        return self._loop(node, 'while')


def instrument(source, filename, mod):
    tree = ast.parse(source, filename)
    tr = Instrument(mod)
    body = []
    for s in tree.body:
        r = tr.visit(s)
        body.extend(r if isinstance(r, list) else [r])
    tree.body = body
    ast.fix_missing_locations(tree)
    # statements inserted by _loop need positions of their own; fix_missing_locations gives parents' ones
    return compile(tree, filename, 'exec')


# ---------------------------------------------------------------------------------------------------------------
# run time helpers
# ---------------------------------------------------------------------------------------------------------------

class Locals:
    """What a loop contract sees: locals by attribute."""

    def __init__(self, d, **extra):
        self.__dict__.update({k: v for k, v in d.items() if not k.startswith('__vc')})
        self.__dict__.update(extra)

    def __getattr__(self, n):
        raise Unsupported(f"the loop contract names '{n}', which the code no longer has")


class LoopContract:
    """inv(L, i) -> list of conditions; havoc: extra things the loop writes; variant(L, i) >= 0 and decreasing."""

    def __init__(self, inv, havoc=None, havoc_vals=None, variant=None, force=False, heaps=(), modifies=None, lemma=None):
        self.inv, self.havoc, self.havoc_vals, self.variant = inv, havoc, havoc_vals or {}, variant
        self.force, self.heaps, self.modifies = force, heaps, modifies
        self.lemma = lemma


class Head:
    __slots__ = ('ident', 'cut', 'vals', 'contract', 'ticks', 'i', 'n', 'src', 'variant0', 'frame', 'heaps', 'exited',
                 'L0')

    def __init__(self, ident):
        self.ident = ident
        self.cut = False
        self.vals = {}
        self.contract = None
        self.ticks = 0
        self.src = None
        self.i = None
        self.n = None
        self.frame = None
        self.exited = False
        self.L0 = None


def _clauses(x):
    if isinstance(x, dict):
        return list(x.items())
    if isinstance(x, (list, tuple)):
        return [(str(i), c) for i, c in enumerate(x)]
    return [('0', x)]


def _snapshot(loc, skip):
    """shallow snapshot of the native mutable objects reachable from the locals"""
    seen = {}
    stack = [v for k, v in loc.items() if not k.startswith('__vc')]
    depth = 0
    while stack and len(seen) < 2000:
        o = stack.pop()
        if id(o) in seen or id(o) in skip:
            continue
        if isinstance(o, (list,)):
            seen[id(o)] = (o, list(o))
            stack.extend(o)
        elif isinstance(o, dict):
            seen[id(o)] = (o, dict(o))
            stack.extend(o.values())
        elif isinstance(o, set):
            seen[id(o)] = (o, set(o))
        elif isinstance(o, tuple):
            stack.extend(o)
        elif isinstance(o, SSeq):
            seen[id(o)] = (o, o.version)
        elif not is_sym(o) and hasattr(o, '__dict__') and type(o).__module__.split('.')[0] in (ALIAS, 'props', 'pyvc'):
            if isinstance(o, (type, core.Engine)):
                continue
            seen[id(o)] = (o, dict(o.__dict__))
            stack.extend(o.__dict__.values())
    return seen


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, core.SNum) and isinstance(b, core.SNum):
        return a.e.eq(b.e)
    try:
        if is_sym(a) or is_sym(b):
            if hasattr(a, 'e') and hasattr(b, 'e'):
                return a.e.eq(b.e)
            return False
        return type(a) is type(b) and isinstance(a, (int, float, str, bool, tuple)) and a == b
    except Exception:
        return False


def _frame_check(h):
    for o, old in h.frame.values():
        if isinstance(o, SSeq):
            if o.version != old:
                raise Unsupported(f"loop {h.ident} writes {o.name}, which its contract does not list")
        elif isinstance(o, list):
            if len(o) != len(old) or not all(_same(a, b) for a, b in zip(o, old)):
                raise Unsupported(f"loop {h.ident} writes a list its contract does not list")
        elif isinstance(o, dict):
            if list(o.keys()) != list(old.keys()) or not all(_same(o[k], old[k]) for k in o):
                raise Unsupported(f"loop {h.ident} writes a dictionary its contract does not list")
        elif isinstance(o, set):
            if o != old:
                raise Unsupported(f"loop {h.ident} writes a set its contract does not list")
        else:
            d = o.__dict__
            if d.keys() != old.keys() or not all(_same(d[k], old[k]) for k in d):
                bad = [k for k in d if k not in old or not _same(d[k], old[k])]
                raise Unsupported(f"loop {h.ident} writes attributes {bad} of {type(o).__name__}, "
                                  f"which its contract does not list")


def vc_head(ident, loc, src, names):
    h = Head(ident)
    E = core.CUR
    if E is None:
        return h
    c = E.loop_contracts.get(ident)
    if c is None:
        return h
    if src is not None and not is_sym(src) and not c.force:
        return h
    h.contract = c
    h.cut = True
    E.loops_cut.add(ident)
    h.src = src
    if src is not None:
        if not is_sym(src) and not isinstance(src, (list, tuple, range, str)):
            raise Unsupported(f"loop source {type(src).__name__}")
        h.n = length(src)
    # entry
    L = Locals(loc, seq=src)
    h.L0 = L
    for k, cl in _clauses(c.inv(L, 0)):
        E.check(f"{ident}:invariant[{k}]:entry", cl, 'invariant')
    # havoc
    vals = {}
    for n in names:
        if n[0] == '*':
            if n[1:] in c.havoc_vals:
                vals[n[1:]] = c.havoc_vals[n[1:]](E, loc.get(n[1:]), L)
        elif n in c.havoc_vals:
            vals[n] = c.havoc_vals[n](E, loc.get(n), L)
        elif n in loc:
            v = loc[n]
            if v is None or (not is_sym(v) and not isinstance(v, (bool, int, float, str))):
                # a name bound inside the body: unknown at the head, and unusable unless rebound
                vals[n] = Unknown(f"{n} at the head of {ident}")
            else:
                vals[n] = E.fresh_like(v, n)
    h.vals = vals
    skip = {id(vals[n[1:]]) for n in names if n[0] == '*' and n[1:] in vals}
    if c.havoc:
        before = Locals(loc, seq=src)
        mods = c.havoc(E, before)
        for o in (mods or ()):
            skip.add(id(o))
    for rt, f in c.heaps:
        E.set_heap(rt, f, E.fresh(f"heap_{rt.name}_{f}", E.heap(rt, f).sort()))
    h.heaps = dict(E.heaps)
    cur = dict(loc)
    cur.update(vals)
    L = Locals(cur, seq=src)
    if src is not None:
        h.i = E.fresh_int('it')
        E.assume(And(h.i >= 0, h.i <= h.n))
    for k, cl in _clauses(c.inv(L, h.i if src is not None else None)):
        E.assume(cl)
    if c.variant:
        h.variant0 = c.variant(L, h.i)
        E.assume(h.variant0 >= 0) if False else None
    h.frame = _snapshot(cur, skip)
    return h


class Unknown(SymBase):
    """A local whose value at a loop head is unconstrained and of unknown type: any use is outside the method."""

    def __init__(self, what):
        object.__setattr__(self, 'what', what)

    def _no(self, *a, **k):
        raise Unsupported("use of " + object.__getattribute__(self, 'what'))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        self._no()

    __bool__ = __call__ = __getitem__ = __setitem__ = __add__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = _no
    __iter__ = __contains__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __str__ = _no
    __hash__ = SymBase.__hash__

    def __repr__(self):
        return "Unknown(" + object.__getattribute__(self, 'what') + ")"


def _second_tick(h, loc):
    E = core.eng()
    c = h.contract
    L = Locals(loc, seq=h.src)
    _frame_check(h)
    declared = {(rt.name, f) for rt, f in c.heaps}
    for k, a in E.heaps.items():
        if k not in declared and k in h.heaps and not h.heaps[k].eq(a):
            raise Unsupported(f"loop {h.ident} writes field {k}, which its contract does not list")
        if k not in declared and k not in h.heaps and not (z3.is_const(a)):
            raise Unsupported(f"loop {h.ident} writes field {k}, which its contract does not list")
    nxt = h.i + 1 if h.i is not None else None
    if c.lemma:
        for k, cl in _clauses(c.lemma(L, nxt)):
            E.check(f"{h.ident}:lemma[{k}]", cl, 'invariant')
    for k, cl in _clauses(c.inv(L, nxt)):
        E.check(f"{h.ident}:invariant[{k}]:preserved", cl, 'invariant')
    if c.variant:
        v1 = c.variant(L, nxt)
        E.check(f"{h.ident}:variant decreases", And(v1 < h.variant0, h.variant0 >= 0), 'variant')
    raise PathDone()


def vc_tick(h, loc):
    if h.cut:
        h.ticks += 1
        if h.ticks == 1:
            return True
        _second_tick(h, loc)
    E = core.CUR
    if E is not None:
        h.ticks += 1
        if h.ticks > E.unroll_limit:
            raise Unsupported(f"loop {h.ident} has no contract and does not stop within {E.unroll_limit} iterations")
    return True


class _ForIter:
    def __init__(self, h):
        self.h = h

    def __iter__(self):
        return self

    def __next__(self):
        h = self.h
        h.ticks += 1
        E = core.eng()
        if h.ticks == 1:
            if bool(And(h.i < h.n)):
                return at(h.src, h.i)
            E.assume(h.i == h.n) if is_sym(h.i) else None
            raise StopIteration
        _second_tick(h, sys._getframe(1).f_locals)


class _Exit(Exception):
    pass


def vc_for(h, src):
    if h.cut:
        return _ForIter(h)
    if is_sym(src):
        return vc_iter(src)
    return iter(src)


def vc_iter(src):
    E = core.eng()
    if isinstance(src, (SRange, SEnum, SZip)):
        n = src.len_()
        if is_sym(n):
            raise Unsupported("iteration over a symbolic range without a loop contract")
        return iter([src.at(i) for i in range(n)])
    return iter(src)


def vc_comp(src, elt, cond, star):
    if not is_sym(src):
        if star:
            if cond is None:
                return [elt(*t) for t in src]
            return [elt(*t) for t in src if cond(*t)]
        if cond is None:
            return [elt(t) for t in src]
        return [elt(t) for t in src if cond(t)]
    n = length(src)
    f = (lambda t: elt(*t)) if star else elt
    c = None if cond is None else ((lambda t: cond(*t)) if star else cond)
    if not is_sym(n):
        return [f(at(src, i)) for i in range(n) if c is None or c(at(src, i))]
    E = core.eng()
    i = z3.Int(f"i!comp{next(E.counter)}")
    x = at(src, wrap(i))
    if c is None:
        # the body is evaluated for an arbitrary in-range index
        v = core.merged(f, x, under=z3.And(i >= 0, i < to_z3(n)))
        return _seq_of(E, v, i, n)
    def holds(t):
        r = c(t)
        return r if isinstance(r, SBool) else bool(r)
    raise_filter = core.merged(holds, x, under=z3.And(i >= 0, i < to_z3(n)))
    return _filtered(E, src, n, i, raise_filter, f, x)


def vc_gen(src, elt, cond, star):
    if not is_sym(src):
        if star:
            return (elt(*t) for t in src if cond is None or cond(*t))
        return (elt(t) for t in src if cond is None or cond(t))
    return vc_comp(src, elt, cond, star)


def _seq_of(E, v, i, n):
    el = z3.Int('i!el')     # one bound name, so that equal comprehensions are equal terms
    if isinstance(v, SRef):
        return SSeq(v._rt, n, z3.Lambda([el], z3.substitute(v._id, (i, el))), False, 'comp')
    if v is None:
        # a list of None that is filled later: every element is an arbitrary integer until it is written
        return E.fresh_seq(core.IntK, 'unfilled', n=n)
    if not (is_sym(v) or isinstance(v, (bool, int, float, str))):
        raise Unsupported(f"comprehension element {v!r}")
    e = to_z3(v)
    kind = {z3.IntSort(): core.IntK, z3.RealSort(): core.RealK, z3.BoolSort(): core.BoolK,
            z3.StringSort(): core.StrK}.get(e.sort(), core.ValK)
    return SSeq(kind, n, z3.Lambda([el], z3.substitute(e, (i, el))), False, 'comp')


def _filtered(E, src, n, i, condterm, f, x):
    """subsequence: strictly increasing index map g: [0,m) -> [0,n), cond holds exactly on its image"""
    m = E.fresh_int('flt_n')
    g = E.fresh('flt_g', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    inv = E.fresh('flt_inv', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    ce = to_z3(condterm)
    nz = to_z3(n)
    q, r = z3.Ints(f"q!{next(E.counter)} r!{next(E.counter)}")
    E.assume(And(m >= 0, m <= n))
    E.assume_z3(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m.e),
                                          z3.And(g[q] >= 0, g[q] < nz, z3.substitute(ce, (i, g[q])), inv[g[q]] == q)),
                          patterns=[g[q]]))
    E.assume_z3(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < r, r < m.e), g[q] < g[r]),
                          patterns=[z3.MultiPattern(g[q], g[r])]))
    E.assume_z3(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nz, z3.substitute(ce, (i, q))),
                                          z3.And(inv[q] >= 0, inv[q] < m.e, g[inv[q]] == q)), patterns=[inv[q]]))
    v = core.merged(f, x, under=z3.And(i >= 0, i < nz, ce) if not isinstance(condterm, bool) else z3.And(i >= 0, i < nz))
    if isinstance(v, SRef):
        e, kind = v._id, v._rt
    else:
        s = _seq_of(E, v, i, n)
        e, kind = to_z3(v), s.kind
    j = z3.Int(f"j!flt{next(E.counter)}")
    out = SSeq(kind, m, z3.Lambda([j], z3.substitute(e, (i, g[j]))), False, 'filtered')
    out.gmap, out.inv = g, inv
    return out


def vc_not(x):
    return Not(x) if isinstance(x, SBool) else (not x)


def vc_is(x, v):
    if isinstance(x, SBool):
        return x if v else Not(x)
    return x is v


def vc_same(x, y):
    if isinstance(x, core.SRef) and isinstance(y, core.SRef):
        return wrap(x._id == y._id) if x._rt is y._rt else False
    if isinstance(x, (core.SSeq, SNum, SStr)) and isinstance(y, type(x)) and x is not y:
        raise Unsupported("identity of symbolic values")
    return x is y


def _tok(s):
    return isinstance(s, str) and '\ue000' in s


def vc_eq(a, b):
    if core.CUR is not None and (_tok(a) or _tok(b)):
        if _tok(a) and _tok(b) and a == b:
            return True
        if not _tok(a):
            a, b = b, a
        if isinstance(b, SNum):
            # text is no number; a float_unit is also equal to the text of its number: both are looked at
            E = core.eng()
            t = E.untoken(a)
            if t is None or not isinstance(t[0], SNum):
                if '{' in a:
                    return False
                raise Unsupported("comparison of formatted symbolic text")
            return And(E.fresh_bool('text equals number'), t[0] == b)
        raise Unsupported("comparison of formatted symbolic text")
    return a == b


def vc_ne(a, b):
    if core.CUR is not None and (_tok(a) or _tok(b)):
        r = vc_eq(a, b)
        return Not(r) if isinstance(r, SBool) else not r
    return a != b


def vc_in(c, x):
    E = core.CUR
    if E is None:
        return x in c
    if isinstance(c, SSeq):
        return c.member(x)
    if hasattr(type(c), 'vc_member'):
        return c.vc_member(x)
    if isinstance(c, (SRange, SStr)):
        return x in c
    if isinstance(c, core.SRef) and '__contains__' in c._rt.methods:
        return c._rt.methods['__contains__'](c, x)
    if isinstance(c, str):
        if hasattr(x, 'vc_within'):
            return x.vc_within(c)
        if isinstance(x, SStr):
            return wrap(z3.Contains(z3.StringVal(c), x.e))
        return x in c
    if is_sym(x) or (isinstance(c, (list, tuple)) and any(is_sym(y) for y in c)):
        if hasattr(c, '__contains__') and not isinstance(c, (list, tuple, set, frozenset, dict)) \
                and type(c).__module__.split('.')[0] == ALIAS:
            return c.__contains__(x)
        for y in list(c):
            if y is x or bool(vc_eq(y, x)):
                return True
        return False
    return x in c


def vc_get(o, k):
    if core.CUR is None:
        return o[k]
    if isinstance(o, core.SRef) and '__getitem__' in o._rt.methods:
        return o._rt.methods['__getitem__'](o, k)
    if is_sym(k) and isinstance(o, dict):
        for kk in o:
            if bool(vc_eq(kk, k)):
                return o[kk]
        raise KeyError(k)
    if isinstance(k, SInt) and isinstance(o, (list, tuple)):
        n = len(o)
        k2 = core.norm_index(k, n, "list index out of range")
        if not is_sym(k2):
            return o[k2]
        vals = [o[j] for j in range(n)]
        if all(is_sym(v) and isinstance(v, (SNum, SBool, SStr)) or isinstance(v, (bool, int, float, str)) for v in vals):
            try:
                r = vals[-1]
                for j in range(n - 2, -1, -1):
                    r = Ite(wrap(to_z3(k2) == j), vals[j], r)
                return r
            except Unsupported:
                pass
        return o[core.eng().concretize(k2)]
    if not is_sym(o) and hasattr(o, 'dtype') and is_sym(k):
        raise Unsupported("symbolic index into a concrete array")
    return o[k]


def vc_mod(fmt, args):
    if core.CUR is None:
        return fmt % args
    t = args if isinstance(args, tuple) else (args,)
    if not any(is_sym(a) for a in t):
        return fmt % args
    out, k, i = '', 0, 0
    import re
    for m in re.finditer(r'%(?:%|[-+ #0]*\d*(?:\.\d+)?[a-zA-Z])', fmt):
        out += fmt[i:m.start()]
        i = m.end()
        if m.group() == '%%':
            out += '%'
            continue
        a = t[k]
        k += 1
        out += core.eng().token(a, m.group()) if is_sym(a) else m.group() % (a,)
    return out + fmt[i:]


# --- builtins on symbolic arguments --------------------------------------------------------------------------------

def _any_sym(a, k):
    for x in a:
        if is_sym(x):
            return True
        if type(x) in (list, tuple):
            for y in x:
                if is_sym(y):
                    return True
    for x in k.values():
        if is_sym(x):
            return True
    return False


def _len(x):
    if is_sym(x):
        if hasattr(x, 'len_'):
            return x.len_()
        raise TypeError(f"object of type {type(x).__name__} has no len()")
    f = getattr(type(x), '__len__', None)
    if f is not None and type(x).__module__.split('.')[0] in (ALIAS, 'props'):
        return f(x)     # may return a symbolic length
    return len(x)


def _isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for u in ts:
        if isinstance(u, tuple):
            flat.extend(u)
        elif type(u).__name__ == 'UnionType':
            flat.extend(u.__args__)
        else:
            flat.append(u)
    import numpy as np
    if isinstance(x, SBool):
        return bool in flat or int in flat
    if isinstance(x, SInt):
        return int in flat
    if isinstance(x, SReal):
        return float in flat or (np.float64 in flat)
    if isinstance(x, SStr):
        return str in flat
    if isinstance(x, SSeq):
        return (np.ndarray in flat) if x.isarray else (list in flat)
    if isinstance(x, SRef):
        if getattr(x._rt, 'classes', None):  # the class of each object is a value: one of the list
            return Or([x._cls == i for i, c in enumerate(x._rt.classes) if any(issubclass(c, u) for u in flat)])
        return any(u in getattr(x._rt, 'pytypes', ()) for u in flat)
    if isinstance(x, (SRange, SEnum, SZip)):
        return range in flat and isinstance(x, SRange)
    if isinstance(x, SymBase):
        raise Unsupported(f"isinstance of {x!r}")
    return isinstance(x, t)


def _range(*a):
    if not any(is_sym(x) for x in a):
        return range(*a)
    if len(a) == 1:
        return SRange(0, a[0])
    return SRange(*a)


def _int(x=0, *a):
    if isinstance(x, SBool):
        return x._int()
    if isinstance(x, SInt):
        return x
    if isinstance(x, SReal):
        e = x.e
        return wrap(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    if isinstance(x, str) and core.CUR is not None and _tok(x.strip()):
        t = core.eng().untoken(x.strip())
        if t and isinstance(t[0], SInt) and t[1] in ('', 'd', '%d'):
            return t[0]
        raise Unsupported("int() of formatted text")
    if isinstance(x, SStr) and not a:
        E = core.eng()
        if not E.fork(core._is_int(x.e)):
            raise ValueError("invalid literal for int()")
        E.assume_z3(z3.And(core._is_float(x.e), core._float_of(x.e) == z3.ToReal(core._int_of(x.e)),
                           z3.Length(x.e) > 0))
        return wrap(core._int_of(x.e))
    if is_sym(x):
        raise Unsupported("int()")
    return int(x, *a)


def _float(x=0.0):
    if isinstance(x, SInt):
        return wrap(z3.ToReal(x.e))
    if isinstance(x, SReal):
        return x
    if isinstance(x, str) and core.CUR is not None and _tok(x):
        t = core.eng().untoken(x.strip())
        if t and isinstance(t[0], SNum) and t[1] == '':
            return _float(t[0])
        raise Unsupported("float() of formatted text")
    if isinstance(x, SStr):
        E = core.eng()
        if not E.fork(core._is_float(x.e)):
            E.assume_z3(z3.Not(core._is_int(x.e)))
            raise ValueError("could not convert string to float")
        E.assume_z3(z3.Length(x.e) > 0)
        return wrap(core._float_of(x.e))
    if hasattr(x, 'vc_float'):
        return x.vc_float()
    if is_sym(x):
        raise Unsupported("float()")
    return float(x)


def _str(x='', *a):
    if isinstance(x, SStr):
        return x
    if is_sym(x):
        return core.eng().token(x, '')
    f = getattr(type(x), '__str__', None)
    if type(x).__module__.split('.')[0] == ALIAS and f is not object.__str__:
        return f(x)
    return str(x, *a)


def _minmax(name):
    py = getattr(builtins, name)

    def f(*a, key=None, **kw):
        if len(a) == 1:
            if isinstance(a[0], SSeq):
                s = a[0]
                E = core.eng()
                if not bool(s.len_() > 0):
                    raise ValueError(f"{name}() arg is an empty sequence")
                if key is not None:
                    raise Unsupported("min/max key")
                j = E.fresh_int('arg' + name)
                E.assume(And(j >= 0, j < s.len_()))
                v = s.at(j)
                E.assume(Forall(0, s.len_(), lambda i: (s.at(i) >= v) if name == 'min' else (s.at(i) <= v)))
                return v
            a = tuple(a[0])
        if not any(is_sym(x) for x in a):
            return py(*a, key=key, **kw) if len(a) != 1 else a[0]
        if key is not None:
            raise Unsupported("min/max key")
        r = a[0]
        for x in a[1:]:
            r = Ite(x < r, x, r) if name == 'min' else Ite(x > r, x, r)
        return r
    return f


def _round(x, nd=None):
    if nd not in (None, 0):
        raise Unsupported("round to digits")
    if isinstance(x, SInt):
        return x
    e = x.e
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    half = z3.RealVal('1/2')
    r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return wrap(r if nd is None else z3.ToReal(r))


def _floor(x):
    return x if isinstance(x, SInt) else wrap(z3.ToInt(x.e))


def _ceil(x):
    return x if isinstance(x, SInt) else wrap(-z3.ToInt(-x.e))


def _sum(it, start=0):
    if isinstance(it, SSeq):
        return start + core.seq_sum(it)
    r = start
    for x in it:
        r = r + x
    return r


def _anyall(name):
    def f(it):
        if isinstance(it, SSeq) and it.kind is core.BoolK:
            return (True in it) if name == 'any' else not (False in it)
        if is_sym(it):
            raise Unsupported(name)
        return getattr(builtins, name)(it)
    return f


def _list(x=()):
    if isinstance(x, SSeq):
        return x.copy()
    if is_sym(x):
        n = length(x)
        if is_sym(n):
            if isinstance(x, SRange):
                i = z3.Int('i!lr')
                return SSeq(core.IntK, n, z3.Lambda([i], to_z3(x.at(wrap(i)))), False, 'range')
            raise Unsupported("list() of symbolic length")
        return [at(x, i) for i in range(n)]
    return list(x)


def _abs(x):
    return abs(x)


def _divmod(a, b):
    return a // b, a % b


def _bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SNum):
        return wrap(x.e != 0)
    return bool(x)


def _trans(name):
    def f(x, *a):
        E = core.eng()
        r = E.uf(name, x, *a)
        xe = to_z3(x)
        if xe.sort() == z3.IntSort():
            xe = z3.ToReal(xe)
        if name == 'log':
            if not bool(wrap(xe > 0)):
                raise ValueError("math domain error")
            fexp = z3.Function('exp', z3.RealSort(), z3.RealSort())
            E.assume_z3(fexp(to_z3(r)) == xe)
        if name == 'exp':
            E.assume_z3(to_z3(r) > 0)
        if name == 'sqrt':
            if not bool(wrap(xe >= 0)):
                raise ValueError("math domain error")
            E.assume_z3(z3.And(to_z3(r) >= 0, to_z3(r) * to_z3(r) == xe))
        return r
    return f


def _zeros(n, dtype=None):
    return SSeq(core.RealK, n, z3.K(z3.IntSort(), z3.RealVal(0)), True, 'zeros')


def _concatenate(parts, *a, **k):
    parts = list(parts)
    if a or k or not parts or not all(isinstance(p, SSeq) for p in parts):
        raise Unsupported("np.concatenate of mixed sequences")
    r = parts[0]
    i = z3.Int('i!cat')
    for q in parts[1:]:
        if q.kind is not r.kind:
            raise Unsupported("np.concatenate of different kinds")
        n = to_z3(r.n)
        r = SSeq(r.kind, r.n + q.n, z3.Lambda([i], z3.If(i < n, z3.Select(r.arr, i), z3.Select(q.arr, i - n))), True, 'cat')
    return r


def _copy(x):
    if isinstance(x, SSeq):
        return x.copy()
    return x


def _dispatch():
    import numpy as np
    import copy
    import decimal
    t = {
        len: _len, isinstance: _isinstance, range: _range, int: _int, float: _float, str: _str,
        min: _minmax('min'), max: _minmax('max'), round: _round, sum: _sum, abs: _abs, divmod: _divmod, bool: _bool,
        enumerate: lambda s, start=0: SEnum(s, start), zip: lambda *s, strict=False: SZip(s), list: _list, type: _type,
        math.floor: _floor, math.ceil: _ceil, math.fabs: _abs, math.log: _trans('log'), math.exp: _trans('exp'),
        math.cos: _trans('cos'), math.sin: _trans('sin'), math.radians: lambda x: x * math.pi / 180,
        math.log10: _trans('log10'), math.sqrt: _trans('sqrt'), math.atan2: _trans('atan2'),
        math.trunc: _int, math.isnan: lambda x: False, math.isinf: lambda x: False, math.isfinite: lambda x: True,
        np.abs: _abs, np.array: lambda x, *a, **k: x, np.asarray: lambda x, *a, **k: x,
        any: _anyall('any'), all: _anyall('all'), copy.copy: _copy, iter: _protocol('__iter__'), next: _protocol('__next__'),
        np.real: lambda x: x if not isinstance(x, complex) else x.real, np.zeros: _zeros, np.concatenate: _concatenate,
        np.sqrt: _trans('sqrt'), np.log10: _trans('log10'),
        math.degrees: lambda x: x * 180 / math.pi, math.hypot: lambda a, b: _trans('sqrt')(a * a + b * b),
    }
    return {id(k): v for k, v in t.items()}


def _type(x, *a):
    if isinstance(x, core.SRef) and not a and getattr(x._rt, 'classes', None):
        for i, c in enumerate(x._rt.classes):
            if bool(x._cls == i):
                return c
    return type(x, *a)


def _protocol(name):
    def f(x, *a):
        if isinstance(x, core.SRef) and name in x._rt.methods and not a:
            return x._rt.methods[name](x)
        return (vc_iter if name == '__iter__' else next)(x, *a)
    return f


_DISPATCH = None
_ALWAYS = {id(len), id(isinstance), id(str), id(int), id(float), id(range)}


def vc_call(f, *a, **k):
    global _DISPATCH
    E = core.CUR
    if E is None:
        return f(*a, **k)
    if _DISPATCH is None:
        _DISPATCH = _dispatch()
    s = getattr(f, '__self__', None)
    if isinstance(s, logging.Logger):
        return None
    if E.stubs:
        fn = getattr(f, '__func__', f)
        st = E.stubs.get(id(fn))
        if st is not None:
            E.stubs_used.add(st.name)
            if s is not None and fn is not f:
                return st.fn(s, *a, **k)
            return st.fn(*a, **k)
    d = _DISPATCH.get(id(f))
    if d is not None and (id(f) in _ALWAYS or _any_sym(a, k)):
        return d(*a, **k)
    if f is print:
        return None
    if isinstance(f, type) and f.__module__ == 'builtins' and _any_sym(a, k) and f not in (tuple, set, dict, frozenset,
                                                                                          type, object, super) \
            and not issubclass(f, BaseException):
        raise Unsupported(f"{f.__name__}() of a symbolic value")
    if s is not None and type(s) is str and _any_sym(a, k):
        return _strmethod(f.__name__, s, a, k)
    if s is not None and type(s).__module__ == 'builtins' and isinstance(s, dict) and a and is_sym(a[0]):
        return _dictmethod(f.__name__, s, a, k)
    mod = getattr(f, '__module__', None) or ''
    if _any_sym(a, k) and (mod.split('.')[0] in ('numpy', 're', 'struct', 'os', 'math', 'cmath')):
        raise Unsupported(f"{mod}.{getattr(f, '__name__', f)} of a symbolic value")
    return f(*a, **k)


def _strmethod(name, s, a, k):
    if name == 'join':
        r = None
        xs = a[0]
        if is_sym(xs):
            raise Unsupported("join of a symbolic sequence")
        out = ''
        for i, x in enumerate(xs):
            out = x if i == 0 else out + s + x
        return out
    if name in ('startswith', 'endswith') and len(a) == 1 and isinstance(a[0], SStr):
        return wrap(z3.PrefixOf(a[0].e, z3.StringVal(s)) if name == 'startswith' else
                    z3.SuffixOf(a[0].e, z3.StringVal(s)))
    if name == 'format':
        return s.format(*a, **k)
    if name == 'replace' and len(a) == 2 and isinstance(a[0], str) and a[0] and isinstance(a[1], SStr):
        parts = s.split(a[0])
        out = parts[0]
        for p in parts[1:]:
            out = out + a[1] + p
        return out
    if name in ('find', 'index', 'count', 'replace', 'split', 'strip', 'lstrip', 'rstrip', 'partition', 'startswith',
                'endswith', 'zfill', 'ljust', 'rjust'):
        raise Unsupported(f"str.{name} with a symbolic argument")
    return getattr(s, name)(*a, **k)


def _dictmethod(name, d, a, k):
    if name == 'get':
        for kk in d:
            if bool(vc_eq(kk, a[0])):
                return d[kk]
        return a[1] if len(a) > 1 else None
    if name == 'pop':
        for kk in d:
            if bool(vc_eq(kk, a[0])):
                return d.pop(kk)
        if len(a) > 1:
            return a[1]
        raise KeyError(a[0])
    raise Unsupported(f"dict.{name} with a symbolic key")


HELPERS = {'__vc_call__': vc_call, '__vc_in__': vc_in, '__vc_eq__': vc_eq, '__vc_ne__': vc_ne, '__vc_get__': vc_get,
           '__vc_mod__': vc_mod, '__vc_is__': vc_is, '__vc_same__': vc_same, '__vc_not__': vc_not, '__vc_comp__': vc_comp, '__vc_gen__': vc_gen, '__vc_head__': vc_head,
           '__vc_for__': vc_for, '__vc_tick__': vc_tick}


# ---------------------------------------------------------------------------------------------------------------
# import hook
# ---------------------------------------------------------------------------------------------------------------

class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != ALIAS and not name.startswith(ALIAS + '.'):
            return None
        rel = name.split('.')[1:]
        base = os.path.join(REPO, 'spicelib', *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            f, pkg = os.path.join(base, '__init__.py'), True
        elif os.path.isdir(base):
            spec = importlib.util.spec_from_loader(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        elif os.path.exists(base + '.py'):
            f, pkg = base + '.py', False
        else:
            return None
        spec = importlib.util.spec_from_loader(name, self, origin=f, is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [base]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        with open(f, encoding='utf-8') as fh:
            src = fh.read()
        src = src.replace('from spicelib.', f'from {ALIAS}.').replace('import spicelib', f'import {ALIAS}')
        module.__file__ = f
        module.__dict__.update(HELPERS)
        code = instrument(src, f, module.__name__.replace(ALIAS + '.', '', 1))
        exec(code, module.__dict__)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder())
    logging.disable(logging.CRITICAL)


def real(mod):
    install()
    return importlib.import_module('spicelib.' + mod if mod else 'spicelib')


def sym(mod):
    install()
    return importlib.import_module(ALIAS + '.' + mod if mod else ALIAS)
