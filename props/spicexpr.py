"""Evaluates the expressions of a SPICE netlist (.param, .func, component values in braces)."""
import math
import re

SUFFIX = {'t': 1e12, 'g': 1e9, 'meg': 1e6, 'k': 1e3, 'm': 1e-3, 'u': 1e-6, 'µ': 1e-6, 'n': 1e-9, 'p': 1e-12, 'f': 1e-15, '': 1}
TOKEN = re.compile(r'\s*(?:(\ue000\d+\ue001)|(\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)([a-zA-Zµ]*)|'
                   r'([A-Za-z_]\w*)|(\*\*|==|<=|>=|!=|[-+*/()<>,]))')


class Wrong(Exception):
    """text that a simulator would refuse"""


def number(text):
    """the value of a number as it stands in a netlist"""
    m = re.fullmatch(r'\s*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)\s*([a-zA-Zµ]*)\s*', text)
    if not m:
        m = re.fullmatch(r'\s*(\d+)([a-zA-Zµ]+)(\d+)\s*', text)      # 2u2
        if m:
            return float(m[1] + '.' + m[3]) * factor(m[2])
        raise Wrong(f'not a number: {text!r}')
    return float(m[1]) * factor(m[2])


def factor(s):
    s = s.lower()
    for k in ('meg', 't', 'g', 'k', 'm', 'u', 'µ', 'n', 'p', 'f'):
        if s.startswith(k):
            return SUFFIX[k]
    return 1


class Scope:
    """functions {name: (args, body)}, values {name: number or text}, builtins {name: python}, tok: value of a formatted number"""

    def __init__(self, funcs=None, values=None, builtins=None, tok=None):
        self.funcs = {k.lower(): v for k, v in (funcs or {}).items()}
        self.values = {k.lower(): v for k, v in (values or {}).items()}
        self.builtins = builtins or {}
        self.tok = tok

    def define(self, line):
        """.func name(args) {body}, or without braces"""
        m = re.fullmatch(r'\s*\.func\s+(\w+)\s*\(([^)]*)\)\s*(.*?)\s*', line, re.I)
        if not m:
            raise Wrong(f'not a function: {line!r}')
        body = m[3]
        if body.startswith('{'):
            if not body.endswith('}'):
                raise Wrong(f'brace not closed: {line!r}')
            body = body[1:-1]
        if m[1].lower() in self.funcs and self.funcs[m[1].lower()] != ([a.strip().lower() for a in m[2].split(',')], body):
            raise Wrong(f'two functions named {m[1]}')
        self.funcs[m[1].lower()] = ([a.strip().lower() for a in m[2].split(',')], body)

    def name(self, v):
        x = self.values[v]
        return self.value(x) if isinstance(x, str) else x

    def value(self, text, env=None):
        text = text.strip()
        if text.startswith('{') and text.endswith('}'):
            text = text[1:-1]
        toks, pos = [], 0
        while text[pos:].strip():
            m = TOKEN.match(text, pos)
            if not m:
                raise Wrong(f'cannot read {text[pos:]!r}')
            if m[1]:
                toks.append(('num', self.tok(m[1])))
            elif m[2]:
                toks.append(('num', float(m[2]) * factor(m[3]) if m[3] else (int(m[2]) if m[2].isdigit() else float(m[2]))))
            elif m[4]:
                toks.append(('id', m[4].lower()))
            else:
                toks.append(('op', m[5]))
            pos = m.end()
        p = Parser(toks, self, env or {})
        v = p.compare()
        if p.toks:
            raise Wrong(f'left over in {text!r}')
        return v()


class Parser:
    def __init__(self, toks, scope, env):
        self.toks, self.scope, self.env = list(toks), scope, env

    def op(self, *ops):
        if self.toks and self.toks[0][0] == 'op' and self.toks[0][1] in ops:
            return self.toks.pop(0)[1]

    def binary(self, sub, table):
        a = sub()
        while True:
            o = self.op(*table)
            if not o:
                return a
            a = (lambda a, b, f: lambda: f(a(), b()))(a, sub(), table[o])

    def compare(self):
        return self.binary(self.sum, {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '==': lambda a, b: a == b,
                                      '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b})

    def sum(self):
        return self.binary(self.term, {'+': lambda a, b: a + b, '-': lambda a, b: a - b})

    def term(self):
        return self.binary(self.unary, {'*': lambda a, b: a * b, '/': lambda a, b: a / b})

    def unary(self):
        if self.op('-'):
            v = self.unary()
            return lambda: -v()
        if self.op('+'):
            return self.unary()
        a = self.atom()
        if self.op('**'):
            b = self.unary()
            return lambda: a() ** b()
        return a

    def atom(self):
        if not self.toks:
            raise Wrong('expression ends early')
        k, v = self.toks.pop(0)
        if k == 'num':
            return lambda: v
        if k == 'op':
            if v != '(':
                raise Wrong(f'unexpected {v}')
            e = self.compare()
            if not self.op(')'):
                raise Wrong('parenthesis not closed')
            return e
        if not self.op('('):
            return lambda: self.name(v)
        args = []
        if not self.op(')'):
            while True:
                args.append(self.compare())
                if self.op(')'):
                    break
                if not self.op(','):
                    raise Wrong('parenthesis not closed')
        return lambda: self.call(v, args)

    def name(self, v):
        if v in self.env:
            return self.env[v]
        if v in self.scope.values:
            return self.scope.name(v)
        raise Wrong(f'undefined: {v}')

    def call(self, f, args):
        if f == 'if':
            if len(args) != 3:
                raise Wrong('if() with %d arguments' % len(args))
            return args[1]() if bool(args[0]()) else args[2]()
        vals = [a() for a in args]
        if f == 'floor' and len(vals) == 1:
            return math.floor(vals[0])
        if f in self.scope.builtins:
            return self.scope.builtins[f](*vals)
        if f not in self.scope.funcs:
            raise Wrong(f'undefined function: {f}')
        names, body = self.scope.funcs[f]
        if len(names) != len(vals):
            raise Wrong(f'{f}() with {len(vals)} arguments')
        return self.scope.value(body, dict(zip(names, vals)))
