# -*- coding: utf-8 -*-
"""
An interpreter of the subset of the Faust language that generated effects use:
definitions, the five compositions (sequential, parallel, split, merge,
recursion), infix operators, lambda abstractions, elementary functions, and
sliders (at their initial value).

`A ~ prefix(v, _)` is the recursion of A whose feedback, delayed by one
sample, starts with v.
"""
import math
import re

TOKEN = re.compile(r'\s*(?:(//[^\n]*)|(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)|'
                   r'([A-Za-z_][A-Za-z_0-9]*(?:\.[A-Za-z_]\w*)*)|'
                   r'("[^"]*")|(<:|:>|[=;,:~()+\-*/\\.!@^%?<>\[\]{}]))')
FUNCS = {'sin': (1, math.sin), 'cos': (1, math.cos), 'tan': (1, math.tan),
         'exp': (1, math.exp), 'log': (1, math.log), 'sqrt': (1, math.sqrt),
         'abs': (1, abs), 'atan': (1, math.atan), 'asin': (1, math.asin),
         'acos': (1, math.acos),
         'pow': (2, lambda a, b: math.pow(a, b)),
         'fmod': (2, math.fmod), 'atan2': (2, math.atan2),
         'min': (2, min), 'max': (2, max), 'floor': (1, math.floor)}
OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b,
       '*': lambda a, b: a * b, '/': lambda a, b: a / b,
       '^': lambda a, b: math.pow(a, b), '%': math.fmod}
PRIO = {'<:': 1, ':>': 1, ':': 2, ',': 3, '~': 4, '+': 6, '-': 6, '*': 7,
        '/': 7, '%': 7, '^': 8}
RIGHT = ('<:', ':>', ':', ',')


class FaustError(Exception):
    pass


def tokenize(text):
    out, i = [], 0
    text = text.rstrip()
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise FaustError('unexpected text {!r}'.format(text[i:i + 20]))
        i = m.end()
        if m.group(1) is not None:
            continue
        if m.group(2):
            out.append(('num', m.group(2)))
        elif m.group(3):
            out.append(('cut', '_') if m.group(3) == '_' else
                       ('id', m.group(3)))
        elif m.group(4):
            out.append(('str', m.group(4)[1:-1]))
        else:
            out.append(('op', m.group(5)))
    out.append(('end', ''))
    return out


class Parser(object):
    def __init__(self, text):
        self.t = tokenize(text)
        self.i = 0

    def peek(self):
        return self.t[self.i]

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, v):
        t = self.next()
        if t[1] != v or t[0] == 'str':
            raise FaustError('{} expected, found {}'.format(v, t[1]))

    def program(self):
        defs = {}
        while self.peek()[0] != 'end':
            kind, name = self.next()
            if kind != 'id':
                raise FaustError('definition expected: {}'.format(name))
            if name == 'import':
                self.expect('(')
                self.next()
                self.expect(')')
                self.expect(';')
                continue
            self.expect('=')
            e = self.expr(1)
            self.expect(';')
            if name in defs:
                raise FaustError('{} is defined twice'.format(name))
            defs[name] = e
        return defs

    def expr(self, prio):
        left = self.primary()
        while True:
            kind, v = self.peek()
            if kind != 'op' or v not in PRIO or PRIO[v] < prio:
                return left
            self.next()
            right = self.expr(PRIO[v] if v in RIGHT else PRIO[v] + 1)
            left = (v, left, right)

    def args(self):
        out = [self.expr(4)]
        while self.peek() == ('op', ','):
            self.next()
            out.append(self.expr(4))
        self.expect(')')
        return out

    def primary(self):
        kind, v = self.next()
        if kind == 'num':
            return ('num', float(v))
        if kind == 'cut':
            return ('id_', )
        if kind == 'str':
            return ('str', v)
        if kind == 'id':
            if self.peek() == ('op', '('):
                self.next()
                return ('call', v, self.args())
            return ('name', v)
        if v == '!':
            return ('stop', )
        if v == '(':
            e = self.expr(1)
            self.expect(')')
            return e
        if v == '-':
            kind, w = self.next()
            if kind == 'num':
                return ('num', -float(w))
            if kind == 'id' and self.peek() != ('op', '('):
                return ('-', ('num', 0.), ('name', w))
            raise FaustError('sign before {}'.format(w))
        if v == '\\':
            self.expect('(')
            names = []
            while True:
                k, n = self.next()
                if k != 'id':
                    raise FaustError('argument expected: {}'.format(n))
                names.append(n)
                k, n = self.next()
                if (k, n) == ('op', ')'):
                    break
                if (k, n) != ('op', ','):
                    raise FaustError(', expected: {}'.format(n))
            self.expect('.')
            self.expect('(')
            e = self.expr(1)
            self.expect(')')
            if len(set(names)) < len(names):
                raise FaustError('arguments {}'.format(names))
            return ('lambda', names, e)
        raise FaustError('unexpected {}'.format(v))


class Program(object):
    """step(inputs) gives the outputs of `process`, sample by sample."""

    def __init__(self, text, fs, sliders=None):
        self.defs = Parser(text).program()
        self.fs = fs
        self.sliders = sliders or {}
        self.found = {}
        if 'process' not in self.defs:
            raise FaustError('no process')
        self.cache = {}
        self.nin, self.nout, self.step = self.build(('name', 'process'), {},
                                                    ())

    def build(self, e, env, stack):
        """(number of inputs, number of outputs, function)"""
        k = e[0]
        if k == 'num':
            v = e[1]
            return 0, 1, lambda s: [v]
        if k == 'id_':
            return 1, 1, lambda s: list(s)
        if k == 'stop':
            return 1, 0, lambda s: []
        if k == 'name':
            return self.name(e[1], env, stack)
        if k == 'call':
            return self.call(e[1], e[2], env, stack)
        if k == 'lambda':
            names, cell = e[1], {}
            new = dict(env)
            for n in names:
                new[n] = (cell, n)
            i, o, f = self.build(e[2], new, stack)
            if i:
                raise FaustError('body of a lambda with inputs')

            def run(s):
                for n, v in zip(names, s):
                    cell[n] = v
                return f([])
            return len(names), o, run
        a = self.build(e[1], env, stack)
        if k == '~':
            return self.recursion(a, e[2], env, stack)
        b = self.build(e[2], env, stack)
        if k == ',':
            n = a[0]
            return (a[0] + b[0], a[1] + b[1],
                    lambda s: a[2](s[:n]) + b[2](s[n:]))
        if k == ':':
            if a[1] != b[0]:
                raise FaustError('sequential composition of {} outputs with '
                                 '{} inputs'.format(a[1], b[0]))
            return a[0], b[1], lambda s: b[2](a[2](s))
        if k == '<:':
            if a[1] == 0 or b[0] % a[1]:
                raise FaustError('split of {} outputs to {} inputs'.format(
                    a[1], b[0]))
            r = b[0] // a[1]
            return a[0], b[1], lambda s: b[2](a[2](s) * r)
        if k == ':>':
            if b[0] == 0 or a[1] % b[0]:
                raise FaustError('merge of {} outputs to {} inputs'.format(
                    a[1], b[0]))
            m = b[0]

            def merge(s):
                v = a[2](s)
                return b[2]([sum(v[i::m]) for i in range(m)])
            return a[0], b[1], merge
        op = OPS[k]
        if a[1] + b[1] != 2:
            raise FaustError('operands of {} have {} outputs'.format(
                k, a[1] + b[1]))
        n = a[0]
        return (a[0] + b[0], 1,
                lambda s: [op(*(a[2](s[:n]) + b[2](s[n:])))])

    def name(self, n, env, stack):
        if n in env:
            cell, key = env[n]
            return 0, 1, lambda s: [cell[key]]
        if n == 'ma.SR':
            return 0, 1, lambda s: [self.fs]
        if n == 'ma.PI':
            return 0, 1, lambda s: [math.pi]
        if n in self.defs:
            if n in stack:
                raise FaustError('{} is defined by itself'.format(n))
            if n not in self.cache:
                self.cache[n] = self.build(self.defs[n], {}, stack + (n, ))
            return self.cache[n]
        if n in FUNCS:
            m, g = FUNCS[n]
            return m, 1, lambda s: [g(*s)]
        raise FaustError('undefined symbol {}'.format(n))

    def call(self, n, args, env, stack):
        if n in ('hslider', 'vslider', 'nentry'):
            if len(args) != 5 or args[0][0] != 'str' or \
                    any(a[0] != 'num' for a in args[1:]):
                raise FaustError('arguments of a slider')
            label, v, lo, hi = args[0][1], args[1][1], args[2][1], args[3][1]
            self.found[label] = (v, lo, hi)
            v = self.sliders.get(label, v)
            return 0, 1, lambda s: [v]
        if n in FUNCS and n not in self.defs and n not in env:
            m, g = FUNCS[n]
            parts = [self.build(a, env, stack) for a in args]
            if len(parts) != m or any(p[:2] != (0, 1) for p in parts):
                raise FaustError('arguments of {}'.format(n))
            return 0, 1, lambda s: [g(*[p[2]([])[0] for p in parts])]
        raise FaustError('call of {}'.format(n))

    def recursion(self, a, fb, env, stack):
        if fb[0] == 'call' and fb[1] == 'prefix':
            if len(fb[2]) != 2 or fb[2][1] != ('id_', ):
                raise FaustError('arguments of prefix')
            i, o, f = self.build(fb[2][0], env, stack)
            if (i, o) != (0, 1):
                raise FaustError('initial value of prefix')
            state = [f([])[0]]
            n = 1
        else:
            i, o, f = self.build(fb, env, stack)
            raise FaustError('recursion without initial value')
        if a[0] < n or a[1] < n:
            raise FaustError('recursion of {} inputs, {} outputs'.format(
                a[0], a[1]))

        def run(s):
            out = a[2](state[:1] + list(s))
            state[0] = out[0]
            return out
        return a[0] - n, a[1], run
