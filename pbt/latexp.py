# -*- coding: utf-8 -*-
"""Reader of the mathematical part of LaTeX documents: expressions and
matrices, evaluated at a point."""
import math
import re

TOKEN = re.compile(r'''\s*(?:
    (?P<num>\d+\.?\d*|\.\d+)
  | (?P<name>[A-Za-z]_\{\\mathrm\{[^{}]*\}\}|[A-Za-z]_\{[^{}\\]*\})
  | (?P<left>\\left\(|\\left\[|\\left\||\()
  | (?P<right>\\right\)|\\right\]|\\right\||\))
  | (?P<begin>\\begin\{array\}\{[a-z]*\})
  | (?P<end>\\end\{array\})
  | (?P<row>\\\\)
  | (?P<skip>\\,|\\;|\\!)
  | (?P<cmd>\\operatorname\{[a-z]+\}|\\[A-Za-z]+)
  | (?P<letter>[A-Za-z])
  | (?P<op>[-+^{}&=])
)''', re.X)

FUNCS = {'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
         'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp,
         'log': math.log, 'atan': math.atan, 'asinh': math.asinh,
         'sign': lambda v: (v > 0) - (v < 0),
         'coth': lambda v: 1 / math.tanh(v)}


class LatexError(Exception):
    pass


def tokens(text):
    out, i = [], 0
    text = text.strip()
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m or m.end() == i:
            raise LatexError('cannot read {!r}'.format(text[i:i + 40]))
        i = m.end()
        k = m.lastgroup
        if k != 'skip':
            out.append((k, m.group(k)))
    return out


def symbol(text):
    """x_{\\mathrm{ab}} and x_{ab} are the symbol xab"""
    m = re.match(r'^([A-Za-z])_\{(?:\\mathrm\{([^{}]*)\}|([^{}\\]*))\}$',
                 text)
    if m:
        return m.group(1) + (m.group(2) if m.group(2) is not None
                             else m.group(3))
    return text


class Reader(object):

    def __init__(self, text, env):
        self.t = tokens(text)
        self.i = 0
        self.env = env

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def expect(self, kind, value=None):
        k, v = self.next()
        if k != kind or (value is not None and v != value):
            raise LatexError('{} instead of {}'.format(v, value or kind))
        return v

    def group(self):
        self.expect('op', '{')
        v = self.sum()
        self.expect('op', '}')
        return v

    def sum(self):
        sign = 1.
        k, v = self.peek()
        if (k, v) in (('op', '-'), ('op', '+')):
            self.next()
            sign = -1. if v == '-' else 1.
        total = sign * self.product()
        while self.peek() in (('op', '+'), ('op', '-')):
            v = self.next()[1]
            p = self.product()
            total = total + p if v == '+' else total - p
        return total

    def product(self):
        out = self.power()
        while True:
            k, v = self.peek()
            if (k, v) in (('cmd', r'\cdot'), ('cmd', r'\times')):
                self.next()
                out *= self.power()
            elif k in ('num', 'name', 'letter', 'left', 'cmd') or \
                    (k, v) == ('op', '{'):
                out *= self.power()
            else:
                return out

    def exponent(self):
        if self.peek() == ('op', '^'):
            self.next()
            if self.peek() == ('op', '{'):
                return self.group()
            k, v = self.next()
            if k == 'num':
                return float(v)
            return self.env[symbol(v)]
        return None

    def power(self):
        if self.peek() == ('op', '-'):
            self.next()
            return -self.power()
        base = self.atom()
        e = self.exponent()
        return base if e is None else base ** e

    def atom(self):
        k, v = self.next()
        if k == 'num':
            return float(v)
        if k == 'name':
            return self.env[symbol(v)]
        if k == 'letter':
            if v == 'e' and 'e' not in self.env:
                return math.e
            return self.env[v]
        if k == 'left':
            out = self.sum()
            self.expect('right')
            return abs(out) if v == r'\left|' else out
        if (k, v) == ('op', '{'):
            self.i -= 1
            return self.group()
        if k == 'cmd':
            name = v[len(r'\operatorname{'):-1] if 'operatorname' in v \
                else v[1:]
            if name == 'frac':
                a = self.group()
                return a / self.group()
            if name == 'sqrt':
                return math.sqrt(self.group())
            if name == 'pi':
                return math.pi
            if name in FUNCS:
                e = self.exponent()
                out = FUNCS[name](self.atom())
                return out if e is None else out ** e
        raise LatexError('unexpected {!r}'.format(v))

    def matrix(self):
        self.expect('left')
        self.expect('begin')
        rows = [[self.sum()]]
        while True:
            k, v = self.next()
            if (k, v) == ('op', '&'):
                rows[-1].append(self.sum())
            elif k == 'row':
                rows.append([self.sum()])
            elif k == 'end':
                break
            else:
                raise LatexError('unexpected {!r} in a matrix'.format(v))
        self.expect('right')
        return rows

    def done(self, out):
        if self.i != len(self.t):
            raise LatexError('not the end: {}'.format(self.t[self.i:][:5]))
        return out


def value(text, env):
    r = Reader(text, env)
    return r.done(r.sum())


def matrix(text, env):
    r = Reader(text, env)
    return r.done(r.matrix())


def vector_of_symbols(text):
    """the names in a column of symbols"""
    if text == r'\mathrm{Empty}':
        return []
    t = tokens(text)
    if t[0][0] != 'left' or t[1][0] != 'begin' or t[-1][0] != 'right' or \
            t[-2][0] != 'end':
        raise LatexError('not a vector: {}'.format(text))
    body = t[2:-2]
    if any(k not in ('name', 'letter') for k, _ in body[::2]) or \
            any(k != 'row' for k, _ in body[1::2]):
        raise LatexError('not symbols: {}'.format(text))
    return [symbol(v) for _, v in body[::2]]
