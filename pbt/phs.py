# -*- coding: utf-8 -*-
"""
Random port-Hamiltonian systems, described by JSON-able specifications that
are turned (a) into pyphs Core objects and (b) into an independent
high-precision reference evaluator (sympy's diff/lambdify and mpmath only).
"""
import mpmath
import sympy

mp = mpmath.mp
mp.dps = 34

FUNCS = {n: getattr(sympy, n) for n in
         ('exp', 'log', 'sqrt', 'tanh', 'sinh', 'cosh', 'asinh', 'atan',
          'sin', 'cos', 'tan', 'Abs', 'sign')}


def sym(name):
    return sympy.Symbol(name, real=True)


def parse(text, names):
    """Parse an expression string over real symbols."""
    env = dict(FUNCS)
    for n in names:
        env[n] = sym(n)
    return sympy.sympify(eval(text, {'__builtins__': {}}, env))


# --------------------------------------------------------------------------
# generators

def gen_coef(d, params, lo=0.25, hi=2.0, p_param=(1, 3), name=None):
    """a positive coefficient: a literal, or a parameter of core.subs"""
    v = d.num(lo, hi, 16)
    if d.bool(*p_param):
        name = 'k{}'.format(len(params))
        params.append([name, v])
        return name
    return repr(v)


def gen_H(d, nx, params, rich=True):
    """terms of a convex, smooth storage function; every state is stored"""
    terms = []
    kinds = []
    for i in range(nx):
        x = 'x{}'.format(i)
        kind = d.weighted([(4, 'quad'), (3, 'quart'), (1, 'cosh'),
                           (1, 'cubicreg'), (1, 'affine')]
                          if rich else [(1, 'quad')])
        c = gen_coef(d, params)
        if kind == 'quad':
            terms.append('{c}*{x}**2/2'.format(c=c, x=x))
        elif kind == 'quart':
            c2 = gen_coef(d, params, 0.125, 1.)
            terms.append('{c}*{x}**2/2 + {b}*{x}**4/4'.format(c=c, b=c2, x=x))
        elif kind == 'cosh':
            terms.append('{c}*(cosh({x}) - 1)'.format(c=c, x=x))
        elif kind == 'cubicreg':
            terms.append('{c}*log(1 + exp({x}))+ {c}*{x}**2/4'
                         .format(c=c, x=x))
        elif kind == 'affine':
            b = d.signed(1.)
            terms.append('{c}*{x}**2/2 + {b}*{x}'.format(c=c, b=b, x=x))
        kinds.append(kind)
    ncross = d.weighted([(3, 0), (3, 1), (1, 2)]) if nx > 1 and rich else 0
    for _ in range(ncross):
        i, j = d.sample(range(nx), 2)
        kind = d.weighted([(3, 'bilin'), (2, 'diff4'), (2, 'sq')])
        c = d.choice(['0.125', '0.25', '0.1875'])
        xi, xj = 'x{}'.format(i), 'x{}'.format(j)
        if kind == 'bilin':
            # (xi +- xj)**2 keeps convexity
            s = d.choice(['-', '+'])
            if d.bool(1, 2):
                terms.append('{}*({}{}{})**2/2'.format(c, xi, s, xj))
            else:
                terms.append('0.125*{}*{}'.format(xi, xj))
        elif kind == 'diff4':
            terms.append('{}*({}-{})**4/4'.format(c, xi, xj))
        else:
            terms.append('{}*{}**2*{}**2/2'.format(c, xi, xj))
        kinds.append(kind)
    return terms, kinds


def gen_z(d, nw, nx, npar, params, obs=(), gsymb=False, rich=True,
          loop=False):
    """passive dissipation laws z(w), possibly modulated.  With `loop` (w
    depends on z through the structure) the slopes are bounded, so that the
    implicit equations are well conditioned."""
    z = []
    kinds = []
    i = 0
    while i < nw:
        w = 'w{}'.format(i)
        opts = [(4, 'lin')]
        if rich:
            opts += [(2, 'tanh'), (1, 'asinh'), (2, 'satcubic')]
            if not loop:
                opts += [(3, 'cubic')]
            if nx:
                opts += [(2, 'xmod')]
            if npar:
                opts += [(2, 'pmod')]
            if obs:
                opts += [(2, 'omod')]
            if gsymb and nx:
                opts += [(1, 'gmod')]
            if i + 1 < nw:
                opts += [(2, 'pair')]
                if not loop:
                    opts += [(1, 'pairnl')]
        kind = d.weighted(opts)
        r = gen_coef(d, params, 0.25, 2.)
        if kind == 'lin':
            z.append('{}*{}'.format(r, w))
        elif kind == 'cubic':
            z.append('{}*{} + 0.25*{}**3'.format(r, w, w))
        elif kind == 'satcubic':
            z.append('{r}*{w} + {c}*{w}**3/(1 + {w}**2)'.format(
                r=r, w=w, c=d.num(0.25, 1., 8)))
        elif kind == 'tanh':
            z.append('{}*tanh({})'.format(r, w))
        elif kind == 'asinh':
            z.append('asinh({}*{})'.format(r, w))
        elif kind == 'xmod':
            x = 'x{}'.format(d.int(0, nx - 1))
            z.append('({} + 0.5*{}**2)*{}'.format(r, x, w))
        elif kind == 'pmod':
            p = 'p{}'.format(d.int(0, npar - 1))
            z.append('({} + 0.5*{}**2)*{}'.format(r, p, w))
        elif kind == 'omod':
            o = d.choice(list(obs))
            z.append('({} + 0.5*{}**2)*{}'.format(r, o, w))
        elif kind == 'gmod':
            g = 'gx{}'.format(d.int(0, nx - 1))
            z.append('({} + 0.25*{}**2)*{}'.format(r, g, w))
        elif kind == 'pair':
            c = d.signed(.5)
            w2 = 'w{}'.format(i + 1)
            z.append('{}*{} + {}*{}'.format(r, w, c, w2))
            z.append('{}*{} - {}*{}'.format(r, w2, c, w))
            i += 1
        elif kind == 'pairnl':
            c = d.signed(1.)
            w2 = 'w{}'.format(i + 1)
            z.append('{r}*{a} + {c}*{b}/(1 + {a}**2 + {b}**2)'.format(
                r=r, a=w, b=w2, c=c))
            z.append('{r}*{b} - {c}*{a}/(1 + {a}**2 + {b}**2)'.format(
                r=r, a=w, b=w2, c=c))
            i += 1
        kinds.append(kind)
        i += 1
    return z, kinds


def gen_M(d, nx, nw, ny, params, xmod=True, npar=0, zero=(1, 3), ncy=0,
          direct=(1, 2), loop=False):
    """J as a dict {(i, j): expr string} (i < j), R as A.A^T (list of rows)"""
    n = nx + nw + ny + ncy
    J = []
    xm = False
    for i in range(n):
        for j in range(i + 1, n):
            if d.bool(*zero):
                continue
            if i >= nx + nw and not d.bool(*direct):
                continue
            ww = nx <= i < nx + nw and nx <= j < nx + nw
            if ww and not loop:
                continue
            v = d.signed(.5 if ww else 1.5, 8)
            if v == 0:
                continue
            e = repr(v)
            if xmod and nx and d.bool(1, 8):
                e = '{}*x{}'.format(v, d.int(0, nx - 1))
                xm = True
            elif npar and d.bool(1, 8):
                e = '{}*p{}'.format(v, d.int(0, npar - 1))
            elif d.bool(1, 8):
                name = 'k{}'.format(len(params))
                params.append([name, v])
                e = name
            J.append([i, j, e])
    A = []
    for _ in range(d.weighted([(2, 0), (2, 1), (1, 2)])):
        idx = [i for i in range(n)
               if (i < nx or (nx <= i < nx + nw and loop and d.bool(1, 2))
                   or (i >= nx + nw and d.bool(1, 2)))]
        col = [[i, d.signed(0.75, 8)] for i in idx if d.bool(1, 2)]
        col = [c for c in col if c[1] != 0]
        if col:
            A.append(col)
    return {'J': J, 'A': A}, xm


def gen_core(d, nx=(1, 3), nw=(0, 2), ny=(0, 2), npar=(0, 1), nobs=(0, 0),
             rich=True, xmod=True, gsymb=False, xsubs=True, ncy=0):
    params = []
    nx = d.int(*nx)
    nw = d.int(*nw)
    ny = d.int(*ny)
    npar = d.int(*npar)
    nobs = d.int(*nobs) if nx + nw + ny + npar else 0
    H, hk = gen_H(d, nx, params, rich)
    obs = []
    for k in range(nobs):
        args = (['x{}'.format(i) for i in range(nx)] +
                ['w{}'.format(i) for i in range(nw)] +
                ['u{}'.format(i) for i in range(ny)] +
                ['p{}'.format(i) for i in range(npar)] +
                ['dx{}'.format(i) for i in range(nx)])
        a = d.choice(args)
        b = d.choice(args)
        obs.append(['o{}'.format(k), d.choice(
            ['0.5*{a} + 0.25*{b}', '0.5*{a}*{b}', '{a} - 1*{b}/2'])
            .format(a=a, b=b)])
    loop = nw > 0 and d.bool(1, 2)
    z, zk = gen_z(d, nw, nx, npar, params, [o[0] for o in obs], gsymb, rich,
                  loop)
    M, xm = gen_M(d, nx, nw, ny, params, xmod and rich, npar if rich else 0,
                  ncy=ncy, loop=loop)
    spec = {'nx': nx, 'nw': nw, 'ny': ny, 'np': npar, 'ncy': ncy, 'H': H,
            'z': z, 'J': M['J'], 'A': M['A'], 'params': params, 'obs': obs}
    labels = set('H:' + k for k in hk) | set('z:' + k for k in zk)
    if xm:
        labels.add('M(x)')
    if M['A']:
        labels.add('R')
    if loop:
        labels.add('w loop')
    if obs:
        labels.add('observer')
    spec['labels'] = sorted(labels)
    return spec


# --------------------------------------------------------------------------

def names_of(spec):
    n = []
    t = spec.get('tag', '')
    for s, k in (('x', 'nx'), ('w', 'nw'), ('u', 'ny'), ('p', 'np')):
        n += ['{}{}{}'.format(s, t, i) for i in range(spec[k])]
    n += ['u{}{}'.format(t, spec['ny'] + i)
          for i in range(spec.get('ncy', 0))]
    n += ['dx{}{}'.format(t, i) for i in range(spec['nx'])]
    n += ['gx{}{}'.format(t, i) for i in range(spec['nx'])]
    n += [p[0] for p in spec['params']]
    n += [o[0] for o in spec['obs']]
    return n


def matrices(spec):
    """Sympy J, R of the specification, order [x, w, y(, cy)]"""
    names = names_of(spec)
    n = spec['nx'] + spec['nw'] + spec['ny'] + spec.get('ncy', 0)
    J = sympy.zeros(n, n)
    for i, j, e in spec['J']:
        v = parse(e, names)
        J[i, j] += v
        J[j, i] -= v
    R = sympy.zeros(n, n)
    for col in spec['A']:
        for i, a in col:
            for j, b in col:
                R[i, j] += a * b
    return J, R


def build_core(spec, label='sys', suffix=''):
    """The pyphs Core of a specification, through the public API."""
    from pyphs import Core
    core = Core(label=label)
    names = names_of(spec)
    t = spec.get('tag', '')
    x = [sym('x{}{}'.format(t, i)) for i in range(spec['nx'])]
    w = [sym('w{}{}'.format(t, i)) for i in range(spec['nw'])]
    nyt = spec['ny'] + spec.get('ncy', 0)
    u = [sym('u{}{}'.format(t, i)) for i in range(nyt)]
    y = [sym('y{}{}'.format(t, i)) for i in range(nyt)]
    p = [sym('p{}{}'.format(t, i)) for i in range(spec['np'])]
    H = sum((parse(t, names) for t in spec['H']), sympy.sympify(0))
    z = [parse(t, names) for t in spec['z']]
    if x:
        core.add_storages(list(x), H)
    if w:
        core.add_dissipations(list(w), list(z))
    if u:
        core.add_ports(list(u), list(y))
    if p:
        core.add_parameters(list(p))
    for name, e in spec['obs']:
        core.add_observer({sym(name): parse(e, names)})
    core.init_M()
    J, R = matrices(spec)
    core.M = core.M + sympy.SparseMatrix(J - R)
    for name, v in spec['params']:
        core.subs[sym(name)] = v
    return core


class Ref(object):
    """Independent evaluation of a specification, in multiple precision."""

    def __init__(self, spec):
        self.spec = spec
        names = names_of(spec)
        sub = {sym(n): sympy.Rational(repr(float(v)))
               for n, v in spec['params']}
        self.vnames = [n for n in names if n not in
                       [q[0] for q in spec['params']]]
        self.vsyms = [sym(n) for n in self.vnames]

        def prep(e):
            return sympy.nsimplify(sympy.sympify(e), rational=True).subs(sub)
        self.x = [sym('x{}'.format(i)) for i in range(spec['nx'])]
        H = prep(sum((parse(t, names) for t in spec['H']),
                     sympy.sympify(0)))
        self.H_expr = H
        self._H = self._lamb(H)
        self._g = [self._lamb(sympy.diff(H, xi)) for xi in self.x]
        self._hess = [[self._lamb(sympy.diff(H, xi, xj)) for xj in self.x]
                      for xi in self.x]
        self.hess_expr = [[sympy.diff(H, xi, xj) for xj in self.x]
                          for xi in self.x]
        self._z = [self._lamb(prep(parse(t, names))) for t in spec['z']]
        J, R = matrices(spec)
        n = J.shape[0]
        self.n = n
        self._J = [[self._lamb(prep(J[i, j])) for j in range(n)]
                   for i in range(n)]
        self._R = [[self._lamb(prep(R[i, j])) for j in range(n)]
                   for i in range(n)]
        self._o = [(name, self._lamb(prep(parse(e, names))))
                   for name, e in spec['obs']]

    def _lamb(self, e):
        e = sympy.sympify(e)
        fs = sorted(e.free_symbols, key=str)
        if not fs:
            v = mp.mpf(sympy.Rational(e).p) / sympy.Rational(e).q \
                if e.is_Rational else mp.mpf(str(sympy.N(e, 34)))
            return lambda env: v
        f = sympy.lambdify(fs, e, 'mpmath')
        ns = [str(s) for s in fs]
        return lambda env: f(*[env[k] for k in ns])

    @staticmethod
    def env(**vecs):
        out = {}
        for k, v in vecs.items():
            for i, e in enumerate(v):
                out['{}{}'.format(k, i)] = mp.mpf(float(e)) \
                    if not isinstance(e, mp.mpf) else e
        return out

    def H(self, env):
        return self._H(env)

    def grad(self, env):
        return [g(env) for g in self._g]

    def z(self, env):
        return [z(env) for z in self._z]

    def J(self, env):
        return [[e(env) for e in row] for row in self._J]

    def R(self, env):
        return [[e(env) for e in row] for row in self._R]

    def M(self, env):
        return [[a(env) - b(env) for a, b in zip(ra, rb)]
                for ra, rb in zip(self._J, self._R)]

    def o(self, env):
        """observers are evaluated in order"""
        return [f(env) for _, f in self._o]

    def separable(self):
        """indices of the states that are not coupled with another one"""
        nx = self.spec['nx']
        return [i for i in range(nx)
                if all(self.hess_expr[i][j] == 0
                       for j in range(nx) if j != i)]


def matvec(M, v):
    return [mp.fsum(a * b for a, b in zip(row, v)) for row in M]


def dot(a, b):
    return mp.fsum(x * y for x, y in zip(a, b))


def rename(spec, tag):
    """the same system with every symbol name tagged (x0 -> x<tag>0)"""
    import re
    rx = re.compile(r'\b([xwupkqo]|dx|gx)(\d+)\b')

    def go(o):
        if isinstance(o, str):
            return rx.sub(lambda m: m.group(1) + tag + m.group(2), o)
        if isinstance(o, list):
            return [go(e) for e in o]
        if isinstance(o, dict):
            return {go(k): (v if k == 'labels' else go(v))
                    for k, v in o.items()}
        return o
    out = go(spec)
    out['tag'] = tag
    return out
