# -*- coding: utf-8 -*-
"""C13: every component of the dictionary obeys its documented law."""
import os

import mpmath
import sympy

from pbt.engine import Violation, Reject

PROPERTY = 'C13'
RULE = ('a case is 1-3 components of the dictionary with drawn nodes, labels '
        'and parameters (number, named value, free parameter, or documented '
        'default), driven by sources on their terminals, built from a netlist '
        'file or from a sum of components; the state derivatives and the '
        'outputs at drawn points are compared with the documented laws; '
        'non-trivial when some terminal variable prescribed by a law is not '
        'zero')
CASES = {'quick': 640, 'thorough': 40000}
ASSUMPTIONS = ['plate voltage of triodes is positive (Koren law)',
               'labels do not collide with the internal names of another '
               'component']

mp = mpmath.mp
GMIN = mpmath.mpf('1e-12')
PI = mpmath.pi


def M(v):
    return mpmath.mpf(v)


# -- documented laws --------------------------------------------------------
# kind of a component:
#   'R' two terminals, no state: f = law(e) and e = inv(f)
#   'L' two terminals, a state driven by the effort: dx = e, f = law(x, e)
#   'C' two terminals, a state driven by the flux: dx = f, e = law(x, f)
#   'N' several terminals, no state: fluxes out of each terminal from the
#       potentials of the terminals
# parameters: name -> (default, low, high)

def _bisect(fun, target, lo, hi):
    """x such that fun(x) = target, fun increasing"""
    lo, hi = M(lo), M(hi)
    while fun(lo) > target:
        lo = 2 * lo - 1
    while fun(hi) < target:
        hi = 2 * hi + 1
    for _ in range(220):
        m = (lo + hi) / 2
        if fun(m) < target:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


def diode_inner(p, v):
    return p['Is'] * (mpmath.exp(v / (p['mu'] * p['v0'])) - 1) + GMIN * v


def diode_f(p, e):
    # e = v + R f,  f = inner(v)
    v = _bisect(lambda v: v + p['R'] * diode_inner(p, v), e, -1, 1)
    return diode_inner(p, v)


def diode_e(p, f):
    return _bisect(lambda v: diode_inner(p, v), f, -1, 1) + p['R'] * f


def sat(q, qsat):
    t = PI * q / (2 * qsat)
    return 4 / (4 - PI) * (mpmath.tan(t) - t)


def felt(p, q, dq):
    c = max(q, M(0)) / p['L']
    if c == 0:
        return M(0), M(0)
    return p['F'] * c**p['B'], p['A'] * p['L'] / p['B'] * c**(p['B'] - 1) * dq


def bjt_currents(p, vb, vc, ve):
    """Currents out of the nodes b, c, e into the component."""
    def fun(v):
        return p['Is'] * (mpmath.exp(v / (p['mu'] * p['Vt'])) - 1) + GMIN * v

    def cur(ib, ic, ie):
        fc, fe = fun(ib - ic), fun(ib - ie)
        ibc = (1 + 1 / p['betaR']) * fc - fe
        ibe = (1 + 1 / p['betaF']) * fe - fc
        return ibc, ibe

    def eqs(ib, ic, ie):
        ibc, ibe = cur(ib, ic, ie)
        return [(vb - ib) / p['Rb'] - ibc - ibe, (vc - ic) / p['Rc'] + ibc,
                (ve - ie) / p['Re'] + ibe]
    x = _newton(lambda v: eqs(*v), [M(0)] * 3)
    ib, ic, ie = x
    return [(vb - ib) / p['Rb'], (vc - ic) / p['Rc'], (ve - ie) / p['Re']]


def triode_currents(p, vk, vp, vg):
    vpk, vgk = vp - vk, vg - vk
    E = vpk / p['Kp'] * mpmath.log(1 + mpmath.exp(p['Kp'] * (
        1 / p['mu'] + (vgk + p['Vct']) / mpmath.sqrt(p['Kvb'] + vpk**2))))
    ip = 2 * E**p['Ex'] / p['Kg'] if E > 0 else M(0)
    ig = (vgk - p['Va']) / p['Rgk'] if vgk > p['Va'] else M(0)
    leak = GMIN * (vpk + vgk)
    ip, ig = ip + leak, ig + leak
    return [-ip - ig, ip, ig]


def pot_currents(p, v1, v2, v3):
    r12 = 1 + p['R'] * p['A']**p['E']
    r23 = 1 + p['R'] * (1 - p['A']**p['E'])
    a, b = (v1 - v2) / r12, (v2 - v3) / r23
    return [a, b - a, -b]


CUBIC = dict(F1=(10., .5, 20.), F3=(10., 0., 20.), xref=(1e-2, .5, 2.))
SAT = dict(K0=(1e3, .5, 5.), Ksat=(1e3, 0., 5.), xsat=(1e-2, .5, 2.))
FELT = dict(L=(1e-2, .5, 2.), F=(10., .5, 20.), A=(1e2, .5, 5.),
            B=(2.5, 1.5, 3.))
CSAT = dict(C0=(1e3, .5, 5.), Csat=(1e3, 0., 5.), phisat=(1e-1, .5, 2.))


def cubic(p, x, *a):
    return p['F1'] * x / p['xref'] + p['F3'] * (x / p['xref'])**3


def springsat(p, x, *a):
    return p['K0'] * (x + p['Ksat'] * sat(x, p['xsat']))


def capasat(p, x, *a):
    return (x + p['Csat'] * sat(x, p['phisat'])) / p['C0']


LAWS = {
    'electronics.resistor': ('R', dict(R=(1e3, .1, 50.)), {
        'f': lambda p, e: e / p['R'], 'e': lambda p, f: f * p['R']}),
    'electronics.capacitor': ('C', dict(C=(1e-9, .1, 5.)),
                              lambda p, x, f: x / p['C']),
    'electronics.inductor': ('L', dict(L=(1e-3, .1, 5.)),
                             lambda p, x, e: x / p['L']),
    'electronics.diode': ('R', dict(Is=(2e-9, 1e-3, 1.), mu=(1.7, 1., 2.),
                                    R=(.5, .1, 5.), v0=(26e-3, .1, 1.)), {
        'f': diode_f, 'e': diode_e}),
    'electronics.potentiometer': ('N', dict(
        R=(1e5, 1., 50.), A=('alpha', .1, .9), E=(1., .5, 3.)), pot_currents),
    'electronics.bjt': ('N', dict(
        Is=(1e-12, 1e-3, .1), betaR=(10., 1., 20.), betaF=(200., 20., 500.),
        Vt=(26e-3, .2, 1.), mu=(1., 1., 2.), Rb=(20., .5, 30.),
        Rc=(.1, .1, 3.), Re=(.1, .1, 3.)), bjt_currents),
    'electronics.triode': ('N', dict(
        mu=(88., 5., 100.), Ex=(1.4, 1.1, 2.), Kg=(1060., 100., 2000.),
        Kp=(600., 1., 20.), Kvb=(300., 1., 300.), Vct=(.5, 0., 1.),
        Va=(.33, .1, .6), Rgk=(3000., 100., 5000.)), triode_currents),
    'mechanics.mass': ('C', dict(M=(1e-2, .1, 5.)),
                       lambda p, x, f: x / p['M']),
    'mechanics.stiffness': ('L', dict(K=(1e3, .1, 5.)),
                            lambda p, x, e: x * p['K']),
    'mechanics.damper': ('R', dict(A=(1., .1, 5.)), {
        'f': lambda p, e: e * p['A'], 'e': lambda p, f: f / p['A']}),
    'mechanics.springcubic': ('L', CUBIC, cubic),
    'mechanics.springsat': ('L', SAT, springsat),
    'mechanics.felt': ('L', FELT, felt),
    'mechanics_dual.mass': ('L', dict(M=(1e-2, .1, 5.)),
                            lambda p, x, e: x / p['M']),
    'mechanics_dual.stiffness': ('C', dict(K=(1e3, .1, 5.)),
                                 lambda p, x, f: x * p['K']),
    'mechanics_dual.damper': ('R', dict(A=(1., .1, 5.)), {
        'f': lambda p, e: e / p['A'], 'e': lambda p, f: f * p['A']}),
    'mechanics_dual.springcubic': ('C', CUBIC, cubic),
    'mechanics_dual.springsat': ('C', SAT, springsat),
    'mechanics_dual.felt': ('C', FELT, felt),
    'magnetics.resistor': ('R', dict(R=(1e-3, .1, 5.)), {
        'f': lambda p, e: e / p['R'], 'e': lambda p, f: f * p['R']}),
    'magnetics.capacitor': ('C', dict(C=(1e-9, .1, 5.)),
                            lambda p, x, f: x / p['C']),
    'magnetics.capacitorsat': ('C', CSAT, capasat),
    'thermics.capacitor': ('C', dict(C=(1e3, .5, 5.), T0=(273.16, 1., 300.)),
                           lambda p, x, f: p['T0'] * mpmath.exp(x / p['C'])),
    'thermics.transfer': ('T', dict(R=(1e3, .1, 5.)), None),
    # (a spring of negligible stiffness, see EPS in the configuration)
    'edges.observerec': ('L', dict(), lambda p, x, e: x * M('1e-12')),
    'connectors.gyrator': ('Y', dict(alpha=(1., -3., 3.)), None),
    'connectors.transformer': ('X', dict(alpha=(1., -3., 3.)), None),
}
NAMES = sorted(LAWS)
# limits of the states
LIMIT = {'mechanics.springsat': 'xsat', 'mechanics_dual.springsat': 'xsat',
         'magnetics.capacitorsat': 'phisat'}
NTERM = {'electronics.potentiometer': 3, 'electronics.bjt': 3,
         'electronics.triode': 3}
ONE = ('mechanics.mass', 'thermics.capacitor')
# (dictionary, type) of sources that impose the effort, the flux
VSRC = [('electronics', 'voltage'), ('mechanics', 'velocity'),
        ('mechanics_dual', 'force'), ('magnetics', 'mmf'),
        ('electronics', 'Voltage')]
ISRC = [('electronics', 'current'), ('mechanics', 'force'),
        ('mechanics_dual', 'velocity'), ('magnetics', 'fluxvar'),
        ('mechanics', 'FORCE')]
# documented number of nodes and edges
SHAPE = {'electronics.bjt': (6, 5), 'electronics.diode': (3, 3),
         'electronics.potentiometer': (3, 2), 'electronics.triode': (3, 2),
         'mechanics.felt': (2, 2), 'mechanics_dual.felt': (3, 2),
         'thermics.transfer': (3, 2), 'connectors.gyrator': (4, 2),
         'connectors.transformer': (4, 2)}


def gen(d):
    n = d.weighted([(4, 1), (2, 2), (1, 3)])
    comps = []
    used = []
    base = d.choice(['c', 'my', 'K', 'x1'])
    for k in range(n):
        name = d.choice(NAMES)
        kind, pars, _ = LAWS[name]
        c = {'name': name, 'label': base + 'abc'[k], 'pars': {}, 'src': []}
        for key in sorted(pars):
            default, lo, hi = pars[key]
            val = round(d.num(lo, hi, 100), 6)
            if key == 'alpha':
                val = val or 0.5
            forms = [(3, 'num'), (2, 'named'), (2, 'free')]
            if not isinstance(default, str):
                forms.append((2, 'default'))
            else:
                forms.append((1, 'default'))
            c['pars'][key] = [d.weighted(forms), val]
        nt = {'X': 4, 'Y': 4, 'T': 2}.get(kind, NTERM.get(
            name, 1 if name in ONE else 2))
        # nodes of their own, one of them may be the datum
        nodes = ['{}{}'.format('PQS'[k], i) for i in range(nt)]
        if name in ('thermics.capacitor',):
            nodes = [c['label']]
        if nt > 1 and kind != 'T' and d.bool():
            nodes[d.int(0, nt - 1)] = '#'
        c['nodes'] = nodes
        c['drive'] = d.choice(['V', 'I'])
        c['flip'] = [d.bool() for _ in range(4)]
        c['srct'] = [d.int(0, len(VSRC) - 1) for _ in range(4)]
        c['ends'] = [d.choice(['cap', 'src']) for _ in range(2)]
        comps.append(c)
    points = []
    for _ in range(2):
        points.append([[d.signed(1., 100) for _ in range(8)]
                       for _ in comps])
    return {'comps': comps, 'points': points, 'shuffle': d.int(0, 1000),
            'how': d.choice(['sum', 'netlist', 'file'])}


# -- network under test -----------------------------------------------------

def network(spec):
    """The lines of the netlist and, per component, what its sources are."""
    lines = []
    free = {}
    plans = []
    for k, c in enumerate(spec['comps']):
        name = c['name']
        kind, pars, law = LAWS[name]
        dic, comp = name.split('.')
        args = {}
        vals = {}
        for key in sorted(c['pars']):
            form, val = c['pars'][key]
            default = pars[key][0]
            if form == 'default':
                if isinstance(default, str):
                    vals[key] = M(val)
                else:
                    vals[key] = M(default)
            elif form == 'num':
                args[key] = val
                vals[key] = M(val)
            else:
                pn = 'p{}{}'.format(c['label'], key)
                vals[key] = M(val)
                args[key] = (pn, val) if form == 'named' else pn
                if form == 'free':
                    free[pn] = M(val)
        for key in vals:
            # several potentiometers share the default label of A
            if c['pars'][key][0] == 'default' and \
                    isinstance(pars[key][0], str):
                vals[key] = free.setdefault(pars[key][0], vals[key])
        lines.append((dic, comp, c['label'], tuple(c['nodes']), args))
        plan = {'c': c, 'kind': kind, 'law': law, 'vals': vals, 'src': []}
        plans.append(plan)

        def source(i, typ, n1, n2):
            """A source imposing the effort (V) or flux (I) from n1 to n2"""
            if c['flip'][i]:
                n1, n2 = n2, n1
            sdic, stype = (VSRC if typ == 'V' else ISRC)[c['srct'][i]]
            label = '{}s{}'.format(c['label'], i)
            lines.append((sdic, 'source', label, (n1, n2), {'type': stype}))
            plan['src'].append((label, typ, -1 if c['flip'][i] else 1))
            return label

        nodes = list(c['nodes'])
        if name in ONE:
            nodes = ['#'] + nodes
        if kind in 'RLC':
            typ = {'L': 'V', 'C': 'I', 'R': c['drive']}[kind]
            if name == 'electronics.diode':
                # (driven by its current, the causality of its two
                # parallel elements is not decided by propagation)
                typ = 'V'
            source(0, typ, nodes[0], nodes[1])
            if '#' not in nodes:
                # anchored by a source without any flux
                source(1, 'V', nodes[1], '#')
        elif kind == 'N':
            for i, nd in enumerate(nodes):
                if nd != '#':
                    source(i, 'V', nd, '#')
        elif kind in 'XY':
            a = c['drive']
            b = a if kind == 'Y' else {'V': 'I', 'I': 'V'}[a]
            source(0, a, nodes[0], nodes[1])
            source(1, b, nodes[2], nodes[3])
            if '#' not in nodes[:2]:
                source(2, 'V', nodes[1], '#')
            if '#' not in nodes[2:]:
                source(3, 'V', nodes[3], '#')
        elif kind == 'T':
            for i, nd in enumerate(nodes):
                if c['ends'][i] == 'cap':
                    cn, tn = 'p{}C{}'.format(c['label'], i), \
                        'p{}T{}'.format(c['label'], i)
                    lines.append(('thermics', 'capacitor', nd, (nd,),
                                  {'C': (cn, 2.5), 'T0': (tn, 3.)}))
                else:
                    lines.append(('thermics', 'source', nd, (nd,),
                                  {'type': 'temperature'}))
    return lines, plans, free


def build(spec, ctx, lines):
    import random
    from pyphs import Graph, Netlist
    import pyphs.dictionary as dictionary
    lines = list(lines)
    random.Random(spec['shuffle']).shuffle(lines)
    if spec['how'] == 'sum':
        g = Graph(label='net')
        for dic, comp, label, nodes, args in lines:
            klass = getattr(getattr(dictionary, dic), comp.capitalize())
            g += klass(label, nodes, **args)
        return g
    path = os.path.join(ctx.scratch, 'net.net')
    net = Netlist(path, clear=True)
    for dic, comp, label, nodes, args in lines:
        net.add_line({'dictionary': dic, 'component': comp, 'label': label,
                      'nodes': nodes, 'arguments': args})
    if spec['how'] == 'file':
        net.write()
        net = Netlist(path)
    return net.to_graph()


def _newton(fun, v):
    v = [M(a) for a in v]
    n = len(v)
    if not n:
        return v

    def norm(r):
        return max(abs(a) for a in r)

    def safe(v):
        try:
            r = fun(v)
        except (OverflowError, ZeroDivisionError, ValueError, TypeError):
            return None
        if any(isinstance(a, mpmath.mpc) or not mpmath.isfinite(a)
               for a in r):
            return None
        return r
    r = safe(v)
    if r is None:
        raise Reject('undefined start')
    # explicit equations are solved at once
    w = [a - b for a, b in zip(v, r)]
    rw = safe(w)
    if rw is not None and norm(rw) < norm(r):
        v, r = w, rw
    for _ in range(200):
        if norm(r) < M('1e-28') * (1 + norm(v)):
            return v
        J = mpmath.matrix(n, n)
        for i in range(n):
            h = M('1e-18') * (1 + abs(v[i]))
            w = list(v)
            w[i] += h
            rp = safe(w)
            w[i] -= 2 * h
            rm = safe(w)
            if rp is None or rm is None:
                raise Reject('undefined derivative')
            for j in range(n):
                J[j, i] = (rp[j] - rm[j]) / (2 * h)
        try:
            st = mpmath.lu_solve(J, mpmath.matrix(r))
        except ZeroDivisionError:
            raise Reject('singular')
        t = M(1)
        while True:
            w = [v[i] - t * st[i] for i in range(n)]
            rw = safe(w)
            if rw is not None and (norm(rw) < norm(r) or t < M('1e-3')):
                break
            t /= 2
            if t < M('1e-9'):
                raise Reject('not solved')
        if norm(rw) >= norm(r) and norm(r) < M('1e-22') * (1 + norm(v)):
            return v
        v, r = w, rw
    raise Reject('not solved')


class System(object):
    """Multiple precision solution of a core."""

    def __init__(self, core, free):
        from pbt.coreeval import closure
        self.x, self.w = list(core.x), list(core.w)
        self.u, self.y = list(core.u), list(core.y)
        H = sympy.sympify(core.H)
        grad = [sympy.diff(H, x) for x in self.x]
        g = list(zip([sympy.Symbol('g' + str(x), real=True) for x in self.x],
                     grad))
        sub = closure(core.subs, g + list(dict(core.observers).items()))
        self.p = list(core.p)
        self.args = self.x + self.w + self.u + self.p
        n = len(self.x) + len(self.w) + len(self.y)
        if tuple(core.M.shape) != (n, n):
            raise Violation('structure', core.M.shape)
        ex = [e.xreplace(sub) for e in grad] + \
            [sympy.sympify(e).xreplace(sub) for e in core.z] + \
            [sympy.sympify(core.M[i, j]).xreplace(sub)
             for i in range(n) for j in range(n)]
        unk = set().union(*[e.free_symbols for e in ex]) - set(self.args)
        if unk:
            raise Violation('unknown symbols', sorted(map(str, unk)))
        missing = set(map(str, self.p)) ^ set(free)
        if missing:
            raise Violation('parameters', sorted(missing))
        self.pv = [free[str(s)] for s in self.p]
        self._f = sympy.lambdify(self.args, ex, 'mpmath', dummify=True)
        self.n = n

    def solve(self, x, u):
        xs = [x[str(s)] for s in self.x]
        us = [u[str(s)] for s in self.u]
        nx, nw = len(xs), len(self.w)
        n = self.n

        def full(w):
            o = [M(a) for a in self._f(*(xs + list(w) + us + self.pv))]
            a = o[:nx + nw] + us
            m = o[nx + nw:]
            return [sum(m[i * n + j] * a[j] for j in range(n)
                        if m[i * n + j]) + M(0) for i in range(n)]
        w = _newton(lambda w: [a - b for a, b in
                               zip(w, full(w)[nx:nx + nw])], [M(0)] * nw)
        b = full(w)
        out = {}
        for i, s in enumerate(self.x):
            out['dt' + str(s)] = b[i]
        for i, s in enumerate(self.y):
            out[str(s)] = b[nx + nw + i]
        return out


def run(spec, ctx):
    mp.dps = 40
    lines, plans, free = network(spec)
    g = build(spec, ctx, lines)
    core = g.to_core()
    S = System(core, free)
    labels = [c['name'] for c in spec['comps']]
    shapes(spec)
    observers(spec, core)
    nontrivial = False
    finding = None
    for point in spec['points']:
        x, u, ref = {}, {}, {}
        extra = {}
        for plan, vals in zip(plans, point):
            one(plan, [M(v) for v in vals], x, u, ref, extra)
        nx = set(str(s) for s in S.x)
        if nx != set(x):
            raise Violation('states', '{} instead of {}'.format(
                sorted(nx), sorted(x)))
        if set(str(s) for s in S.u) != set(u):
            raise Violation('inputs', sorted(map(str, S.u)))
        got = S.solve(x, u)
        for key in sorted(ref):
            a, b = ref[key], got.get(key)
            if b is None or not mpmath.isfinite(b):
                raise Violation('law', '{} is {}'.format(key, b))
            tol = M('1e-9') * abs(a) + M('1e-13')
            if abs(a - b) > tol:
                if key in extra and abs(extra[key] - b) <= tol:
                    finding = Violation('felt damping', 'the damping force '
                                        'of a felt has an extra factor L')
                    continue
                raise Violation('law', '{}: {} instead of {} ({})'.format(
                    key, mpmath.nstr(b, 12), mpmath.nstr(a, 12), labels))
            if abs(a) > M('1e-6'):
                nontrivial = True
    if finding is not None:
        raise finding
    return {'nontrivial': nontrivial, 'labels': labels + [spec['how']]}


def shapes(spec):
    import pyphs.dictionary as dictionary
    for c in spec['comps']:
        if '#' in c['nodes']:
            continue
        dic, comp = c['name'].split('.')
        klass = getattr(getattr(dictionary, dic), comp.capitalize())
        args = {k: v for k, (f, v) in c['pars'].items()}
        g = klass(c['label'], tuple(c['nodes']), **args)
        shape = SHAPE.get(c['name'], (2, 1))
        if (len(g.nodes), len(g.edges)) != shape:
            raise Violation('shape', '{}: {} nodes, {} edges'.format(
                c['name'], len(g.nodes), len(g.edges)))


def observers(spec, core):
    """An observer gives the position and the velocity."""
    obs = {str(k): sympy.sympify(v) for k, v in dict(core.observers).items()}
    for c in spec['comps']:
        if c['name'] != 'edges.observerec':
            continue
        for key, val in (('q_', 'x{}'), ('dtq_', 'dx{}*F_S')):
            e = obs.get(key + c['label'])
            ref = sympy.sympify(val.format(c['label']))
            if e is None or str(sympy.simplify(sympy.sympify(
                    str(e)) - ref)) != '0':
                raise Violation('observer', '{}{}: {}'.format(
                    key, c['label'], e))


def one(plan, v, x, u, ref, extra):
    """Reference values of the states, inputs, and what is expected."""
    c, kind, law, p = plan['c'], plan['kind'], plan['law'], plan['vals']
    name = c['name']
    srcs = plan['src']

    def put(i, val):
        """imposes val on the i-th source (in the direction n1->n2 before the
        flip)"""
        label, typ, s = srcs[i]
        u['u' + label] = s * val

    def expect(i, val):
        label, typ, s = srcs[i]
        ref['y' + label] = s * val

    xname = 'x' + c['label']
    if name.endswith('.felt'):
        xname = 'q' + c['label']
    if kind in 'LC':
        xv = v[0]
        if name in LIMIT:
            xv = v[0] * p[LIMIT[name]] * M('0.9')
        elif name.endswith('felt'):
            xv = v[0] * p['L'] * 2
        elif name.endswith('springcubic'):
            xv = v[0] * p['xref'] * 2
        elif name == 'thermics.capacitor':
            xv = v[0] * p['C']
        x[xname] = xv
        put(0, v[1])
        # the flux (effort) of the source is in the same loop (pair of nodes)
        drive = v[1] if kind == 'L' else -v[1]
        ref['dt' + xname] = drive
        val = law(p, xv, drive)
        if name.endswith('felt'):
            el, da = val
            s = -1 if kind == 'L' else 1
            # documented: the rate is that of the crush q/L
            dq = da / p['L']
            expect(0, s * (el + dq))
            label, typ, sg = srcs[0]
            extra['y' + label] = sg * s * (el + da)
        else:
            expect(0, -val if kind == 'L' else val)
        if len(srcs) > 1:
            put(1, v[2])
            expect(1, M(0))
    elif kind == 'R':
        typ = srcs[0][1]
        drive = v[1]
        if name == 'electronics.diode':
            if typ == 'V':
                drive = v[1] * p['mu'] * p['v0'] * 6
            elif v[1] > 0:
                # the current in the component is the opposite
                drive = v[1] * p['Is'] / 2
            else:
                drive = v[1] * p['Is'] * 50
        put(0, drive)
        if typ == 'V':
            expect(0, -law['f'](p, drive))
        else:
            expect(0, law['e'](p, -drive))
        if len(srcs) > 1:
            put(1, v[2])
            expect(1, M(0))
    elif kind == 'N':
        pots = []
        for i, nd in enumerate(c['nodes']):
            if nd == '#':
                pots.append(M(0))
            elif name == 'electronics.bjt':
                pots.append(v[i] * p['mu'] * p['Vt'] * 6)
            elif name == 'electronics.triode':
                pots.append(v[i] * [1, 50, 2][i])
            else:
                pots.append(v[i])
        if name == 'electronics.triode':
            if pots[1] - pots[0] <= 0:
                pots[0], pots[1] = pots[1], pots[0]
            if '#' in c['nodes']:
                i = c['nodes'].index('#')
                pots = [a - pots[i] for a in pots]
            if pots[1] == pots[0]:
                raise Reject('no plate voltage')
            if abs(pots[2] - pots[0] - p['Va']) < M('1e-6'):
                raise Reject('threshold')
        cur = law(p, *pots)
        k = 0
        for i, nd in enumerate(c['nodes']):
            if nd == '#':
                continue
            put(k, pots[i])
            expect(k, -cur[i])
            k += 1
    elif kind == 'Y':
        a = p['alpha']
        put(0, v[0])
        put(1, v[1])
        if srcs[0][1] == 'V':
            # f_B = -e_A/alpha, f_A = e_B/alpha
            expect(0, -v[1] / a)
            expect(1, v[0] / a)
        else:
            # f_A = -v0, f_B = -v1: e_A = -alpha f_B, e_B = alpha f_A
            expect(0, a * v[1])
            expect(1, -a * v[0])
    elif kind == 'X':
        a = p['alpha']
        put(0, v[0])
        put(1, v[1])
        if srcs[0][1] == 'V':
            # f_B = -v1 = alpha f_A; e_A = v0 = -alpha e_B
            expect(0, v[1] / a)
            expect(1, -v[0] / a)
        else:
            # f_A = -v0, f_B = alpha f_A; e_A = -alpha e_B
            expect(0, -a * v[1])
            expect(1, a * v[0])
    if kind in 'XY':
        for i in range(2, len(srcs)):
            put(i, v[i])
            expect(i, M(0))
    if kind == 'T':
        temps = []
        for i, nd in enumerate(c['nodes']):
            if c['ends'][i] == 'cap':
                xv = v[i]
                x['x' + nd] = xv
                temps.append(3 * mpmath.exp(xv / M('2.5')))
            else:
                t = 2 + v[i]
                u['u' + nd] = t
                temps.append(t)
        R = p['R']
        z = [R * (temps[0] - temps[1]) / temps[0],
             R * (temps[1] - temps[0]) / temps[1]]
        for i, nd in enumerate(c['nodes']):
            # entropy fluxes at a node: capacitor + transfer = 0
            if c['ends'][i] == 'cap':
                ref['dtx' + nd] = -z[i]
            else:
                ref['y' + nd] = -z[i]


def finding_key(spec, info):
    return info.get('kind') if info.get('kind') == 'felt damping' else None
