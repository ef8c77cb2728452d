# -*- coding: utf-8 -*-
"""C16: composite components (piecewise linear, fractional, beam, pickup)."""
import os

import numpy as np

from pbt import nets
from pbt.engine import Violation

PROPERTY = 'C16'
RULE = ('a case is a piecewise linear storage or dissipation read from a '
        'random data file (and its simulation), a fractional integrator or '
        'differentiator, a cantilever beam with 1-3 contacts or an '
        'electromagnetic pickup, with random parameters (given or default), '
        'nodes and way of construction, driven by sources; its law at the '
        'terminals is compared with the interpolation of the data, the '
        'fractional power of the frequency, the modal expansion of the beam '
        'and the equations of the pickup; non-trivial when at least two '
        'values are compared')
CASES = {'quick': 120, 'thorough': 6000}
TIMEOUT = 240
ASSUMPTIONS = ['the response of a fractional component is compared within 20% '
               'in the middle of its optimisation interval, with two poles '
               'per decade; that of a beam within 0.3% (its length and '
               'wavenumbers are found on grids)']


def gen(d):
    kind = d.weighted([(8, 'pwl'), (4, 'frac'), (2, 'beam'), (3, 'pickup')])
    spec = {'kind': kind, 'how': d.choice(['sum', 'netlist']),
            'flip': d.bool(), 'datum': d.bool()}
    if kind == 'pwl':
        nn, npos = d.int(0, 4), d.int(1, 4)
        if nn == 0 and npos < 2:
            npos = 2
        spec.update({
            'comp': d.choice(['storage', 'dissipative']),
            'integ': d.choice(['integ', 'integrate', 'no']),
            'ctrl': d.weighted([(2, 'e'), (2, 'f'), (1, 'default')]),
            'neg': [[d.num(0.25, 2., 8), d.num(0.125, 2., 8)]
                    for _ in range(nn)],
            'pos': [[d.num(0.25, 2., 8), d.num(0.125, 2., 8)]
                    for _ in range(npos)],
            'extra': [d.int(0, 2), d.int(0, 2), d.int(1, 2)]
            if d.bool(1, 3) else None,
            'points': [d.signed(6., 16) for _ in range(8)],
            'u': [d.signed(3., 8) for _ in range(6)]})
    elif kind == 'frac':
        spec.update({
            'comp': d.choice(['fracintec', 'fracintfc', 'fracderec',
                              'fracderfc']),
            'g': d.num(0.25, 8., 4), 'order': d.choice([.4, .45, .5, .55, .6]),
            'fmin': d.choice([20., 50., 100.]), 'dec': d.choice([1., 1.5, 2.]),
            'more': d.int(0, 2), 'points': [d.int(3, 7) / 10.
                                            for _ in range(3)]})
    elif kind == 'beam':
        n = d.int(1, 3)
        pars = {}
        for k, vals in (('F', [55., 220., 1000.]), ('R', [5e-4, 2e-3]),
                        ('E', [70e9, 210e9]), ('M', [2700., 8000.]),
                        ('A', [0., 1., 0.2]), ('D', [0., 1., 2.])):
            if d.bool(2, 3):
                pars[k] = d.choice(vals)
        pars['N'] = d.int(1, 4)
        spec.update({'pars': pars, 'contacts': [
            [d.choice([0.25, 0.4, 0.5, 0.75, 0.9, 1.]),
             d.choice([0., 0.05, 0.1, 0.2])] for _ in range(n)],
            'default': n == 2 and d.bool(1, 4),
            'points': [[d.choice([300., 3000.]), d.choice([200., 5000., 2e4])]
                       for _ in range(2)],
            'bad': d.bool(1, 4)})
    else:
        pars = {}
        for k in ('Lv', 'Lh', 'Ccoil', 'Ncoil', 'Rb', 'Rp'):
            if d.bool(3, 4):
                pars[k] = d.num(0.25, 3., 8)
        spec.update({'pars': pars, 'src': 'voltage',
                     'points': [[d.signed(3., 8) for _ in range(6)]
                                for _ in range(3)]})
    return spec


def build(spec, lines, ctx):
    """lines: (dictionary, component, label, nodes, arguments)"""
    import pyphs.dictionary as dictionary
    from pyphs import Graph, Netlist
    if spec['how'] == 'netlist':
        path = os.path.join(ctx.newdir(), 'net.net')
        net = Netlist(path, clear=True)
        for dic, comp, label, nodes, args in lines:
            net.add_line({'dictionary': dic, 'component': comp,
                          'label': label, 'nodes': nodes, 'arguments': args})
        net.write()
        return Graph(netlist=Netlist(path))
    g = Graph(label='net')
    for dic, comp, label, nodes, args in lines:
        g += getattr(getattr(dictionary, dic), comp.capitalize())(
            label, nodes, **args)
    return g


# --------------------------------------------------------------------------
# piecewise linear

def interp(X, Y, x):
    """Linear interpolation, extrapolated with the first and last slopes."""
    if x <= X[1]:
        i = 0
    elif x >= X[-2]:
        i = len(X) - 2
    else:
        i = max(k for k in range(len(X) - 1) if X[k] <= x)
    return Y[i] + (x - X[i]) * (Y[i + 1] - Y[i]) / (X[i + 1] - X[i])


def integral(X, Y, x):
    """Integral of the interpolation from 0 to x."""
    cuts = sorted([v for v in X if min(0, x) < v < max(0, x)] + [0., x])
    tot = 0.
    for a, b in zip(cuts, cuts[1:]):
        tot += (b - a) * (interp(X, Y, a) + interp(X, Y, b)) / 2.
    return tot if x >= 0 else -tot


def slope(X, Y, x):
    i = max([0] + [k for k in range(len(X) - 1) if X[k] <= x])
    return (Y[i + 1] - Y[i]) / (X[i + 1] - X[i])


def run_pwl(spec, ctx):
    integ = spec['integ'] != 'no'
    storage = spec['comp'] == 'storage'
    X, Y = [0.], [0.]
    sgn = -1 if (integ or not storage) else 1
    for dx, dy in spec['neg']:
        X.insert(0, X[0] - dx)
        Y.insert(0, Y[0] + sgn * dy)
    for dx, dy in spec['pos']:
        X.append(X[-1] + dx)
        Y.append(Y[-1] + dy)
    FX, FY = list(X), list(Y)
    args = {}
    if spec['extra']:
        # values of the file that are not selected
        a, b, step = spec['extra']
        FX, FY = [], []
        for i in range(len(X)):
            FX += [X[i]] + [99.] * (step - 1) * (i < len(X) - 1)
            FY += [Y[i]] + [-99.] * (step - 1) * (i < len(X) - 1)
        FX = [77.] * a + FX + [55.] * b
        FY = [-1.] * a + FY + [-1.] * b
        args = {'start': a, 'stop': a + (len(X) - 1) * step + 1, 'step': step}
    path = os.path.join(ctx.newdir(), 'data.pwl')
    with open(path, 'w') as f:
        f.write(' '.join(repr(v) for v in FX) + '\n' +
                '  '.join(repr(v) for v in FY) + '\n')
    args['file'] = path
    ctrl = spec['ctrl']
    if ctrl != 'default':
        args['ctrl'] = ctrl
    else:
        ctrl = 'e'
    if storage and integ:
        args[spec['integ']] = True
    nodes = ('A', '#')
    snodes = ('#', 'A') if spec['flip'] else nodes
    src = {'e': 'voltage', 'f': 'current'}[ctrl]
    lines = [('pwl', spec['comp'], 'P', nodes, args),
             ('electronics', 'source', 'S', snodes, {'type': src})]
    core = build(spec, lines, ctx).to_core()
    # source and component in parallel: same effort, opposite fluxes
    s = -1. if spec['flip'] else 1.
    tox = s if ctrl == 'e' else -s      # from u to the component
    toy = -s if ctrl == 'e' else s      # from the component to y
    import sympy
    sub = {k: v for k, v in core.subs.items()}
    n = 0
    if storage:
        if [str(v) for v in core.x] != ['xP'] or core.w:
            raise Violation('variables', '{} {}'.format(core.x, core.w))
        H = sympy.sympify(core.H).subs(sub)
        var = core.x[0]
        grad = sympy.diff(H, var).subs(sympy.DiracDelta(var), 0)
    else:
        if [str(v) for v in core.w] != ['wP'] or core.x:
            raise Violation('variables', '{} {}'.format(core.x, core.w))
        var = core.w[0]
        law = sympy.sympify(core.z[0]).subs(sub)
    M = np.array(core.M.subs(sub).tolist(), dtype=float)
    if not np.allclose(M, [[0, tox], [toy, 0]], atol=1e-9):
        raise Violation('signs', repr(M.tolist()))
    for x in spec['points'] + X:
        if not storage:
            got, ref = float(law.subs(var, x)), interp(X, Y, x)
        elif integ:
            got, ref = float(grad.subs(var, x)), interp(X, Y, x)
            h, hr = float(H.subs(var, x)), integral(X, Y, x)
            if not abs(h - hr) <= 1e-9 * (1 + abs(hr)):
                raise Violation('energy', 'H({}) = {} instead of {} for {}, '
                                '{}'.format(x, h, hr, X, Y))
        else:
            got, ref = float(H.subs(var, x)), interp(X, Y, x)
        if not abs(got - ref) <= 1e-9 * (1 + abs(ref)):
            raise Violation('interpolation', '{} at {} instead of {} for {}, '
                            '{}'.format(got, x, ref, X, Y))
        n += 1
    # simulation: exact increments
    fs = 8.
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        simu = core.to_simulation(config={
            'fs': fs, 'path': ctx.newdir(), 'grad': 'discret'})
        u = np.array(spec['u'])[:, None]
        simu.init(u=u, nt=len(u))
        simu.process()
        y = np.array(simu.data['y']).ravel()
    if storage:
        E = (lambda x: integral(X, Y, x)) if integ else \
            (lambda x: interp(X, Y, x))
        x = 0.
        for i, v in enumerate(spec['u']):
            x1 = x + tox * v / fs
            if abs(x1 - x) > 1e-9:
                ref = toy * (E(x1) - E(x)) / (x1 - x)
                if not abs(y[i] - ref) <= 1e-6 * (1 + abs(ref)):
                    raise Violation('simulated energy', 'step {}: y = {} '
                                    'instead of {}'.format(i, y[i], ref))
                n += 1
            x = x1
    else:
        for i, v in enumerate(spec['u']):
            ref = toy * interp(X, Y, tox * v)
            if not abs(y[i] - ref) <= 1e-6 * (1 + abs(ref)):
                raise Violation('simulated dissipation', 'step {}: y = {} '
                                'instead of {}'.format(i, y[i], ref))
            n += 1
    return n, ['pwl.' + spec['comp'], 'ctrl ' + spec['ctrl']] + (
        ['selected values'] if spec['extra'] else [])


# --------------------------------------------------------------------------
# fractional calculus

def run_frac(spec, ctx):
    comp = spec['comp']
    der = 'der' in comp
    fmin, fmax = spec['fmin'], spec['fmin'] * 10 ** spec['dec']
    emin = np.log10(2 * np.pi * fmin) - 0.75
    emax = np.log10(2 * np.pi * fmax) + 0.75
    npol = int(np.ceil(2.5 * (emax - emin))) + 1 + spec['more']
    args = {'g': spec['g'], ('alpha' if der else 'beta'): spec['order'],
            'NbPoles': npol,
            'PolesMinMax': (round(emin, 2), round(emax, 2)),
            'NbFreqPoints': 50, 'FreqsMinMax': (fmin, fmax),
            'DoPlot': False}
    ec = comp.endswith('ec')
    nodes = ('A', '#') if spec['datum'] else ('A', 'B')
    lines = [('fraccalc', comp, 'F', nodes, args),
             ('electronics', 'source', 'S',
              nodes[::-1] if spec['flip'] else nodes,
              {'type': 'voltage' if ec else 'current'})]
    if not spec['datum']:
        lines.append(('electronics', 'source', 'Z', ('B', '#'),
                      {'type': 'voltage'}))
    core = build(spec, lines, ctx).to_core()
    n = 0
    for q in spec['points']:
        f = fmin * 10 ** (spec['dec'] * q)
        s = 2j * np.pi * f
        got = nets.core_response(core, s, {})[('S', 'S')]
        ref = -spec['g'] * s ** (spec['order'] * (1 if der else -1))
        if not abs(got - ref) <= 0.2 * abs(ref):
            raise Violation('fractional law', '{} at {} Hz instead of {}'
                            .format(got, f, ref))
        n += 1
    return n + 1, ['fraccalc.' + comp]


# --------------------------------------------------------------------------
# beam

def wavenumbers(N):
    """Solutions of cos(b) cosh(b) = -1."""
    from scipy.optimize import brentq
    return [brentq(lambda b: np.cos(b) + 1. / np.cosh(b),
                   n * np.pi + 1e-9, (n + 1) * np.pi) for n in range(N)]


def run_beam(spec, ctx):
    from scipy.integrate import quad
    p = {'F': 440., 'R': 1e-3, 'E': 180e9, 'M': 7750., 'A': 5e-2, 'D': 6.}
    p.update(spec['pars'])
    N = p['N']
    Mb, Kb = np.pi * p['R']**2 * p['M'], p['E'] * np.pi * p['R']**4 / 4.
    b = wavenumbers(N)
    L = (b[0]**4 * Kb / Mb / (2 * np.pi * p['F'])**2)**0.25
    contacts = []
    for z, w in spec['contacts']:
        if z >= 1. or z + w / 2. > 1. or z - w / 2. < 0:
            w = 0.
        contacts.append((z, w * L))
    args = dict(spec['pars'])
    if spec['default']:
        contacts = [(0.15, 1.5e-2), (1., 0.)]
        if 1.5e-2 > 0.2 * L:
            return 0, ['contact out of the beam']
    else:
        for i, (z, w) in enumerate(contacts):
            args['z{}'.format(i + 1)] = z
            args['w{}'.format(i + 1)] = w
    nodes = tuple('P{}'.format(i) for i in range(len(contacts)))
    lines = [('beams', 'cantilever', 'beam', nodes, args)]
    lines += [('mechanics', 'source', 'S{}'.format(i),
               ('#', n) if spec['flip'] and i == 0 else (n, '#'),
               {'type': 'force'}) for i, n in enumerate(nodes)]
    if spec['bad']:
        try:
            build(spec, [('beams', 'cantilever', 'beam', nodes,
                          dict(args, Q=1.))], ctx)
        except AttributeError:
            pass
        else:
            raise Violation('unknown parameter', 'accepted')
    core = build(spec, lines, ctx).to_core()
    if len(core.x) != 2 * N or len(core.w) != N:
        raise Violation('modes', '{} states {} dampers for {} modes'.format(
            len(core.x), len(core.w), N))
    W = np.zeros((len(contacts), N))
    for m, bm in enumerate(b):
        sg = (np.cosh(bm) + np.cos(bm)) / (np.sinh(bm) + np.sin(bm))

        def phi(z):
            a = bm * z / L
            return ((np.cosh(a) - np.cos(a)) -
                    sg * (np.sinh(a) - np.sin(a))) / np.sqrt(L)
        for i, (z, w) in enumerate(contacts):
            z = z * L
            W[i, m] = phi(z) if w == 0 else quad(
                lambda t: phi(t) * np.pi / (2 * w) *
                np.cos(np.pi * (t - z) / w), z - w / 2., z + w / 2.)[0]
    K = Kb * (np.array(b) / L)**4
    A = p['A'] * 10**np.linspace(0, p['D'], N)
    n = 0
    for re, im in spec['points']:
        s = complex(re, im)
        D = 1. / (Mb * s + A + K / s)
        Y = W.dot(np.diag(D)).dot(W.T)
        S = abs(W).dot(np.diag(abs(D))).dot(abs(W).T)
        got = nets.core_response(core, s, {})
        for i in range(len(nodes)):
            for j in range(len(nodes)):
                sg = -1. if not (spec['flip'] and (i == 0) != (j == 0)) \
                    else 1.
                v = got[('S{}'.format(i), 'S{}'.format(j))]
                if not abs(v - sg * Y[i, j]) <= 3e-3 * S[i, j]:
                    raise Violation('beam', 'contacts {}, {}: {} instead of '
                                    '{} at s={}'.format(i, j, v,
                                                        sg * Y[i, j], s))
                n += 1
    return n + 1, ['beams.cantilever', '{} contacts'.format(len(nodes))] + (
        ['default contacts'] if spec['default'] else [])


# --------------------------------------------------------------------------
# pickup

def run_pickup(spec, ctx):
    import sympy
    p = {'Lv': 1e-3, 'Lh': 5e-4, 'Ccoil': 3e-5, 'Ncoil': 1e2, 'Rb': 1e-3,
         'Rp': 1e-3}
    p.update(spec['pars'])
    nodes = ('mec', 'e1', '#' if spec['datum'] else 'e2')
    snodes = nodes[1:][::-1] if spec['flip'] else nodes[1:]
    lines = [('transducers', 'pickup', 'P', nodes, dict(spec['pars'])),
             ('mechanics', 'source', 'IN', ('mec', '#'),
              {'type': 'velocity'}),
             ('electronics', 'source', 'OUT', snodes, {'type': spec['src']})]
    if not spec['datum']:
        lines.append(('electronics', 'source', 'Z', ('e2', '#'),
                      {'type': 'voltage'}))
    core = build(spec, lines, ctx).to_core()
    x = {str(v): v for v in core.x}
    if sorted(x) != ['xPCcoil', 'xPOBS']:
        raise Violation('states', str(sorted(x)))
    names = {str(k): k for k in dict(core.observers)}
    obs = {k: sympy.sympify(v) for k, v in dict(core.observers).items()}
    fsym = sympy.Symbol('F_S', positive=True)
    n = 0
    s = -1. if spec['flip'] else 1.
    nx, ny = 2, len(core.y)
    H = sympy.sympify(core.H)
    for q, dq, phi, um, uo, ui in spec['points']:
        f1 = (q - p['Rp'] + p['Lv'])**2 + p['Lh']**2
        f2 = (q + p['Rp'] + p['Lv'])**2 + p['Lh']**2
        f = 2 * p['Rb']**2 * p['Rp'] * (
            (f1 - 2 * p['Lh']**2) / f1**2 -
            (f2 - 2 * p['Lh']**2) / f2**2) * dq
        if abs(f) < 1e-12 or abs(f) > 1e12:
            continue
        sub = dict(core.subs)
        for k, v in (('q_POBS', q), ('dtq_POBS', dq)):
            if k not in names:
                raise Violation('observers', str(sorted(names)))
            sub[names[k]] = v
        for _ in range(3):
            sub = {k: sympy.sympify(v).subs(sub) for k, v in sub.items()}
        val = {x['xPOBS']: q, x['xPCcoil']: phi}
        dxH = [float(sympy.diff(H, v).subs(sub).subs(val)) for v in core.x]
        M = np.array([[float(sympy.sympify(core.M[i, j]).subs(sub))
                       for j in range(nx + ny)] for i in range(nx + ny)])
        if len(core.w) or M.shape != core.M.shape:
            raise Violation('dimensions', str(core.M.shape))
        uval = {'uPMagnet': um, 'uOUT': uo, 'uIN': ui, 'uZ': 0.}
        u = [uval[str(v)] for v in core.u]
        out = M.dot(np.array(dxH + u))
        got = {'d' + str(v): out[i] for i, v in enumerate(core.x)}
        got.update({str(v): out[nx + i] for i, v in enumerate(core.y)})
        # gyrators: e_A = -alpha f_B, e_B = alpha f_A, A: datum -> coil,
        # B: datum -> magnet (alpha = 1/f), e1 -> e2 (alpha = Ncoil)
        e = phi / p['Ccoil']
        ref = {'yPMagnet': e * f}
        if spec['src'] == 'voltage':
            # e_A = e: flux of the electrical side f_B2 = -e/N
            ref['yOUT'] = s * e / p['Ncoil']
            fa2 = s * uo / p['Ncoil']
            ref['dxPCcoil'] = -(um * f) - fa2
        else:
            # imposed current: reported below
            ref = {}
        # the observer integrates the velocity of the mass
        ref['dxPOBS'] = -ui
        for k in sorted(ref):
            if not abs(got[k] - ref[k]) <= 1e-7 * (abs(ref[k]) + 1e-9):
                raise Violation('pickup', '{}: {} instead of {}'.format(
                    k, got[k], ref[k]))
            n += 1
    # position and velocity of the mass
    o = {str(k): str(v) for k, v in obs.items()}
    if str(o.get('q_POBS')) != 'xPOBS':
        raise Violation('observers', str(o))
    d = obs[names['dtq_POBS']]
    vals = {v: (3. if str(v) == 'dxPOBS' else 5.) for v in d.free_symbols}
    if sorted(map(str, d.free_symbols)) != ['F_S', 'dxPOBS'] or \
            float(d.subs(vals)) != 15.:
        raise Violation('observers', str(o))
    return n, ['transducers.pickup', spec['src']]


def run(spec, ctx):
    n, labels = {'pwl': run_pwl, 'frac': run_frac, 'beam': run_beam,
                 'pickup': run_pickup}[spec['kind']](spec, ctx)
    return {'nontrivial': n >= 2, 'labels': labels + [spec['how']]}
