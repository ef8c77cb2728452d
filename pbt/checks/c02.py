# -*- coding: utf-8 -*-
"""C02: every step solves the documented implicit equations of the scheme."""
import numpy as np

from pbt import phs
from pbt.phs import mp
from pbt.engine import Violation

PROPERTY = 'C02'
RULE = ('a case is a random system (0-3 states, 0-3 dissipations, 0-2 ports, '
        'parameters, observers, gradient symbols), a gradient method x theta x '
        'split configuration, a sample rate, an initial state and a random '
        'input sequence of 2-6 samples; non-trivial when the structure is not '
        'zero and the state or the dissipation variable moves')
CASES = {'quick': 400, 'thorough': 8000}


def gen(d):
    spec = phs.gen_core(d, nx=(0, 3), nw=(0, 3), ny=(0, 2), npar=(0, 2),
                        nobs=(0, 2), gsymb=True)
    spec['split'] = d.bool()
    spec['grad'] = d.choice(['discret', 'theta', 'trapez'])
    spec['theta'] = d.choice([0., 0.5, 1., 0.25])
    spec['fs'] = d.choice([200., 500., 1000.])
    spec['N'] = d.int(2, 6)
    spec['x'] = [d.signed(1., 8) for _ in range(spec['nx'])]
    spec['u'] = [[d.signed(2., 8) for _ in range(spec['ny'])]
                 for _ in range(spec['N'])]
    spec['p'] = [[d.signed(1., 8) for _ in range(spec['np'])]
                 for _ in range(spec['N'])]
    return spec


def perm(names):
    return [int(str(s)[1:]) for s in names]


def unperm(v, order):
    out = [0.] * len(order)
    for k, i in enumerate(order):
        out[i] = float(v[k])
    return out


def close(a, b, tol):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def check_step(spec, ref, x, dx, w, u, p, o, g, z, y, n, tol=1e-7):
    """the documented scheme, for one step"""
    fs, grad, theta = spec['fs'], spec['grad'], spec['theta']
    vals = x + dx + w + g + z + y
    if not all(map(np.isfinite, vals)):
        raise Violation('non finite value', 'step {}'.format(n))
    X = [mp.mpf(v) for v in x]
    D = [mp.mpf(v) for v in dx]
    Xp = [a + b for a, b in zip(X, D)]

    def at(xx, gg):
        return ref.env(x=xx, w=w, u=u, p=p, o=o, gx=gg, dx=dx)
    # gradient
    if grad == 'theta':
        gr = ref.grad(at([a + theta * b for a, b in zip(X, D)], g))
    elif grad == 'trapez':
        gr = [(a + b) / 2 for a, b in zip(ref.grad(at(X, g)),
                                          ref.grad(at(Xp, g)))]
    else:
        # any discrete gradient: consistent and telescoping
        mid = ref.grad(at([a + b / 2 for a, b in zip(X, D)], g))
        norm2 = float(sum(b * b for b in D))
        gr = [None] * len(X)
        for i in range(len(X)):
            if i in spec['_sep']:
                if abs(D[i]) > 1e-6:
                    Xi = list(X)
                    Xi[i] = Xp[i]
                    gr[i] = (ref.H(at(Xi, g)) - ref.H(at(X, g))) / D[i]
                else:
                    gr[i] = mid[i]
            elif abs(g[i] - mid[i]) > 20. * norm2 + 1e-9 / (
                    norm2 ** .5 + 1e-7) * 1e-5:
                raise Violation('discrete gradient is not consistent',
                                'step {} i={} {} vs {} (dx {})'.format(
                                    n, i, g[i], float(mid[i]), dx))
        dH = ref.H(at(Xp, g)) - ref.H(at(X, g))
        work = phs.dot([mp.mpf(v) for v in g], D)
        if abs(dH - work) > 1e-11 * (1 + abs(ref.H(at(X, g)))):
            raise Violation('chain rule', 'step {}: {} vs {}'.format(
                n, float(dH), float(work)))
    for i, e in enumerate(gr):
        if e is not None and not close(g[i], e, 1e-8):
            raise Violation('gradient evaluation', 'step {} dxH[{}]={} '
                            'expected {}'.format(n, i, g[i], float(e)))
    # structure and dissipation
    if grad == 'trapez':
        e0, e1 = at(X, g), at(Xp, g)
        M0, M1 = ref.M(e0), ref.M(e1)
        M = [[(a + b) / 2 for a, b in zip(r, s)] for r, s in zip(M0, M1)]
        zz = [(a + b) / 2 for a, b in zip(ref.z(e0), ref.z(e1))]
    else:
        e = at([a + theta * b for a, b in zip(X, D)], g)
        M, zz = ref.M(e), ref.z(e)
    for i, e in enumerate(zz):
        if not close(z[i], e, 1e-9):
            raise Violation('dissipation evaluation', 'step {} z[{}]={} '
                            'expected {}'.format(n, i, z[i], float(e)))
    a = [mp.mpf(v) for v in g + z + list(map(float, u))]
    rhs = phs.matvec(M, a)
    lhs = [fs * b for b in D] + [mp.mpf(v) for v in w] + \
        [mp.mpf(v) for v in y]
    names = ['dtx'] * len(x) + ['w'] * len(w) + ['y'] * len(y)
    scale = 1 + max([abs(v) for v in a] + [0]) * 3
    for k, (l, r) in enumerate(zip(lhs, rhs)):
        if abs(l - r) > tol * (scale + abs(r)):
            raise Violation('structure equation ' + names[k],
                            'step {} row {}: {} vs {}'.format(
                                n, k, float(l), float(r)))


def run(spec, ctx):
    core = phs.build_core(spec)
    ref = phs.Ref(spec)
    spec['_sep'] = ref.separable()
    method = core.to_method(config={k: spec[k] for k in
                                    ('grad', 'theta', 'split')})
    xo, wo = perm(method.x), perm(method.w)
    nums = method.to_numeric(inits={'x': [spec['x'][i] for i in xo]},
                             config={'fs': spec['fs']})
    x = [float(v) for v in spec['x']]
    dx, w = [0.] * spec['nx'], [0.] * spec['nw']
    moved = False
    for n in range(spec['N']):
        u, p = spec['u'][n], spec['p'][n]
        nums.update(u=np.array(u), p=np.array(p))
        o = ref.o(ref.env(x=x, dx=dx, w=w, u=u, p=p))
        xn = unperm(nums.x(), xo)
        if any(abs(a - b) > 1e-12 * (1 + abs(a)) for a, b in zip(xn, x)):
            raise Violation('state update', 'step {}: x={} expected {}'
                            .format(n, xn, x))
        dx = unperm(nums.dx(), xo)
        w = unperm(nums.w(), wo)
        g = unperm(nums.dxH(), xo)
        z = unperm(nums.z(), wo)
        y = [float(v) for v in nums.y()]
        check_step(spec, ref, xn, dx, w, u, p, o, g, z, y, n)
        x = [a + b for a, b in zip(xn, dx)]
        if max([abs(v) for v in dx + w] + [0]) > 1e-6:
            moved = True
    lab = ['grad:' + spec['grad'], 'split' if spec['split'] else 'nosplit']
    return {'nontrivial': moved and bool(spec['J'] or spec['A']),
            'labels': spec['labels'] + lab}
