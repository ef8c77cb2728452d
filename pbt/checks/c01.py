# -*- coding: utf-8 -*-
"""C01: discrete power balance and passivity of simulated trajectories."""
import numpy as np

from pbt import phs
from pbt.phs import mp
from pbt.engine import Violation, Reject

PROPERTY = 'C01'
RULE = ('a case is a random system (0-3 states with convex, possibly coupled and '
        'non-quadratic storage, 0-2 dissipations, 0-2 ports, state-dependent '
        'structure, parameters, observer), a scheme configuration and a random '
        'input sequence of 2-8 samples, simulated in python; non-trivial when '
        'the stored energy changes by more than 1e-9 during some step')
CASES = {'quick': 240, 'thorough': 8000}


def gen(d):
    spec = phs.gen_core(d, nx=(1, 3), nw=(0, 2), ny=(0, 2), npar=(0, 1),
                        nobs=(0, 1))
    spec['split'] = d.bool()
    spec['theta'] = d.choice([0., 0.5])
    spec['fs'] = d.choice([200., 500., 1000.])
    spec['N'] = d.int(2, 8)
    spec['x'] = [d.signed(1., 8) for _ in range(spec['nx'])]
    spec['u'] = [[d.signed(2., 8) for _ in range(spec['ny'])]
                 for _ in range(spec['N'])]
    spec['p'] = [[d.signed(1., 8) for _ in range(spec['np'])]
                 for _ in range(spec['N'])]
    return spec


def run(spec, ctx):
    core = phs.build_core(spec)
    ref = phs.Ref(spec)
    simu = core.to_simulation(
        config={'fs': spec['fs'], 'split': spec['split'],
                'grad': 'discret', 'theta': spec['theta'],
                'path': ctx.newdir()})
    order = [int(str(s)[1:]) for s in simu.method.x]
    worder = [int(str(s)[1:]) for s in simu.method.w]
    x0 = [spec['x'][i] for i in order]
    simu.init(u=np.array(spec['u']).reshape((spec['N'], spec['ny'])),
              p=np.array(spec['p']).reshape((spec['N'], spec['np'])),
              inits={'x': x0}, nt=spec['N'])
    simu.process()
    dat = simu.data

    def get(name, perm):
        a = np.array(getattr(dat, name)()).reshape((spec['N'], -1))
        out = np.zeros((spec['N'], len(perm)))
        for k, i in enumerate(perm):
            out[:, i] = a[:, k]
        return out
    X, DX, G = (get(n, order) for n in ('x', 'dx', 'dxH'))
    W, Z = (get(n, worder) for n in ('w', 'z'))
    Y = get('y', range(spec['ny']))
    moved = False
    for n in range(spec['N']):
        env = ref.env(x=X[n])
        xp = [mp.mpf(a) + mp.mpf(b) for a, b in zip(X[n], DX[n])]
        dH = ref.H(ref.env(x=xp)) - ref.H(env)
        work = phs.dot([mp.mpf(a) for a in G[n]], [mp.mpf(a) for a in DX[n]])
        if not all(map(np.isfinite, list(X[n]) + list(DX[n]) + list(G[n]))):
            raise Violation('non finite')
        if abs(dH - work) > 1e-11 * (1 + abs(ref.H(env))):
            raise Violation('chain rule', '{} step {}: dH={} sum={}'.format(
                spec['labels'], n, float(dH), float(work)))
        a = list(G[n]) + list(Z[n]) + list(spec['u'][n])
        a = [mp.mpf(float(v)) for v in a]
        R = ref.R(env)
        pd = phs.dot([mp.mpf(v) for v in W[n]], [mp.mpf(v) for v in Z[n]]) \
            + phs.dot(a, phs.matvec(R, a))
        ps = phs.dot([mp.mpf(float(v)) for v in spec['u'][n]], [mp.mpf(v) for v in Y[n]])
        bal = dH * spec['fs'] + pd + ps
        scale = 1 + abs(dH * spec['fs']) + abs(pd) + abs(ps)
        if abs(bal) > 1e-7 * scale:
            raise Violation('balance', '{} step {}: {} {} {}'.format(
                spec['labels'], n, float(dH*spec['fs']), float(pd), float(ps)))
        if abs(dH) > 1e-9:
            moved = True
    return {'nontrivial': moved, 'labels': spec['labels']}
