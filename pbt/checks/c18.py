# -*- coding: utf-8 -*-
"""C18: generated Faust programs compute what the python solver computes."""
import os

import numpy as np

from pbt import phs
from pbt.engine import Violation, Reject
from pbt.faust import Program, FaustError

PROPERTY = 'C18'
RULE = ('a case is a random system with polynomial laws (constant, chained '
        'and controlled parameters, observers), a scheme configuration, a '
        'choice of constant and free inputs, of outputs, of initial values '
        'and of slider positions; the generated Faust program is run by an '
        'interpreter of the language on drawn stereo inputs, the oracle is '
        'the python solver of the same system; non-trivial when some '
        'compared output is not zero')
CASES = {'quick': 160, 'thorough': 4000}
TIMEOUT = 25
ASSUMPTIONS = ['A ~ prefix(v, _) is a feedback delayed by one sample that '
               'starts with v']


def gen(d):
    nl = d.weighted([(3, 'linear'), (2, 'x'), (2, 'w'), (1, 'xw')])
    if nl == 'linear':
        nx, nw, ny = d.int(0, 2), d.int(0, 2), d.int(1, 3)
    else:
        # the symbolic inversions take long
        nx = d.int(1, 2) if nl == 'x' else 1 if nl == 'xw' else d.int(0, 1)
        nw = d.int(1, 2) if nl == 'w' else 1 if nl == 'xw' else d.int(0, 1)
        ny = d.int(1, 2)
    npar = d.int(0, 1)
    params = []
    H, z = [], []
    for i in range(nx):
        c = phs.gen_coef(d, params)
        if 'x' in nl and i == nx - 1:
            H.append('{c}*x{i}**2/2 + {b}*x{i}**4/4'.format(
                c=c, i=i, b=d.num(0.25, 1., 8)))
        else:
            H.append('{c}*x{i}**2/2'.format(c=c, i=i))
            if d.bool(1, 4):
                H[-1] += ' + {}*x{}'.format(d.signed(1., 8), i)
    obs = []
    if d.bool(1, 4):
        args = ['u{}'.format(i) for i in range(ny)] + \
            ['x{}'.format(i) for i in range(nx)] + \
            ['p{}'.format(i) for i in range(npar)]
        obs.append(['o0', '0.5*{} + 0.25*{}'.format(d.choice(args),
                                                   d.choice(args))])
    for i in range(nw):
        c = phs.gen_coef(d, params)
        w = 'w{}'.format(i)
        if 'w' in nl and i == nw - 1:
            z.append('{}*{} + {}*{}**3'.format(c, w, d.num(.25, 1., 8), w))
        elif npar and d.bool(1, 3):
            z.append('({} + p0)*{}'.format(c, w))
        elif obs and d.bool(1, 2):
            z.append('({} + 0.25*o0**2)*{}'.format(c, w))
        else:
            z.append('{}*{}'.format(c, w))
    M, _ = phs.gen_M(d, nx, nw, ny, params, False, npar, loop=False)
    if 'xw' == nl or nx + nw > 3:
        M['A'] = []
        # the symbolic inversion of larger systems takes very long
        M['J'] = [e for e in M['J'] if e[:2] not in ([0, 1], [0, 2])]
    spec = {'nx': nx, 'nw': nw, 'ny': ny, 'np': npar, 'ncy': 0, 'H': H,
            'z': z, 'J': M['J'], 'A': M['A'], 'params': params, 'obs': obs,
            'nl': nl}
    grads = [(2, 'theta'), (2, 'trapez')]
    if 'x' not in nl:
        grads.append((2, 'discret'))
    spec['cfg'] = {'grad': d.weighted(grads), 'theta': d.choice([0., 0.5])}
    if nl != 'linear' or d.bool():
        # discrete gradients of unsplit systems are piecewise expressions,
        # that Faust programs do not have
        spec['cfg']['split'] = True if nl != 'linear' else \
            d.bool() or spec['cfg']['grad'] == 'discret'
    # free inputs: one or two (stereo)
    free = sorted(d.sample(range(ny), d.int(1, min(2, ny))))
    spec['free'] = free
    spec['inputs'] = None if len(free) == ny and d.bool() else \
        [None if i in free else d.signed(1., 8) for i in range(ny)]
    outs = d.sample(range(ny), d.int(1, min(2, ny)))
    spec['outputs'] = None if ny <= 2 and d.bool(1, 3) else outs
    spec['x0'] = [d.signed(1., 8) for _ in range(nx)] if d.bool() else None
    spec['nit'] = 12
    spec['fs'] = d.choice([100., 400., 1000.])
    N = d.int(2, 5)
    spec['sig'] = [[d.signed(1., 8), d.signed(1., 8)] for _ in range(N)]
    spec['p'] = [d.num(0., 1., 8) for _ in range(npar)]
    spec['gains'] = [d.choice([0., 0.5]), d.choice([0., -1.])]
    spec['chain'] = bool(params) and d.bool(1, 4)
    spec['path'] = d.bool(3, 4)
    return spec


def run(spec, ctx):
    from pyphs import core2faustfx
    core = phs.build_core(spec, label='effect')
    labels = [spec['nl'], spec['cfg']['grad']]
    if spec['chain']:
        # the value of a parameter is that of another one
        k, v = spec['params'][0]
        core.subs[phs.sym(k)] = \
            (2 if v > 0 else -2) * phs.sym('kk')**2
        core.subs[phs.sym('kk')] = (abs(v) / 2.)**0.5
        labels.append('chained parameter')
    folder = ctx.newdir()
    os.chdir(folder)
    path = os.path.join(folder, 'fx.dsp') if spec['path'] else None
    ny = spec['ny']
    kw = {}
    if spec['inputs'] is not None:
        kw['inputs'] = ['u{}'.format(i) if v is None else v
                        for i, v in enumerate(spec['inputs'])]
        if len(spec['free']) < ny:
            labels.append('constant inputs')
    outs = list(range(ny))
    if spec['outputs'] is not None:
        outs = spec['outputs']
        kw['outputs'] = ['y{}'.format(i) for i in outs]
    ref = phs.build_core(spec, label='effect').to_method(config=spec['cfg'])
    xo = [int(str(v)[1:]) for v in ref.x]
    x0 = spec['x0'] or [0.] * spec['nx']
    if spec['x0']:
        kw['inits'] = {'x': [x0[i] for i in xo]}
        labels.append('initial values')
    before = dict(core.subs), str(core.M), list(map(str, core.x))
    core2faustfx(core, config=dict(spec['cfg']), path=path,
                 nIt=spec['nit'], **kw)
    if before != (dict(core.subs), str(core.M), list(map(str, core.x))):
        raise Violation('the system is modified', str(core))
    with open(path or 'effect.dsp') as f:
        text = f.read()
    sliders = {'Gain IN': spec['gains'][0], 'Gain OUT': spec['gains'][1]}
    sliders.update({'p{}'.format(i): v for i, v in enumerate(spec['p'])})
    try:
        prog = Program(text, spec['fs'], sliders)
        if (prog.nin, prog.nout) != (2, 2):
            raise FaustError('{} inputs, {} outputs'.format(prog.nin,
                                                            prog.nout))
    except FaustError as e:
        raise Violation('invalid program', str(e))
    found = {e[2][0][1] for e in prog.defs.values()
             if e[:2] == ('call', 'hslider')}
    if found - {'Gain IN', 'Gain OUT'} != \
            {'p{}'.format(i) for i in range(spec['np'])}:
        raise Violation('sliders', str(found))
    if spec['obs']:
        labels.append('observer')
    # python
    nums = ref.to_numeric(inits={'x': [x0[i] for i in xo]},
                          config={'fs': spec['fs'], 'maxit': 50})
    gi, go = 10 ** spec['gains'][0], 10 ** spec['gains'][1]
    nz = False
    for n, s in enumerate(spec['sig']):
        try:
            got = prog.step(s)
        except FaustError as e:
            raise Violation('invalid program', str(e))
        except (OverflowError, ZeroDivisionError, ValueError):
            raise Reject('the program diverges')
        u = [v for v in (spec['inputs'] or [None] * ny)]
        if len(spec['free']) == 1:
            vals = [gi * (s[0] + s[1])]
        else:
            vals = [gi * s[0], gi * s[1]]
        for i, v in zip(spec['free'], vals):
            u[i] = v
        nums.update(u=np.array(u, dtype=float), p=np.array(spec['p']))
        y = np.array(nums.y(), dtype=float).ravel()
        if not np.isfinite(y).all():
            raise Reject('the python solver diverges')
        want = [go * y[i] for i in outs]
        if len(want) == 1:
            want = want * 2
        for a, b in zip(got, want):
            if not abs(a - b) <= 1e-6 * (go * (1 + abs(y).max())):
                raise Violation('values', 'sample {}: {} instead of {}'.format(
                    n, got, want))
            nz = nz or abs(b) > 1e-9
    return {'nontrivial': nz, 'labels': labels}
