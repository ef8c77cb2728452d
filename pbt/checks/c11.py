# -*- coding: utf-8 -*-
"""C11: the results of a simulation only depend on its current settings."""
import copy

import numpy as np

from pbt import phs
from pbt.engine import Violation

PROPERTY = 'C11'
RULE = ('a case is a random system, 1-2 simulations built on the same method '
        'object, and a history of 2-6 operations: initialization (with drawn '
        'inputs, number of steps, and possibly new initial values, new '
        'values of parameters, new configuration) and process, changes of '
        'the default selection of the data, reads; after each process the '
        'recorded values are compared with those of a fresh solver built '
        'with the current settings; non-trivial when a simulation is run at '
        'least twice and its state moves')
CASES = {'quick': 90, 'thorough': 10000}

DN = ['x', 'dx', 'dxH', 'w', 'z', 'y']


def gen(d):
    spec = phs.gen_core(d, nx=(1, 2), nw=(0, 2), ny=(0, 2), npar=(0, 1),
                        nobs=(0, 1))
    # at least one parameter with a value
    spec['params'].append(['k{}'.format(len(spec['params']) + 10),
                           d.num(0.5, 2., 8)])
    spec['H'].append('{}*x0**2/2'.format(spec['params'][-1][0]))
    spec['sims'] = []
    spec['samex'] = d.bool()
    n = d.weighted([(2, 1), (1, 2)])
    for _ in range(n):
        spec['sims'].append({'fs': d.choice([100., 250., 1000.]),
                             'split': d.bool(), 'x': gen_x(d, spec)})
    ops = []
    for _ in range(d.int(2, 6)):
        k = d.weighted([(5, 'run'), (1, 'sel'), (1, 'read')])
        i = d.int(0, n - 1)
        if k == 'run':
            N = d.int(1, 4)
            op = {'op': k, 'i': i,
                  'u': [[d.signed(2., 8) for _ in range(spec['ny'])]
                        for _ in range(N)],
                  'p': [[d.signed(1., 8) for _ in range(spec['np'])]
                        for _ in range(N)],
                  'x': gen_x(d, spec) if d.bool(1, 2) else None,
                  'dx': gen_dx(d, spec) if d.bool(1, 2) else None,
                  'order': d.bool(),
                  'again': d.bool(1, 4),
                  'cfg': {}, 'subs': []}
            if d.bool(1, 3):
                key = d.choice(['fs', 'split', 'theta', 'grad', 'maxit'])
                if key == 'split' and not spec['samex']:
                    key = 'fs'
                op['cfg'][key] = d.choice({
                    'fs': [200., 400.], 'split': [True, False],
                    'theta': [0.5, 0.], 'grad': ['theta', 'trapez',
                                                 'discret'],
                    'maxit': [50, 60]}[key])
            if n == 1 and d.bool(1, 3):
                op['subs'] = [[q[0], d.num(0.5, 2., 8)] for q in
                              d.sample(spec['params'],
                                       d.int(1, len(spec['params'])))]
            ops.append(op)
        else:
            ops.append({'op': k, 'i': i, 'v': d.int(0, 3)})
    spec['ops'] = ops
    return spec


def gen_x(d, spec):
    if spec['samex']:
        # the same for all states: does not depend on their order
        return [d.signed(1., 8)] * spec['nx']
    return [d.signed(1., 8) for _ in range(spec['nx'])]


def gen_dx(d, spec):
    # few values, so that one of the initial values is often unchanged
    return [d.choice([0.25, -0.5])] * spec['nx']


def fresh(spec, params, cfg, x0, dx0, u, p):
    """values of the step by step solver, by name of variable"""
    s = dict(spec)
    s['params'] = [[k, params[k]] for k, _ in spec['params']]
    core = phs.build_core(s)
    method = core.to_method(config={k: cfg[k] for k in
                                    ('split', 'theta', 'grad')})
    nums = method.to_numeric(inits={'x': x0, 'dx': dx0},
                             config={k: cfg[k] for k in ('fs', 'maxit')})
    rec = {k: [] for k in DN}
    for a, b in zip(u, p):
        nums.update(u=np.array(a), p=np.array(b))
        for k in DN:
            rec[k].append(np.array(getattr(nums, k)(), dtype=float))
    return method, rec


def cols(method):
    x, w = list(map(str, method.x)), list(map(str, method.w))
    return {'x': x, 'dx': x, 'dxH': x, 'w': w, 'z': w,
            'y': list(map(str, method.y))}


def run(spec, ctx):
    core = phs.build_core(spec)
    method = core.to_method(config={'split': spec['sims'][0]['split']})
    sims, state, params = [], [], []
    labels = set()
    for s in spec['sims']:
        cfg = {'fs': s['fs'], 'split': s['split']}
        given = dict(cfg, path=ctx.newdir())
        keep = copy.deepcopy(given)
        inits = {'x': list(s['x'])}
        sims.append(method.to_simulation(config=given, inits=inits))
        if given != keep or inits != {'x': s['x']}:
            raise Violation('arguments modified', 'constructor')
        cfg.update({'theta': 0., 'grad': 'discret', 'maxit': 100})
        state.append({'cfg': cfg, 'x': list(s['x']), 'runs': 0, 'nt': None,
                      'dx': [0.] * spec['nx'],
                      'rec': None})
        params.append(dict(map(tuple, spec['params'])))
    if len(sims) > 1:
        labels.add('shared method')
        if len(set(s['split'] for s in spec['sims'])) > 1:
            labels.add('rebuilt method')
    moved = False

    def compare(i, what):
        simu, st = sims[i], state[i]
        simu.data.start = simu.data.stop = simu.data.step = None
        m, rec = st['rec']
        got_c, want_c = cols(simu.method), cols(m)
        for k in DN:
            got = np.array(getattr(simu.data, k)())
            want = np.array(rec[k]).reshape((st['nt'], -1))
            if got.shape != (st['nt'], len(want_c[k])):
                raise Violation('shape', '{} {}: {} instead of {}'.format(
                    what, k, got.shape, want.shape))
            if sorted(got_c[k]) != sorted(want_c[k]):
                raise Violation('variables', '{} {}'.format(got_c, want_c))
            for c, name in enumerate(want_c[k]):
                a = got[:, got_c[k].index(name)]
                b = want[:, c]
                if not abs(a - b).max() <= 1e-8 * (1 + abs(b).max()):
                    raise Violation('values', '{} {}: {} {} instead of {}'
                                    .format(what, k, name, a.tolist(),
                                            b.tolist()))

    for n, op in enumerate(spec['ops']):
        i = op['i']
        simu, st = sims[i], state[i]
        if op['op'] == 'sel':
            if st['nt'] is None:
                continue
            v = op['v'] % st['nt']
            simu.data.start = simu.data.stop = simu.data.step = None
            simu.data.start = v
            simu.data.step = 2
            simu.data.stop = max(v + 1, st['nt'] - 1)
            for j, other in enumerate(sims):
                if j != i and state[j]['nt'] is not None and \
                        not state[j].get('sel'):
                    if (other.data.start, other.data.stop,
                            other.data.step) != (0, state[j]['nt'], 1):
                        raise Violation('selection of another simulation')
            st['sel'] = True
            labels.add('selection')
            continue
        if op['op'] == 'read':
            if st['nt'] is None:
                continue
            simu.data.E()
            simu.data.ps()
            simu.data['dtE']
            continue
        u = np.array(op['u']).reshape((len(op['u']), spec['ny']))
        p = np.array(op['p']).reshape((len(op['p']), spec['np']))
        times = 2 if op['again'] else 1
        for r in range(times):
            kw = {}
            if op['x'] is not None:
                st['x'] = list(op['x'])
                kw['inits'] = {'x': list(op['x'])}
                labels.add('inits')
            if op['dx'] is not None:
                st['dx'] = list(op['dx'])
                new = [('dx', list(op['dx']))]
                old = sorted(kw.get('inits', {}).items())
                kw['inits'] = dict(old + new if op['order'] else new + old)
                labels.add('inits' if len(old) == 0 else 'several inits')
            if op['cfg']:
                st['cfg'].update(op['cfg'])
                kw['config'] = dict(op['cfg'])
                labels.add('config')
            if op['subs']:
                kw['subs'] = {phs.sym(k): v for k, v in op['subs']}
                params[i].update(dict(map(tuple, op['subs'])))
                labels.add('values')
            keep = copy.deepcopy(kw)
            if st.get('sel'):
                # a selection is relative to the length of the data
                if op['again']:
                    simu.data.start = simu.data.stop = simu.data.step = None
            if st.get('sel') and st['nt'] != len(u):
                simu.data.start = simu.data.stop = simu.data.step = None
                st['sel'] = False
            simu.init(u=u.copy(), p=p.copy(), nt=len(u), **kw)
            simu.process()
            if kw != keep:
                raise Violation('arguments modified', str(op))
            st['nt'] = len(u)
            st['rec'] = fresh(spec, params[i], st['cfg'], st['x'],
                              st['dx'], u, p)
            st['runs'] += 1
            compare(i, 'operation {} run {}'.format(n, r))
            st['sel'] = False
        for j in range(len(sims)):
            if j != i and state[j]['nt'] is not None:
                compare(j, 'other simulation after operation {}'.format(n))
                state[j]['sel'] = False
        if abs(np.array(st['rec'][1]['dx'])).max() > 1e-9:
            moved = True
    labels.add('runs {}'.format(min(4, max(s['runs'] for s in state))))
    return {'nontrivial': moved and max(s['runs'] for s in state) > 1,
            'labels': sorted(labels)}
