# -*- coding: utf-8 -*-
"""C19: every route from a description to a simulation gives the same
results, those of the settings that were asked for."""
import os

import numpy as np

from pbt import nets, phs
from pbt.engine import Violation, Reject

PROPERTY = 'C19'
RULE = ('a case is a description (a network given by a netlist object, its '
        'file or a graph, or a random system), settings (any subset of '
        'sample rate, gradient, theta, split, number of iterations, values '
        'recorded; initial values; label), an input sequence and two or '
        'three routes to the results, among the methods and simulations '
        'obtained from the netlist, the graph, the core, the method and the '
        'constructors; every route is compared with the step by step solver '
        'built with all settings explicit (documented defaults); '
        'non-trivial when some setting is not the default and the state or '
        'the outputs are not zero')
CASES = {'quick': 150, 'thorough': 6000}
TIMEOUT = 60

DEFAULTS = {'fs': 48000., 'maxit': 100, 'grad': 'discret', 'theta': 0.,
            'split': True}
METHOD = ('grad', 'theta', 'split')
NUMERIC = ('fs', 'maxit')
VALUES = {'fs': [1000., 8000., 44100.], 'maxit': [30, 50],
          'grad': ['theta', 'trapez', 'discret'], 'theta': [0.5, 1.],
          'split': [False, False, True]}

NET = ['netlist', 'path', 'graph', 'netlist core', 'graph core',
       'netlist method', 'graph method', 'netlist method sim',
       'graph method sim']
CORE = ['core', 'core method', 'core method sim', 'Method', 'Simulation',
        'settings of the method', 'erase']


def gen(d):
    src = d.choice(['net', 'core'])
    spec = {'src': src}
    if src == 'net':
        els = nets.gen_net(d, nmax=3, emax=4, forms=False, mode='tree',
                           sources=1)
        if not d.bool(1, 4):
            els = [e for e in els if e['c'] not in 'TY'] or els
        spec['els'] = els
        routes = NET + CORE
    else:
        spec.update(phs.gen_core(d, nx=(1, 2), nw=(0, 2), ny=(1, 2),
                                 npar=(0, 0)))
        routes = CORE
    spec['routes'] = d.sample(routes, d.int(2, 3))
    spec['cfg'] = {}
    for k in sorted(VALUES):
        if d.bool(2, 5):
            spec['cfg'][k] = d.choice(VALUES[k])
    spec['label'] = d.choice([None, None, 'other'])
    spec['x0'] = [d.signed(1., 8) for _ in range(8)] if d.bool(3, 4) else None
    spec['u'] = [[d.signed(2., 8) for _ in range(8)]
                 for _ in range(d.int(1, 4))]
    spec['opt'] = d.sample(['pbar', 'timer', 'dnames'], d.int(0, 2))
    return spec


def names(method):
    x, w = list(map(str, method.x)), list(map(str, method.w))
    return {'x': x, 'dx': x, 'w': w, 'z': w, 'y': list(map(str, method.y))}


def get_core(spec, ctx, label='sys'):
    if spec['src'] == 'core':
        return phs.build_core(spec, label=label)
    net, _ = nets.netlist(spec['els'], os.path.join(ctx.newdir(), 'sys.net'))
    return net.to_core()


def run(spec, ctx):
    from pyphs import Method, Simulation, Graph, Netlist
    labels = ['from ' + spec['src']]
    full = dict(DEFAULTS, **spec['cfg'])
    mcfg = {k: spec['cfg'][k] for k in METHOD if k in spec['cfg']}
    if spec['src'] == 'net' and (not nets.propagates(spec['els']) or
                                 nets.mna(spec['els'], 0.3 + 1j) is None):
        raise Reject('no causality by propagation')

    def reference(order, uorder):
        """values of the step by step solver, all settings explicit, by name;
        the initial values are in the given order of states"""
        m = Method(get_core(spec, ctx), config={k: full[k] for k in METHOD})
        x0 = dict(zip(order, spec['x0'] or [0.] * 8))
        mine = names(m)
        nums = m.to_numeric(inits={'x': [x0[n] for n in mine['x']]},
                            config={k: full[k] for k in NUMERIC})
        rec = {k: [] for k in mine}
        for u in spec['u']:
            v = dict(zip(uorder, u))
            nums.update(u=np.array([v[n] for n in mine['y']]))
            for k in rec:
                rec[k].append(np.array(getattr(nums, k)(), dtype=float))
        return {(k, n): np.array([r[i] for r in rec[k]])
                for k in rec for i, n in enumerate(mine[k])}

    moved = False
    for route in spec['routes']:
        labels.append('route ' + route)
        cfg = dict(spec['cfg'], path=ctx.newdir())
        if 'pbar' in spec['opt']:
            cfg['pbar'] = True
        if 'timer' in spec['opt']:
            cfg['timer'] = True
        dn = ['x', 'dx', 'w', 'z', 'y']
        if 'dnames' in spec['opt']:
            dn = ['x', 'y']
            cfg['dnames'] = list(dn)
        x0 = spec['x0']
        label = spec['label']
        kw = {'config': cfg}
        if spec['src'] == 'net':
            path = os.path.join(ctx.newdir(), 'sys.net')
            net, _ = nets.netlist(spec['els'], path)
            net.write()
            graph = Graph(netlist=net)
            want_label = 'sys' if label is None or route not in NET \
                or route == 'graph core' else label
        else:
            want_label = 'sys'

        def inits():
            nx = len(core.x)
            return {} if x0 is None else {'inits': {'x': x0[:nx]}}
        core = get_core(spec, ctx)
        simu = method = None
        lab = {} if label is None else {'label': label}
        if route == 'netlist':
            simu = net.to_simulation(config=cfg, **dict(inits(), **lab))
        elif route == 'path':
            source = path if x0 is None else Netlist(path)
            simu = Graph(netlist=source).to_simulation(
                config=cfg, **dict(inits(), **lab))
        elif route == 'graph':
            simu = graph.to_simulation(config=cfg, **dict(inits(), **lab))
        elif route == 'netlist core':
            simu = net.to_core(**lab).to_simulation(config=cfg, **inits())
        elif route == 'graph core':
            simu = graph.to_core().to_simulation(config=cfg, **inits())
        elif route in ('netlist method', 'netlist method sim'):
            method = net.to_method(config=dict(mcfg), **lab)
        elif route in ('graph method', 'graph method sim'):
            method = graph.to_method(config=dict(mcfg), **lab)
        elif route in ('core', 'erase'):
            simu = core.to_simulation(config=cfg, **inits())
        elif route in ('core method', 'core method sim'):
            method = core.to_method(config=dict(mcfg))
        elif route in ('Method', 'Simulation', 'settings of the method'):
            method = Method(core, config=dict(mcfg))
        if route.endswith(' sim'):
            simu = method.to_simulation(config=cfg, **inits())
        elif route == 'settings of the method':
            # those of the simulation are given apart
            for k in METHOD:
                cfg.pop(k, None)
            simu = method.to_simulation(config=cfg, **inits())
        elif route == 'Simulation':
            simu = Simulation(method, config=cfg, **inits())
        m = simu.method if simu is not None else method
        if str(m.label) != want_label:
            raise Violation('label', '{}: {!r} instead of {!r}'.format(
                route, m.label, want_label))
        mine = names(m)
        order, uorder = mine['x'], mine['y']
        u = np.array([row[:len(uorder)] for row in spec['u']])
        for k in METHOD:
            if m.config[k] != full[k]:
                raise Violation('configuration of the method', '{}: {} is {} '
                                'instead of {}'.format(route, k, m.config[k],
                                                       full[k]))
        if simu is not None:
            if simu.fs != full['fs'] or simu.config['maxit'] != full['maxit']:
                raise Violation('configuration of the simulation',
                                '{}: {} {}'.format(route, simu.fs,
                                                   simu.config['maxit']))
            simu.init(u=u)
            simu.process()
            data = simu.data
            if route == 'erase':
                # another simulation on the recorded data
                other = get_core(spec, ctx).to_simulation(
                    config=cfg, erase=False)
                data = other.data
            got = {}
            for k in dn:
                v = np.array(getattr(data, k)(), dtype=float)
                v = v.reshape((len(u), -1))
                if v.shape[1] != len(mine[k]):
                    raise Violation('shape', '{} {}: {}'.format(
                        route, k, v.shape))
                for i, n in enumerate(mine[k]):
                    got[k, n] = v[:, i]
            t = np.array(data.t(), dtype=float).ravel()
            if t.shape != (len(u),) or not np.allclose(
                    t, np.arange(len(u)) / full['fs'], rtol=1e-9, atol=0):
                raise Violation('times', '{}: {}'.format(route, t.tolist()))
        else:
            nums = method.to_numeric(
                config={k: spec['cfg'][k] for k in NUMERIC
                        if k in spec['cfg']}, **inits())
            got = {(k, n): [] for k in mine for n in mine[k]}
            for row in u:
                nums.update(u=row)
                for k in mine:
                    v = np.array(getattr(nums, k)(), dtype=float)
                    for i, n in enumerate(mine[k]):
                        got[k, n].append(v[i])
        ref = reference(order, uorder)
        if not set(got) <= set(ref):
            raise Violation('variables', '{}: {}'.format(route, sorted(
                set(got) - set(ref))))
        for k in got:
            a, b = np.array(got[k]), ref[k]
            if not np.isfinite(b).all():
                raise Reject('the reference diverges')
            if not abs(a - b).max() <= 1e-7 * (1 + abs(b).max()):
                raise Violation('values', '{}: {} is {} instead of {}'.format(
                    route, k, a.tolist(), b.tolist()))
            moved = moved or abs(b).max() > 1e-9
    return {'nontrivial': bool(spec['cfg']) and moved, 'labels': labels}
