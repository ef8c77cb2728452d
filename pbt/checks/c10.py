# -*- coding: utf-8 -*-
"""C10: simulation data read back what was supplied and computed."""
import os
import re

import h5py
import numpy as np

from pbt import phs
from pbt.phs import mp
from pbt.engine import Violation

PROPERTY = 'C10'
RULE = ('a case is a random system, input and parameter sequences in a drawn '
        'form (list, array, generator, flat, longer than needed, absent), a '
        'python simulation (or the storage of the sequences only, up to 2100 '
        'steps), and a history of 2-10 operations on the data: reads of raw '
        'or derived quantities with a drawn time selection and component '
        'selection, changes of the default selection (indices or times), '
        'explicit open/close, and a new data object on the same file; every '
        'read is compared with the in-memory values of the step-by-step '
        'solver; non-trivial when a non-empty, non-zero array is read')
CASES = {'quick': 240, 'thorough': 20000}

DN = ['x', 'dx', 'dxH', 'w', 'z', 'y']
RAW = ['x', 'dx', 'dxH', 'w', 'z', 'y', 'u', 'p']
DERIVED = ['t', 'dtx', 'a', 'b', 'args', 'o', 'args_o', 'E', 'pd', 'ps',
           'dtE', 'dtE:deltaH']


def gen_tsel(d, nt):
    k = d.weighted([(2, 'none'), (2, 'int'), (4, 'slice')])
    if k == 'none':
        return None
    if k == 'int':
        return d.int(0, nt - 1)
    a = d.int(0, nt - 1)
    b = d.int(a + 1, nt)
    s = d.weighted([(2, 1), (1, 2), (1, 3)])
    return [a if d.bool(3, 4) else None, b if d.bool(3, 4) else None,
            s if d.bool(3, 4) else None]


def gen_form(d, n):
    f = ['list', 'array', 'gen', 'none']
    if n == 1:
        f += ['flat', 'flatlist']
    return d.choice(f)


def gen(d):
    spec = phs.gen_core(d, nx=(0, 2), nw=(0, 2), ny=(0, 2), npar=(0, 2),
                        nobs=(0, 2))
    for o in spec['obs']:
        # observers of the state, inputs and parameters
        o[1] = o[1].replace('dx', 'x')
        o[1] = re.sub(r'\bw\d', 'x0' if spec['nx'] else '1', o[1])
    if not spec['nx']:
        spec['obs'] = [o for o in spec['obs'] if 'x' not in o[1]]
        names = [o[0] for o in spec['obs']]
        spec['z'] = [re.sub(r'\bo\d', lambda m: m.group(0)
                            if m.group(0) in names else '1', z)
                     for z in spec['z']]
    big = d.bool(1, 8)
    if big:
        nt = d.choice([1025, 1024, 1023, 1500, 2049, 2048, 2100])
    else:
        nt = d.int(1, 8)
    spec['big'] = big
    spec['nt'] = nt
    spec['fs'] = d.choice([100., 8., 48000., 44100., 96.])
    spec['split'] = d.bool()
    spec['x'] = [d.signed(1., 8) for _ in range(spec['nx'])]
    # recorded quantities
    names = list(DN)
    if d.bool(1, 3):
        names = d.shuffle(names)
    subset = d.bool(1, 4)
    if subset:
        names = [n for n in names if d.bool(2, 3)] or ['x']
    spec['dnames'] = names
    readable = ['u', 'p', 't'] + names if subset else RAW + DERIVED
    spec['uform'] = gen_form(d, spec['ny'])
    spec['pform'] = gen_form(d, spec['np'])
    spec['extra'] = d.weighted([(3, 0), (1, 1), (1, 5)])
    m = min(nt, 8)
    spec['u'] = [[d.signed(2., 8) for _ in range(spec['ny'])]
                 for _ in range(m)]
    spec['p'] = [[d.signed(1., 8) for _ in range(spec['np'])]
                 for _ in range(m)]
    spec['give_nt'] = d.bool() or spec['extra'] > 0 or \
        spec['uform'] in ('gen', 'none') or (
            spec['pform'] in ('gen', 'none') and spec['uform'] == 'none')
    ops = []
    for _ in range(d.int(2, 10)):
        k = d.weighted([(8, 'read'), (2, 'sel'), (1, 'tsel'), (1, 'open'),
                        (1, 'reopen')])
        if k == 'read':
            name = d.choice([n for n in RAW if n in readable]
                            if big else readable)
            ops.append([k, name, gen_tsel(d, nt),
                        d.weighted([(2, None), (2, 'int'), (2, 'slice'),
                                    (1, 'stride'), (1, 'from'), (1, 'to')]),
                        d.int(0, 20), d.int(0, 20),
                        d.choice(['attr', 'item', 'post'])])
        elif k in ('sel', 'tsel'):
            a = d.int(0, nt - 1)
            b = d.int(a + 1, nt)
            ops.append([k, a if d.bool(3, 4) else None,
                        b if d.bool(3, 4) else None,
                        d.choice([None, 1, 2, 3])])
        else:
            ops.append([k])
    spec['ops'] = ops
    return spec


def seq(rows, n, dim, form):
    """the sequence in the drawn form, with n rows"""
    full = np.zeros((n, dim))
    for i in range(n):
        # distinct rows, from the drawn ones
        full[i] = np.array(rows[i % len(rows)]) + 0.001 * (i // len(rows))
    if form == 'none':
        return None, np.zeros((n, dim))
    if form == 'list':
        return [list(map(float, r)) for r in full], full
    if form == 'array':
        return full.copy(), full
    if form == 'gen':
        return iter([r for r in full]), full
    if form == 'flat':
        return full[:, 0].copy(), full
    return list(map(float, full[:, 0])), full


class Model(object):

    def __init__(self, spec, arrays):
        self.a = arrays
        self.nt = spec['nt']
        self.start, self.stop, self.step = None, None, None

    def rng(self, sel):
        start = 0 if self.start is None else self.start
        stop = self.nt if self.stop is None else self.stop
        step = 1 if self.step is None else self.step
        if sel is None:
            sel = [None, None, None]
        elif isinstance(sel, int):
            sel = [sel, sel + 1, None]
        a = start if sel[0] is None else sel[0]
        b = stop if sel[1] is None else sel[1]
        s = step if sel[2] is None else sel[2]
        return list(range(a, b, s)), s


def derived(spec, ref, A, xo, wo):
    """derived quantities from the recorded ones, with the specification"""
    nt, fs = spec['nt'], spec['fs']
    A['t'] = np.arange(nt) / fs
    A['dtx'] = A['dx'] * fs
    A['a'] = np.hstack([A['dxH'], A['z'], A['u']])
    A['b'] = np.hstack([A['dtx'], A['w'], A['y']])
    A['args'] = np.hstack([A['x'], A['dx'], A['w'], A['u'], A['p']])
    o = np.zeros((nt, len(spec['obs'])))
    E, pd = np.zeros(nt), np.zeros(nt)

    def un(v, order):
        out = [mp.mpf(0)] * len(order)
        for k, i in enumerate(order):
            out[i] = mp.mpf(float(v[k]))
        return out
    for n in range(nt):
        x, dx = un(A['x'][n], xo), un(A['dx'][n], xo)
        w, z = un(A['w'][n], wo), un(A['z'][n], wo)
        g = un(A['dxH'][n], xo)
        env = ref.env(x=x, dx=dx, w=w, u=A['u'][n], p=A['p'][n])
        for i, v in enumerate(ref.o(env)):
            o[n, i] = float(v)
            env['o{}'.format(i)] = v
        E[n] = float(ref.H(env))
        a = g + z + [mp.mpf(float(v)) for v in A['u'][n]]
        pd[n] = float(phs.dot(w, z) + phs.dot(a, phs.matvec(ref.R(env), a)))
    A['o'] = o
    A['args_o'] = np.hstack([A['args'], o])
    A['E'], A['pd'] = E, pd
    A['ps'] = (A['u'] * A['y']).sum(axis=1)
    A['dtE'] = (A['dxH'] * A['dtx']).sum(axis=1)


def run(spec, ctx):
    nt, nx, ny, npar = spec['nt'], spec['nx'], spec['ny'], spec['np']
    core = phs.build_core(spec)
    cfg = {'fs': spec['fs'], 'split': spec['split'],
           'path': os.path.join(ctx.newdir(), 'new'),
           'dnames': tuple(spec['dnames'])}
    simu = core.to_simulation(config=cfg)
    xo = [int(str(s)[1:]) for s in simu.method.x]
    wo = [int(str(s)[1:]) for s in simu.method.w]
    x0 = [spec['x'][i] for i in xo]
    u, ufull = seq(spec['u'], nt + spec['extra'], ny, spec['uform'])
    p, pfull = seq(spec['p'], nt + spec['extra'], npar, spec['pform'])
    kw = {}
    if spec['give_nt']:
        kw['nt'] = nt
    simu.init(u=u, p=p, inits={'x': x0}, **kw)
    A = {'u': ufull[:nt], 'p': pfull[:nt]}
    dims = {'x': nx, 'dx': nx, 'dxH': nx, 'w': spec['nw'], 'z': spec['nw'],
            'y': ny}
    if spec['big']:
        for k, n in dims.items():
            A[k] = np.zeros((nt, n))
    else:
        method = core.to_method(config={'split': spec['split']})
        nums = method.to_numeric(inits={'x': x0}, config={'fs': spec['fs']})
        rec = {k: [] for k in dims}
        for n in range(nt):
            nums.update(u=A['u'][n], p=A['p'][n])
            for k in dims:
                rec[k].append(np.array(getattr(nums, k)(), dtype=float))
        for k, n in dims.items():
            A[k] = np.array(rec[k]).reshape((nt, n))
        simu.process()
        derived(spec, phs.Ref(spec), A, xo, wo)
    data = simu.data
    model = Model(spec, A)
    opened = False
    nontrivial = False
    labels = set(['u:' + spec['uform'], 'p:' + spec['pform']])
    if spec['big']:
        labels.add('big')
    if data.nt != nt:
        raise Violation('number of steps', '{} {}'.format(data.nt, nt))
    # everything is there
    for k in ['u', 'p'] + spec['dnames']:
        got = np.array(data[k])
        if got.shape != A[k].shape or (
                got.size and
                not abs(got - A[k]).max() <= 1e-10 * (1 + abs(A[k]).max())):
            raise Violation('recorded ' + k, '{} instead of {}'.format(
                got.tolist()[-8:], A[k].tolist()[-8:]))
    if spec['dnames'] != DN:
        labels.add('set of recorded quantities')
    for op in spec['ops']:
        if op[0] == 'sel':
            data.start = data.stop = data.step = None
            data.stop = op[2]
            data.start = op[1]
            data.step = op[3]
            model.start, model.stop, model.step = op[1:]
        elif op[0] == 'tsel':
            # times of the samples, as given by the data
            t = np.arange(nt) / spec['fs']
            data.tstart = data.tstop = data.step = None
            data.tstop = None if op[2] is None else float(t[op[2] - 1])
            data.tstart = None if op[1] is None else float(t[op[1]])
            data.step = op[3]
            model.start, model.stop, model.step = op[1:]
            labels.add('times')
            for got, want in ((data.tstart, t[op[1] or 0]),
                              (data.tstop, t[(op[2] or nt) - 1])):
                if abs(got - want) > 1e-9:
                    raise Violation('time selection', '{} {}'.format(
                        got, want))
        elif op[0] == 'open':
            if opened:
                data.h5close()
            else:
                data.h5open()
            opened = not opened
        elif op[0] == 'reopen':
            if opened:
                data.h5close()
                opened = False
            data = data.__class__(simu.method, simu.config, erase=False)
            model.start = model.stop = model.step = None
            labels.add('reopened')
        else:
            _, name, tsel, vk, v0, v1, how = op
            opts = {}
            key = name
            if name == 'dtE:deltaH':
                opts, name = {'DtE': 'deltaH'}, 'dtE'
                how = 'attr'
            idx, step = model.rng(tsel)
            if not idx:
                continue
            if key == 'dtE:deltaH':
                E = A['E'][idx]
                want = np.append((E[1:] - E[:-1]) * spec['fs'] / step,
                                 A['dtE'][idx[-1:]])
            else:
                want = A[key][idx]
            vsel = None
            if want.ndim == 2 and vk and want.shape[1]:
                n = want.shape[1]
                if vk == 'int':
                    vsel = v0 % n
                    want = want[:, vsel]
                else:
                    a = v0 % n
                    b = a + 1 + v1 % (n - a)
                    vsel = {'slice': slice(a, b), 'from': slice(a, None),
                            'to': slice(None, b),
                            'stride': slice(a, n, 2)}[vk]
                    want = want[:, vsel]
                labels.add('columns')
            ts = slice(*tsel) if isinstance(tsel, list) else tsel
            if how == 'item':
                if vsel is None:
                    got = data[name, ts] if ts is not None else data[name]
                else:
                    got = data[name, ts, vsel]
            elif how == 'post':
                got = getattr(data, name)(
                    tslice=ts, vslice=vsel,
                    postprocess=lambda e: 2 * np.asarray(e), **opts)
                want = 2 * want
            else:
                got = getattr(data, name)(tslice=ts, vslice=vsel, **opts)
            got = np.array(got)
            if got.shape != want.shape:
                raise Violation('shape of ' + name, '{}: {} instead of {}'
                                .format(op, got.shape, want.shape))
            # differences of energies are amplified by the sample rate
            scale = spec['fs'] if key == 'dtE:deltaH' else 1.
            if want.size:
                err = abs(got - want).max()
                if not err <= 1e-10 * (scale + abs(want).max()):
                    raise Violation('value of ' + name, '{}: {} instead of {}'
                                    .format(op, got.tolist(), want.tolist()))
                if abs(want).max() > 0:
                    nontrivial = True
            labels.add('read ' + key)
    if opened:
        data.h5close()
    # the file is complete and no one holds it
    with h5py.File(data.h5path, 'r') as f:
        rows = f[data.dname].shape[0]
    if rows != nt:
        raise Violation('rows of the file', '{} {}'.format(rows, nt))
    try:
        h5py.File(data.h5path, 'w').close()
    except OSError as e:
        raise Violation('file left open', str(e))
    return {'nontrivial': nontrivial, 'labels': sorted(labels)}
