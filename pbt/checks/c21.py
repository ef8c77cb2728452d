# -*- coding: utf-8 -*-
"""C21: figures and sound files show the data they are made from."""
import os
import re
import wave

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np

from pbt import phs
from pbt.checks import c10
from pbt.engine import Violation

PROPERTY = 'C21'
RULE = ('a case is either a random system and a python simulation of 1-8 '
        'steps followed by 1-4 exports (figure of drawn variables, figure of '
        'the power balance in one or several axes, sound file of a drawn '
        'variable) with drawn selections of time, or a direct figure of '
        'drawn curves (one or several axes, labels, scales, saved or not); '
        'the abscissas, ordinates, number, order and labels of the curves, '
        'and the samples and rate of the sound, are compared with the values '
        'of the step-by-step solver; non-trivial when a non-zero curve or '
        'sound was compared')
CASES = {'quick': 160, 'thorough': 8000}
SHOWN = []
NAMES = ['x', 'dx', 'dtx', 'dxH', 'w', 'z', 'u', 'y', 'p', 'o']


def gen_curves(d):
    multi = d.bool()
    n = d.int(1, 4)
    npts = d.int(2, 6)
    log = d.choice(['', '', 'x', 'y', 'xy'])

    def curve():
        if log:
            return [abs(d.signed(2., 16)) + 0.25 for _ in range(npts)]
        return [d.signed(2., 16) for _ in range(npts)]
    x = [0.5 + 0.25 * i for i in range(npts)]
    spec = {'kind': 'curves', 'multi': multi, 'x': x,
            'log': log if d.bool() or log else None,
            'title': d.choice([None, 'a title']),
            'xlabel': d.choice(['time', 'frequency']),
            'save': d.bool(1, 6), 'array': d.bool()}
    if multi:
        axes = []
        for _ in range(n):
            k = d.choice([0, 0, 1, 2, 3])
            axes.append([curve() for _ in range(k)] if k else curve())
        spec['y'] = axes
        spec['ylabels'] = ['axis {}'.format(i) for i in range(n)] \
            if d.bool(2, 3) else None
        spec['labels'] = [
            ['c{}{}'.format(i, j) for j in range(len(a))]
            if isinstance(a[0], list) else 'c{}'.format(i)
            for i, a in enumerate(axes)] if d.bool(2, 3) else None
    else:
        spec['y'] = curve() if n == 1 and d.bool() else \
            [curve() for _ in range(n)]
        spec['ylabels'] = d.choice([None, 'amplitude'])
        k = d.choice([i for i in range(1, n + 1) if n % i == 0])
        spec['labels'] = ['c{}'.format(i) for i in range(k)] \
            if d.bool(2, 3) else None
    spec['styles'] = d.bool()
    spec['show'] = d.bool(1, 3)
    return spec


def gen(d):
    if d.bool(1, 4):
        return gen_curves(d)
    spec = phs.gen_core(d, nx=(0, 2), nw=(0, 2), ny=(0, 2), npar=(0, 1),
                        nobs=(0, 1))
    for o in spec['obs']:
        o[1] = o[1].replace('dx', 'x')
        o[1] = re.sub(r'\bw\d', 'x0' if spec['nx'] else '1', o[1])
    if not spec['nx']:
        spec['obs'] = []
        spec['z'] = [re.sub(r'\bo\d', '1', z) for z in spec['z']]
    nt = d.int(2, 8)
    spec.update(kind='data', nt=nt, fs=d.choice([100., 8., 48000., 96.]),
                split=d.bool(), x=[d.signed(1., 8)
                                   for _ in range(spec['nx'])])
    spec['u'] = [[d.signed(2., 8) for _ in range(spec['ny'])]
                 for _ in range(nt)]
    spec['p'] = [[d.signed(1., 8) for _ in range(spec['np'])]
                 for _ in range(nt)]
    a = d.int(0, nt - 1)
    spec['sel'] = [a, d.int(a + 1, nt), d.choice([1, 2, 3])] \
        if d.bool(1, 3) else None
    spec['opened'] = d.bool(1, 4)
    spec['save'] = d.weighted([(8, 0), (1, 2), (1, 3)])
    ops = []
    for _ in range(d.int(1, 4)):
        t = c10.gen_tsel(d, nt)
        if isinstance(t, int) or isinstance(t, list) and t[2] is None:
            t = None
        k = d.weighted([(3, 'plot'), (2, 'balance'), (3, 'sound')])
        if k == 'plot':
            v = [[d.choice(NAMES), d.int(0, 5) if d.bool() else None]
                 for _ in range(d.int(1, 3))]
            ops.append([k, v, t])
        elif k == 'balance':
            ops.append([k, d.choice(['single', 'multi']),
                        d.choice([None, 'deltaH', 'DxhDtx']), t])
        else:
            ops.append([k, d.choice(NAMES), d.int(0, 5),
                        d.choice(['normalized', 'gain', 'number']),
                        d.choice([1, 1, 2]), d.int(0, 2), d.bool(1, 4)])
    spec['ops'] = ops
    return spec


def same(a, b, scale=1.):
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    return a.shape == b.shape and (
        not a.size or abs(a - b).max() <= 1e-9 * (scale + abs(b).max()))


def check_curves(lines, x, ys, what, scale=1.):
    if len(lines) != len(ys):
        raise Violation(what, '{} curves instead of {}'.format(
            len(lines), len(ys)))
    for k, (line, y) in enumerate(zip(lines, ys)):
        if not same(line.get_xdata(), x):
            raise Violation(what + ': abscissas', 'curve {}: {} instead of {}'
                            .format(k, list(line.get_xdata()), list(x)))
        if not same(line.get_ydata(), y, scale):
            raise Violation(what + ': ordinates', 'curve {}: {} instead of {}'
                            .format(k, list(line.get_ydata()), list(y)))


def axes_of(ax):
    return list(np.atleast_1d(np.array(ax, dtype=object)).ravel())


def run_curves(spec, ctx):
    from pyphs.misc.plots.multiplots import multiplot
    from pyphs.misc.plots.singleplots import singleplot
    conv = (lambda v: np.array(v)) if spec['array'] else list
    y = spec['y']
    kw = {'xlabel': spec['xlabel'], 'title': spec['title'],
          'show': spec['show']}
    styles = ['-', '--', ':', '-.'] if spec['styles'] else None
    path = os.path.join(ctx.newdir(), 'figure')
    if spec['save']:
        kw.update(path=path, format='png')
    if spec['multi']:
        if spec['ylabels']:
            kw['ylabels'] = list(spec['ylabels'])
        if spec['labels']:
            kw['labels'] = [tuple(l) if isinstance(l, list) else l
                            for l in spec['labels']]
        if spec['log'] is not None:
            kw['log'] = [spec['log']] * len(y)
        if styles:
            kw['linestyles'] = [styles] * len(y)
        fig, ax = multiplot(conv(spec['x']), [
            tuple(conv(c) for c in a) if isinstance(a[0], list) else conv(a)
            for a in y], **kw)
        axs = axes_of(ax)
        curves = [a if isinstance(a[0], list) else [a] for a in y]
        ylabels = spec['ylabels'] or [''] * len(y)
        labels = [l if isinstance(l, list) else [l]
                  for l in spec['labels']] if spec['labels'] else None
    else:
        if spec['ylabels']:
            kw['ylabel'] = spec['ylabels']
        if spec['labels']:
            kw['labels'] = list(spec['labels'])
        if spec['log'] is not None:
            kw['log'] = spec['log']
        if styles:
            kw['linestyles'] = styles
        arg = [conv(c) for c in y] if isinstance(y[0], list) else conv(y)
        fig, ax = singleplot(conv(spec['x']), arg, **kw)
        axs = axes_of(ax)
        curves = [y if isinstance(y[0], list) else [y]]
        ylabels = [spec['ylabels'] or '']
        labels = [spec['labels']] if spec['labels'] else None
    if len(axs) != len(curves):
        raise Violation('number of axes', '{} instead of {}'.format(
            len(axs), len(curves)))
    if bool(SHOWN) != spec['show']:
        raise Violation('display', '{} when show is {}'.format(
            len(SHOWN), spec['show']))
    log = spec['log'] or ''
    for i, a in enumerate(axs):
        check_curves(a.get_lines(), spec['x'], curves[i], 'figure')
        if labels is not None:
            got = [l.get_label() for l in a.get_lines()]
            got = got[:len(labels[i])]
            leg = a.get_legend()
            shown = [t.get_text() for t in leg.get_texts()] if leg else []
            if got != labels[i] or shown != labels[i]:
                raise Violation('labels of curves', '{} {} instead of {}'
                                .format(got, shown, labels[i]))
        if a.get_ylabel() != ylabels[i]:
            raise Violation('label of an axis', '{} instead of {}'.format(
                a.get_ylabel(), ylabels[i]))
        if styles:
            got = [l.get_linestyle() for l in a.get_lines()]
            if got != styles[:len(got)]:
                raise Violation('styles', '{} instead of {}'.format(
                    got, styles))
        scales = [a.get_xscale(), a.get_yscale()]
        want = ['log' if c in log else 'linear' for c in 'xy']
        if scales != want:
            raise Violation('scales', '{} instead of {}'.format(scales, want))
    if axs[-1].get_xlabel() != spec['xlabel']:
        raise Violation('label of the abscissas', axs[-1].get_xlabel())
    if spec['title']:
        texts = [t.get_text() for t in fig.texts] + \
            [a.get_title() for a in axs] + \
            ([fig._suptitle.get_text()]
             if getattr(fig, '_suptitle', None) else [])
        if spec['title'] not in texts:
            raise Violation('title', repr(texts))
    if spec['save'] != os.path.exists(path + '.png'):
        raise Violation('file', repr(os.listdir(os.path.dirname(path))))
    return {'nontrivial': True, 'labels': [
        'curves', 'multi' if spec['multi'] else 'single',
        'axes {}'.format(len(axs))] + (['saved'] if spec['save'] else [])}


def sound(data, spec, A, op, ctx):
    _, name, i, mode, up, fades, own = op
    n = A[name].shape[1]
    if not n:
        return None
    i = i % n
    lo, hi = (spec['sel'] or [0, spec['nt'], 1])[:2]
    ref = np.array(A[name][lo:hi, i])
    m = len(ref)
    peak = abs(ref).max()
    fs = spec['fs']
    kw = {'normalize': True}
    gain, scale = 1., None
    if mode == 'gain':
        # within the range of the format, with a margin for interpolation
        gain = 0.25 / (peak or 1.)
        kw = {'normalize': False, 'gain': gain}
        scale = 1.
    elif mode == 'number':
        scale = float(4. * peak or 1.)
        kw = {'normalize': scale, 'gain': 0.5}
        gain = 0.5
    ref = gain * ref
    if fades:
        kw['timefades'] = (fades + 0.5) / fs
        if m >= 2 * fades:
            for k in range(fades):
                ref[k] *= k / float(fades)
                ref[m - 1 - k] *= k / float(fades)
    if up == 2:
        from scipy.signal import resample
        kw['fs'] = int(2 * fs)
        ref = resample(ref, 2 * m)
    if scale is None:
        scale = abs(ref).max() or 1.
        if scale < 1e-9 * peak:
            # rounding errors only
            return None
    if abs(ref).max() > scale:
        return None
    if own:
        path = os.path.join(ctx.newdir(), 'sound')
        kw['path'] = path
    else:
        path = os.path.join(data.config['path'], name + str(i))
    data.wavwrite(name, i, **kw)
    if not os.path.exists(path + '.wav'):
        raise Violation('sound file', 'absent: {}'.format(path))
    w = wave.open(path + '.wav', 'rb')
    rate, frames = w.getframerate(), w.readframes(w.getnframes())
    w.close()
    got = np.frombuffer(frames, dtype='<i2') / (2**15 - 1.)
    if rate != int(fs * up):
        raise Violation('rate of the sound', '{} instead of {}'.format(
            rate, fs * up))
    if len(got) != len(ref) or \
            not (abs(got - ref / scale) <= 1.01 / 2**15 + 1e-7).all():
        raise Violation('samples of the sound', '{}: {} instead of {}'.format(
            op, got.tolist(), (ref / scale).tolist()))
    return abs(ref).max() > 0


def run_data(spec, ctx):
    nt, nx, ny = spec['nt'], spec['nx'], spec['ny']
    core = phs.build_core(spec)
    simu = core.to_simulation(config={
        'fs': spec['fs'], 'split': spec['split'],
        'path': os.path.join(ctx.newdir(), 'new')})
    xo = [int(str(s)[1:]) for s in simu.method.x]
    wo = [int(str(s)[1:]) for s in simu.method.w]
    x0 = [spec['x'][i] for i in xo]
    A = {'u': np.array(spec['u']).reshape((nt, ny)),
         'p': np.array(spec['p']).reshape((nt, spec['np']))}
    dims = {'x': nx, 'dx': nx, 'dxH': nx, 'w': spec['nw'], 'z': spec['nw'],
            'y': ny}
    simu.init(u=A['u'].copy(), p=A['p'].copy(), inits={'x': x0}, nt=nt)
    method = core.to_method(config={'split': spec['split']})
    nums = method.to_numeric(inits={'x': x0}, config={'fs': spec['fs']})
    rec = {k: [] for k in dims}
    for n in range(nt):
        nums.update(u=A['u'][n], p=A['p'][n])
        for k in dims:
            rec[k].append(np.array(getattr(nums, k)(), dtype=float))
    for k, n in dims.items():
        A[k] = np.array(rec[k]).reshape((nt, n))
    simu.process()
    c10.derived(spec, phs.Ref(spec), A, xo, wo)
    data = simu.data
    model = c10.Model(spec, A)
    if spec['sel']:
        data.start, data.stop, data.step = spec['sel']
        model.start, model.stop, model.step = spec['sel']
    symb = {'x': ['x%d' % i for i in xo], 'w': ['w%d' % i for i in wo],
            'u': ['u%d' % i for i in range(ny)],
            'y': ['y%d' % i for i in range(ny)]}
    symb.update(dx=symb['x'], dtx=symb['x'], dxH=symb['x'],
                z=['z' + k[1:] for k in symb['w']])
    nontrivial, labels = False, set()
    if spec['opened']:
        data.h5open()
    for op in spec['ops']:
        if op[0] == 'sound':
            r = sound(data, spec, A, op, ctx)
            if r is not None:
                labels.add('sound')
                nontrivial = nontrivial or r
            continue
        t = op[-1]
        idx, step = model.rng(t)
        if not idx:
            continue
        times = A['t'][idx]
        ts = slice(*t) if t is not None else None
        if op[0] == 'plot':
            want, args = [], []
            for name, i in op[1]:
                n = A[name].shape[1]
                if not n:
                    continue
                args.append(name if i is None else (name, i % n))
                want += [(name, j) for j in
                         (range(n) if i is None else [i % n])]
            if not want:
                continue
            fig, ax = data.plot(args, tslice=ts, show=False)
            axs = axes_of(ax)
            if len(axs) != len(want):
                raise Violation('number of axes', '{} instead of {}'.format(
                    len(axs), len(want)))
            seen = {}
            for a, (name, j) in zip(axs, want):
                y = A[name][idx, j]
                check_curves(a.get_lines(), times, [y], 'plot of ' + name)
                nontrivial = nontrivial or bool(abs(y).max() > 0)
                lab = a.get_ylabel()
                if name in symb:
                    k = symb[name][j]
                    if k[0] + r'_{\mathrm{' + k[1:] + '}}' not in lab:
                        raise Violation('label of a plot', '{} for {}'.format(
                            lab, k))
                    if seen.setdefault(lab, (name, j)) != (name, j):
                        raise Violation('label of a plot', '{} for {} and {}'
                                        .format(lab, seen[lab], (name, j)))
                labels.add('plot ' + name)
        else:
            _, mode, method, _ = op
            kw = {} if method is None else {'DtE': method}
            fig, ax = data.plot_powerbal(mode=mode, tslice=ts, show=False,
                                         **kw)
            dte = A['dtE'][idx]
            if method != 'DxhDtx':
                E = A['E'][idx]
                dte = np.append((E[1:] - E[:-1]) * spec['fs'] / step,
                                dte[-1:])
            pd, ps = A['pd'][idx], A['ps'][idx]
            lines = [a.get_lines() for a in axes_of(ax)]
            if mode == 'single':
                want = [[dte, -pd - ps]]
            else:
                want = [[dte], [pd], [ps], [dte + pd + ps]]
            if len(lines) != len(want):
                raise Violation('number of axes', '{}'.format(len(lines)))
            # differences of energies are amplified by the sample rate
            scale = 1. + spec['fs'] * 1e-2 + abs(dte).max()
            for l, w in zip(lines, want):
                check_curves(l, times, w, 'power balance', scale)
            nontrivial = nontrivial or bool(abs(dte).max() > 0)
            labels.add('balance ' + mode)
    if spec['opened']:
        data.h5close()
    if SHOWN:
        raise Violation('display', 'shown when it is not asked for')
    if spec['save'] and nx:
        # one file per figure
        from pyphs.misc.plots import data as plots
        folder = os.path.join(data.config['path'], 'figures')
        figs = [(plots.plot, [['x']]), (plots.plot, [[('dxH', nx - 1)]]),
                (plots.plot_powerbal, [])][:spec['save']]
        for k, (f, a) in enumerate(figs):
            f(data, *a, show=False, save=True)
            found = os.listdir(folder) if os.path.isdir(folder) else []
            if len(found) != k + 1:
                raise Violation('files of figures', '{} for {} figures'
                                .format(found, k + 1))
        labels.add('saved figures')
    return {'nontrivial': nontrivial, 'labels': sorted(labels)}


def run(spec, ctx):
    del SHOWN[:]
    plt.show = lambda *a, **k: SHOWN.append(1)
    try:
        return (run_curves if spec['kind'] == 'curves'
                else run_data)(spec, ctx)
    finally:
        plt.close('all')
