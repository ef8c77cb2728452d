# -*- coding: utf-8 -*-
"""C17: synthesised signals, sound files and their analysis."""
import os

import numpy as np

from pbt.engine import Violation

PROPERTY = 'C17'
RULE = ('a case is either a synthesised signal (kind, duration, silences, '
        'cycles, duty ratio, envelopes, ramp, noise, offset) compared sample '
        'by sample with its definition; or a signal (list, array or '
        'generator) written to a sound file with a scale, fades and possibly '
        'another sample rate, and read back; or an estimated transfer '
        'function between a signal and its scaled version, or low-pass '
        'filtered sums of sines; non-trivial when at least 8 samples are '
        'compared')
CASES = {'quick': 10000, 'thorough': 300000}


def gen(d):
    kind = d.weighted([(5, 'synth'), (4, 'wav'), (1, 'transfer'),
                       (1, 'lowpass')])
    if kind == 'synth':
        kw = {'which': d.choice(['zero', 'const', 'sin', 'cos', 'noise',
                                 'step', 'sweep'])}
        fs = d.choice([64, 128, 1024, 16, 256.])
        if d.bool(9, 10):
            kw['fs'] = fs
        else:
            fs = 1000
        # durations that are exact numbers of samples
        kw['tsig'] = 4 * d.int(1, 16) / float(fs) if fs != 1000 else \
            d.choice([0.25, 0.5, 0.125])
        if d.bool():
            kw['ncycles'] = d.int(1, 4)
        if d.bool():
            kw['tdeb'] = d.int(0, 9) / float(fs) if fs != 1000 else 0.25
        if d.bool():
            kw['tend'] = d.int(0, 9) / float(fs) if fs != 1000 else 0.125
        if d.bool():
            kw['A'] = d.signed(4., 4)
        if d.bool(1, 3):
            kw['A1'] = d.signed(4., 4)
        if d.bool():
            kw['f0'] = d.choice([1., 5., 10, 2.5])
        if d.bool(1, 3):
            kw['f1'] = d.choice([7., 20., 3])
        if d.bool(1, 3):
            kw['cycle_ratio'] = d.choice([0.25, 0.5, 0.75, 1.])
        if d.bool(1, 3):
            kw['attack_ratio'] = d.choice([0.25, 0.5, 0.125, 1.])
        if d.bool(1, 3):
            kw['decay_ratio'] = d.choice([0.25, 0.5, 0.125, 1.])
        if d.bool(1, 3):
            kw['ramp_on'] = True
        if d.bool(1, 4):
            kw['bkgrd_noise'] = d.num(0.125, 1., 8)
        if d.bool(1, 3):
            kw['offset'] = d.signed(2., 4)
        if kw['which'] == 'sweep' and \
                fs * kw['tsig'] * kw.get('cycle_ratio', 1.) < 2:
            # a sweep needs a duration
            del kw['cycle_ratio']
        return {'kind': kind, 'kw': kw}
    if kind == 'wav':
        n = d.int(1, 40)
        return {'kind': kind, 'sig': [d.int(-32, 32) / 32. for _ in range(n)],
                'form': d.choice(['list', 'array', 'generator']),
                'fs': d.choice([8000, 44100, 48000, 1000]),
                'up': d.weighted([(3, 0), (1, 1), (1, 2)]),
                'scale': d.weighted([(2, 'none'), (2, 'true'), (1, 'false'),
                                     (1, 'number')]),
                'gain': d.choice([1., 0.5, 3.]),
                'fades': d.weighted([(2, 0), (1, d.int(1, 30))]),
                'ext': d.bool()}
    if kind == 'transfer':
        return {'kind': kind, 'gain': d.choice([0.5, -2., 3., 0.125]),
                'seed': d.int(0, 99), 'fs': d.choice([1000., 48000.]),
                'nfft': d.choice([32, 64, 128]),
                'limits': d.choice([None, [0.1, 0.3], [0., 0.25],
                                    [0.2, 0.5]])}
    return {'kind': kind, 'fc': d.choice([0.05, 0.1, 0.2]),
            'low': d.choice([0.2, 0.4, 0.6]), 'high': d.choice([1.6, 2., 2.2]),
            'a': d.num(0.5, 2., 4), 'b': d.num(0.5, 2., 4),
            'dc': d.signed(2., 4)}


DEFAULTS = {'which': 'sin', 'ncycles': 1, 'tdeb': 0., 'tend': 0., 'fs': 1000,
            'A': 1., 'A1': 0., 'f0': 10., 'f1': 100., 'cycle_ratio': 1.,
            'attack_ratio': 0., 'decay_ratio': 0., 'ramp_on': False,
            'bkgrd_noise': 0., 'offset': 0.}


def reference(kw):
    """(values, tolerance) sample by sample: noises are bounds."""
    p = dict(DEFAULTS)
    p.update(kw)
    fs = float(p['fs'])
    nsig = int(round(p['tsig'] * fs))
    non = int(nsig * p['cycle_ratio'])
    na, nd = int(p['attack_ratio'] * non), int(p['decay_ratio'] * non)
    noise = p['bkgrd_noise']
    out = [(0., noise)] * int(round(p['tdeb'] * fs))
    ntot = p['ncycles'] * nsig
    for c in range(p['ncycles']):
        for i in range(nsig):
            if i >= non:
                out.append((p['offset'], noise))
                continue
            t = i / fs
            g = 1.
            if na:
                g *= min(1., i / float(na))
            if nd:
                g *= min(1., (non - i) / float(nd))
            if p['ramp_on']:
                g *= (c * nsig + i) / float(ntot - 1)
            w, tol = p['which'], 0.
            if w == 'zero':
                v = 0.
            elif w in ('const', 'step'):
                v = p['A']
            elif w == 'sin':
                v = p['A'] * np.sin(2 * np.pi * p['f0'] * t) + \
                    p['A1'] * np.sin(2 * np.pi * p['f1'] * t)
            elif w == 'cos':
                v = p['A'] * np.cos(2 * np.pi * p['f0'] * t)
            elif w == 'sweep':
                # the frequency goes linearly from f0 to f1
                T = (non - 1) / fs
                k = (p['f1'] - p['f0']) / T if T else 0.
                v = p['A'] * np.sin(2 * np.pi * (p['f0'] * t +
                                                 k * t * t / 2.))
            else:
                v, tol = 0., abs(p['A'])
            out.append((g * v + p['offset'], abs(g) * tol + noise))
    out += [(0., noise)] * int(round(p['tend'] * fs))
    return out


def run_synth(spec):
    from pyphs import signalgenerator
    kw = dict(spec['kw'])
    before = dict(kw)
    got = np.asarray(signalgenerator(**kw))
    if kw != before:
        raise Violation('arguments modified', repr(kw))
    ref = reference(kw)
    if got.shape != (len(ref),):
        raise Violation('length of the signal', '{} samples, {} expected for '
                        '{}'.format(got.shape, len(ref), kw))
    for i, (v, tol) in enumerate(ref):
        if not abs(got[i] - v) <= tol + 1e-9:
            raise Violation('value of the signal', 'sample {}: {} instead of '
                            '{} (+-{}) for {}'.format(i, got[i], v, tol, kw))
    noisy = [g for g, (v, tol) in zip(got, ref) if tol > 1e-3]
    if len(noisy) > 20 and len(set(noisy)) < 10:
        raise Violation('the noise is not random', repr(noisy[:10]))
    labels = [kw['which']]
    if kw.get('ncycles', 1) > 1:
        labels.append('several cycles')
    return len(ref), labels


def run_wav(spec, ctx):
    from pyphs.misc.signals.waves import wavread, wavwrite
    vals = list(spec['sig'])
    n = len(vals)
    fs = spec['fs']
    gain = spec['gain'] if spec['scale'] in ('true', 'number') else 1.
    data = [gain * v for v in vals]
    norm = {'none': None, 'true': True, 'false': False,
            'number': float(spec['gain'])}[spec['scale']]
    sig = {'list': lambda: list(data), 'array': lambda: np.array(data),
           'generator': lambda: (v for v in data)}[spec['form']]()
    path = os.path.join(ctx.newdir(), 'sound')
    kw = {}
    if norm is not None or spec['scale'] == 'none' and spec['up'] == 0:
        kw['normalize'] = norm
    up = spec['up']
    if up:
        kw['fs_out'] = fs * up
    nf = spec['fades']
    if nf:
        kw['timefades'] = (nf + 0.5) / fs
    ref = list(data)
    if nf and n >= 2 * nf:
        for i in range(nf):
            ref[i] *= i / float(nf)
            ref[n - 1 - i] *= i / float(nf)
    if up == 2:
        from scipy.signal import resample
        ref = list(resample(ref, 2 * n))
    scale = 1.
    if norm is True:
        scale = max(abs(v) for v in ref) or 1.
    elif spec['scale'] == 'number':
        scale = norm
    if max(abs(v) for v in ref) > scale:
        # 16 bits: the interpolation overshoots
        return 0, ['overflow']
    wavwrite(sig, fs, path + ('.wav' if spec['ext'] else ''), **kw)
    if os.listdir(os.path.dirname(path)) != ['sound.wav']:
        raise Violation('file', repr(os.listdir(os.path.dirname(path))))
    rate, got = wavread(path + '.wav')
    if rate != fs * max(up, 1):
        raise Violation('sample rate', '{} != {}'.format(rate, fs))
    if spec['form'] == 'array' and list(sig) != data:
        raise Violation('the signal is modified', '')
    if len(got) != len(ref):
        raise Violation('length of the sound', '{} != {}'.format(
            len(got), len(ref)))
    for i, v in enumerate(ref):
        if not abs(got[i] - v / scale) <= 1.01 / 2**15:
            raise Violation('sample read back', '{}: {} instead of {} for {}'
                            .format(i, got[i], v / scale,
                                    {k: spec[k] for k in spec if k != 'sig'}))
    return len(ref), [spec['form'], 'normalize ' + spec['scale']] + \
        (['fades'] if nf else []) + (['resampled'] if up == 2 else [])


def run_transfer(spec):
    from pyphs.misc.signals.analysis import transferFunction
    rng = np.random.RandomState(spec['seed'])
    x = rng.uniform(-1, 1, 1024)
    fs = spec['fs']
    kw = {'nfft': spec['nfft']}
    lim = spec['limits']
    if lim is not None:
        kw['limits'] = tuple(v * fs for v in lim)
    f, tf = transferFunction(x, spec['gain'] * x, fs, **kw)
    allf = np.arange(spec['nfft'] // 2 + 1) * fs / spec['nfft']
    want = [v for v in allf if lim is None or
            lim[0] * fs - 1e-9 <= v <= lim[1] * fs + 1e-9]
    if len(f) != len(tf) or len(f) != len(want) or \
            not np.allclose(f, want, rtol=1e-9, atol=1e-9):
        raise Violation('frequencies of the transfer function',
                        '{} instead of {}'.format(list(f), want))
    if not np.allclose(tf, abs(spec['gain']), rtol=1e-6):
        raise Violation('modulus of the transfer function',
                        '{} instead of {}'.format(list(tf), spec['gain']))
    return len(f), ['transfer']


def run_lowpass(spec):
    from pyphs.misc.signals.processing import lowpass
    fc = spec['fc']
    tbw = 0.2
    n = int(3 * (4 / (tbw * fc)))
    t = np.arange(n)
    low = spec['dc'] + spec['a'] * np.cos(2 * np.pi * spec['low'] * fc * t)
    high = spec['b'] * np.cos(2 * np.pi * spec['high'] * fc * t)
    got = lowpass(low + high, fc, tbw)
    if len(got) != n:
        raise Violation('length of the filtered signal', str(len(got)))
    mid = slice(int(n * 0.4), int(n * 0.6))
    if not np.max(np.abs(got[mid] - low[mid])) < 5e-3:
        raise Violation('low-pass filter', 'error {} for {}'.format(
            np.max(np.abs(got[mid] - low[mid])), spec))
    return n, ['lowpass']


def run(spec, ctx):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        if spec['kind'] == 'synth':
            n, labels = run_synth(spec)
        elif spec['kind'] == 'wav':
            n, labels = run_wav(spec, ctx)
        elif spec['kind'] == 'transfer':
            n, labels = run_transfer(spec)
        else:
            n, labels = run_lowpass(spec)
    return {'nontrivial': n >= 8, 'labels': labels}
