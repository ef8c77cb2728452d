# -*- coding: utf-8 -*-
"""C09: numerical evaluations agree with the symbolic system."""
import numpy as np
import sympy

from pbt import cores, phs
from pbt.phs import sym, mp
from pbt.engine import Violation, Reject

PROPERTY = 'C09'
RULE = ('a case is a random system (parameters, chained expressions, '
        'observers), a subset of its quantities (energy, gradient, '
        'dissipation, structure and its blocks, outputs, dissipated power, '
        'jacobians, observers), a calling convention (scalars, lists, arrays; '
        'vectorized or not) and 1-4 points; values are compared with an '
        'evaluation in multiple precision of the specification; non-trivial '
        'when some non-constant quantity is evaluated')
CASES = {'quick': 1200, 'thorough': 20000}

NAMES = ['H', 'dxH', 'z', 'M', 'J', 'R', 'output', 'pd', 'jacz', 'hessH', 'o',
         'Mxx', 'Jxw', 'Rwy', 'Mwx', 'Myx', 'Jyy', 'Mxy', 'Rxx']


def gen(d):
    spec = cores.gen(d, nx=(0, 3), nw=(0, 2), ny=(0, 2), npar=(0, 2),
                     nobs=(0, 2), connectors=(0, 2), couple=False)
    spec['call'] = d.choice(['float', 'list', 'array'])
    spec['vectorize'] = spec['call'] != 'float' or d.bool()
    n = d.int(1, 4)
    names = (['x{}'.format(i) for i in range(spec['nx'])] +
             ['dx{}'.format(i) for i in range(spec['nx'])] +
             ['w{}'.format(i) for i in range(spec['nw'])] +
             ['u{}'.format(i) for i in range(spec['ny'])] +
             ['p{}'.format(i) for i in range(spec['np'])] +
             ['o{}'.format(i) for i in range(len(spec['obs']))])
    spec['args'] = names
    spec['pts'] = [[d.signed(1.5, 16) for _ in names] for _ in range(n)]
    dims = {'dxH': spec['nx'], 'z': spec['nw'], 'output': spec['ny'],
            'o': len(spec['obs'])}
    long = [k for k in sorted(dims) if dims[k] > 1]
    spec['vslice'] = d.weighted([(4, None), (1, 0), (1, [0, 1]),
                                 (1, [1, None])]) if long else None
    if spec['vslice'] is None:
        spec['names'] = d.sample(NAMES, d.int(1, 5))
    else:
        spec['names'] = [d.choice(long)]
    return spec


def reference(spec, ref, name, env):
    """the value of a quantity, from the specification"""
    nx, nw, ny = spec['nx'], spec['nw'], spec['ny']
    sl = {'x': slice(0, nx), 'w': slice(nx, nx + nw),
          'y': slice(nx + nw, nx + nw + ny)}
    if name == 'H':
        return np.array(float(ref.H(env)))
    if name == 'dxH':
        return np.array([float(v) for v in ref.grad(env)])
    if name == 'z':
        return np.array([float(v) for v in ref.z(env)])
    if name == 'o':
        return np.array([float(v) for v in ref.o(env)])
    if name == 'hessH':
        return np.array([[float(e(env)) for e in r] for r in ref._hess]
                        ).reshape((nx, nx))
    if name == 'jacz':
        h = mp.mpf(10) ** -12
        out = np.zeros((nw, nw))
        for j in range(nw):
            ep, em = dict(env), dict(env)
            ep['w{}'.format(j)] += h
            em['w{}'.format(j)] -= h
            for i, (a, b) in enumerate(zip(ref.z(ep), ref.z(em))):
                out[i, j] = float((a - b) / (2 * h))
        return out
    if name in ('output', 'pd'):
        a = list(ref.grad(env)) + list(ref.z(env)) + [
            env['u{}'.format(i)] for i in range(ny)]
        if name == 'output':
            return np.array([float(v) for v in phs.matvec(
                ref.M(env), a)[nx + nw:]])
        w = [env['w{}'.format(i)] for i in range(nw)]
        return np.array(float(phs.dot(w, ref.z(env)) +
                              phs.dot(a, phs.matvec(ref.R(env), a))))
    m = {'M': ref.M, 'J': ref.J, 'R': ref.R}[name[0]](env)
    n = nx + nw + ny
    m = np.array([[float(v) for v in r] for r in m]).reshape((n, n))
    if len(name) > 1:
        m = m[sl[name[1]], sl[name[2]]]
    return m


def run(spec, ctx):
    core = cores.build(spec)
    ref = phs.Ref(spec)
    labels = [spec['call']]
    names = list(spec['names'])
    vslice = spec['vslice']
    vectors = ('dxH', 'z', 'output', 'o')
    dims = {'dxH': spec['nx'], 'z': spec['nw'], 'output': spec['ny'],
            'o': len(spec['obs'])}
    if vslice is not None:
        names = [n for n in names if n in vectors and dims[n] > 1][:1]
        if not names:
            raise Reject('no vector to slice')
        labels.append('sliced')
    sl = slice(*vslice) if isinstance(vslice, list) else vslice
    ev = core.to_evaluation(names=names, vectorize=spec['vectorize'],
                            vslice=sl)
    if [str(s) for s in ev.args()] != spec['args']:
        raise Violation('arguments', '{} instead of {}'.format(
            ev.args(), spec['args']))
    nontrivial = False
    for name in names:
        want = []
        for pt in spec['pts']:
            env = {k: mp.mpf(v) for k, v in zip(spec['args'], pt)}
            v = reference(spec, ref, name, env)
            want.append(v if sl is None else v[sl])
        if 0 in want[0].shape:
            continue
        inds = list(getattr(ev, name + '_inds'))
        args = [str(a) for a in getattr(ev, name + '_args')]
        if args != [spec['args'][i] for i in inds]:
            raise Violation('arguments', '{}: {} {}'.format(name, args, inds))
        f = getattr(ev, name)
        if spec['call'] == 'float':
            got = [np.array(f(*[pt[i] for i in inds])) for pt in spec['pts']]
        else:
            cols = [[pt[i] for pt in spec['pts']] for i in inds]
            if spec['call'] == 'array':
                cols = [np.array(c) for c in cols]
            if inds:
                got = list(np.array(f(*cols)))
            else:
                got = [np.array(f()) for _ in spec['pts']]
        if len(got) != len(want):
            raise Violation('shape', '{}: {} values instead of {}'.format(
                name, len(got), len(want)))
        for g, w in zip(got, want):
            if g.shape != w.shape:
                raise Violation('shape', '{}: {} instead of {}'.format(
                    name, g.shape, w.shape))
            if g.dtype.kind != 'f':
                raise Violation('type', '{}: {}'.format(name, g.dtype))
            if abs(g - w).max() > 1e-9 * (1 + abs(w).max()):
                raise Violation('value', '{}: {} instead of {} at {}'.format(
                    name, g, w, spec['pts']))
        if inds:
            nontrivial = True
        labels.append(name)
    # symbols
    want = set(k for k in ref_symbols(core))
    got = set(map(str, core.freesymbols()))
    if got != want:
        raise Violation('freesymbols', '{} instead of {}'.format(
            sorted(got), sorted(want)))
    return {'nontrivial': nontrivial, 'labels': labels}


def ref_symbols(core):
    out = set()
    for e in [core.H] + list(core.z) + list(core.M):
        out |= set(map(str, sympy.sympify(e).free_symbols))
    return out
