# -*- coding: utf-8 -*-
"""Random Core objects with connectors, expression-valued parameters and
coupled dissipations; operations on them; points of evaluation."""
import sympy

from pbt import phs
from pbt.phs import sym
from pbt.coreeval import Field, compare
from pbt.engine import Violation, Reject


def gen(d, nx=(0, 3), nw=(0, 3), ny=(0, 3), npar=(0, 1), nobs=(0, 0),
        connectors=(1, 2), exprsubs=True, couple=True, gsymb=False):
    ny = d.int(*ny)
    pairs = []
    if d.bool(*connectors):
        ny += 2
        ports = d.shuffle(range(ny))
        n = 1
        if d.bool(1, 4):
            ny += 2
            ports = d.shuffle(range(ny))
            n = 2
        pairs = [ports[2 * k:2 * k + 2] for k in range(n)]
    spec = phs.gen_core(d, nx=nx, nw=nw, ny=(ny, ny), npar=npar, nobs=nobs,
                        gsymb=gsymb)
    cons = []
    for i, j in pairs:
        a = d.signed(1., 8) or 1.
        e = repr(a)
        if d.bool(1, 4):
            e = 'k{}'.format(len(spec['params']))
            spec['params'].append([e, a])
        cons.append([i, j, e])
    spec['connectors'] = cons
    # expression-valued parameters: k_i = c * q (+ 0 * nothing)
    spec['exprs'] = []
    if exprsubs:
        done = []
        for name, v in list(spec['params']):
            if not d.bool(1, 3):
                continue
            if done and d.bool(1, 2):
                # chain on a previous one
                other, ov = d.choice(done)
                spec['exprs'].append([name, '{} + ({!r})'.format(
                    other, v - ov)])
            else:
                q = 'q{}'.format(len(spec['exprs']))
                spec['exprs'].append([name, '2*{}'.format(q)])
                spec['params'].append([q, v / 2.])
            done.append((name, v))
    # coupling of a dissipation with other ones
    spec['zc'] = []
    if couple and spec['nw'] > 1 and d.bool(1, 3):
        i, j = d.sample(range(spec['nw']), 2)
        c = d.choice([0.125, 0.25, -0.25])
        f = d.choice(['{}', 'tanh({})', '{}/(1 + {}**2)'])
        spec['zc'].append([i, '{}*{}'.format(
            c, f.replace('{}', 'w{}'.format(j)))])
    return spec


def names_of(spec):
    names = phs.names_of(spec)
    return names


def build(spec, label='sys'):
    from pyphs import Core
    core = phs.build_core(spec, label)
    names = names_of(spec)
    for name, e in spec['exprs']:
        core.subs[sym(name)] = phs.parse(e, names)
    z = list(core.z)
    for i, e in spec['zc']:
        z[i] = z[i] + phs.parse(e, names)
    core.z = z
    # indices of add_connector are those of the current list of ports
    for i, j, e in spec['connectors']:
        ii = core.index('y', 'y{}{}'.format(spec.get('tag', ''), i))
        jj = core.index('y', 'y{}{}'.format(spec.get('tag', ''), j))
        a = phs.parse(e, names)
        core.add_connector((ii, jj), alpha=a)
    return core


def gen_points(d, spec, n=2):
    out = []
    t = spec.get('tag', '')
    names = ['x{}{}'.format(t, i) for i in range(spec['nx'])]
    names += ['u{}{}'.format(t, i) for i in range(spec['ny'])]
    names += ['p{}{}'.format(t, i) for i in range(spec['np'])]
    for _ in range(n):
        out.append({k: d.signed(1.25, 16) for k in names})
    return out


def reference(spec, core=None):
    """values of the untouched system at the points of the specification"""
    f = Field(core if core is not None else build(spec))
    return [f.eval(pt) for pt in spec['points']]


def check_same(ref, core, spec, what, drop=(), given=None):
    f = Field(core)
    for r, pt in zip(ref, spec['points']):
        got = f.eval(pt if given is None else given(pt))
        keys = [k for k in r if k not in drop]
        extra = [k for k in got if k not in r]
        if extra:
            raise Violation(what, 'unexpected variables {}'.format(extra))
        compare(r, got, what, keys, tol=1e-6)


def moved(r):
    return any(abs(v) > 1e-6 for v in r.values())
