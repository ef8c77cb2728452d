# -*- coding: utf-8 -*-
"""C05: sums and connections of systems are the composition of the parts."""
import numpy as np
import sympy

from pbt import cores, phs
from pbt.coreeval import Field, compare
from pbt.engine import Violation, Reject

PROPERTY = 'C05'
RULE = ('a case is 1-3 random systems with disjoint symbols, summed in a drawn '
        'order, with 0-3 connectors declared between drawn ports in a drawn '
        'order (interleaved with reorderings), then connected; values are '
        'compared at 2 points with the composition of the separate parts; '
        'non-trivial when at least one connector or two parts exist and some '
        'compared value is not zero')
CASES = {'quick': 320, 'thorough': 20000}
TIMEOUT = 30


def gen(d):
    n = d.int(1, 3)
    parts = []
    for k in range(n):
        s = cores.gen(d, nx=(0, 2), nw=(0, 2), ny=(0, 3), npar=(0, 1),
                      connectors=(0, 2), couple=False)
        parts.append(phs.rename(s, 'abc'[k]))
    spec = {'parts': parts, 'order': d.shuffle(range(n)),
            'assoc': d.bool()}
    ports = ['{}{}'.format(s['tag'], i) for s in parts
             for i in range(s['ny'])]
    ports = d.shuffle(ports)
    m = min(len(ports) // 2, d.weighted([(3, 1), (2, 2), (1, 3), (1, 0)]))
    cons = []
    for k in range(m):
        a = d.signed(1.5, 8) or 1.
        form = d.weighted([(3, 'float'), (1, 'symbol'), (1, 'default'),
                           (1, 'param')])
        if form == 'default':
            a = 1.
        if form == 'param' and not any(s['np'] for s in parts):
            form = 'float'
        cons.append([ports[2 * k], ports[2 * k + 1], a, form])
    spec['cons'] = cons
    spec['moves'] = [[d.choice(['storage', 'dissipative', 'port',
                                'connector']), d.int(0, 5), d.int(0, 5)]
                     for _ in range(d.int(0, 3))]
    spec['early'] = d.bool(1, 3)
    spec['points'] = []
    for _ in range(2):
        pt = {}
        for s in parts:
            pt.update(cores.gen_points(d, s, 1)[0])
        spec['points'].append(pt)
    return spec


class Composite(object):

    def __init__(self, fields, cons):
        self.f = fields
        self.cons = cons

    def eval(self, pt):
        nw = [f.nw for f in self.f]
        cports = [p for c in self.cons for p in c[:2]]
        nu = sum(nw) + len(cports)

        def rhs(v):
            out = {'H': 0.}
            cu = dict(zip(cports, v[sum(nw):]))
            k = 0
            res = []
            for f in self.f:
                w = list(v[k:k + f.nw])
                k += f.nw
                uv = [cu.get(str(s)[1:], pt.get(str(s))) for s in f.u]
                vals = [pt[str(s)] for s in f.x] + uv + \
                    [pt[str(s)] for s in f.p] + w
                H, g, z, M = f.parts(vals)
                b = M.dot(np.concatenate([g, z, uv])) if f.n else np.zeros(0)
                out['H'] += H
                for i, s in enumerate(f.x):
                    out['dt' + str(s)] = b[i]
                for i, s in enumerate(f.w):
                    out[str(s)] = w[i]
                res += [w[i] - b[f.nx + i] for i in range(f.nw)]
                for i, s in enumerate(f.y):
                    out[str(s)] = b[f.nx + f.nw + i]
            for a, b_, al in self.cons:
                if isinstance(al, str):
                    al = pt[al]
                # u_A = - alpha y_B ; u_B = alpha y_A
                res.append(cu[a] + al * out['y' + b_])
                res.append(cu[b_] - al * out['y' + a])
            return out, np.array(res)
        v = np.zeros(nu)
        for it in range(80):
            out, r = rhs(v)
            if not nu:
                return out
            if not np.all(np.isfinite(r)):
                raise Reject('diverged')
            if it and abs(r).max() < 1e-12 * (1 + abs(v).max()):
                return out
            J = np.zeros((nu, nu))
            for i in range(nu):
                h = 1e-6 * (1 + abs(v[i]))
                e = np.zeros(nu)
                e[i] = h
                J[:, i] = (rhs(v + e)[1] - rhs(v - e)[1]) / (2 * h)
            if np.linalg.cond(J) > 1e4:
                raise Reject('ill-posed connection')
            step = np.linalg.solve(J, r)
            t = 1.
            while t > 1e-3 and abs(rhs(v - t * step)[1]).max() > \
                    abs(r).max() * (1 + 1e-9) and abs(r).max() > 1e-11:
                t /= 2
            v = v - t * step
        if abs(r).max() < 1e-10 * (1 + abs(v).max()):
            return out
        raise Reject('not solved')


def run(spec, ctx):
    parts = spec['parts']
    cons = []
    alphas = []
    for k, (a, b, al, form) in enumerate(spec['cons']):
        if form == 'param':
            name = [n for s in parts for n in phs.names_of(s)
                    if n.startswith('p')][0]
            cons.append((a, b, name))
            alphas.append(phs.sym(name))
        else:
            cons.append((a, b, al))
            alphas.append({'float': al, 'default': None,
                           'symbol': phs.sym('alpha{}'.format(k))}[form])
    comp = Composite([Field(cores.build(s, 'p' + s['tag'])) for s in parts],
                     cons)
    ref = [comp.eval(pt) for pt in spec['points']]
    for r in ref:
        for a, b, _ in cons:
            r.pop('y' + a)
            r.pop('y' + b)
    ops = [cores.build(parts[i], 'p' + parts[i]['tag'])
           for i in spec['order']]
    if len(ops) == 3 and spec['assoc']:
        core = ops[0] + (ops[1] + ops[2])
    else:
        core = ops[0]
        for o in ops[1:]:
            core = core + o

    def moves():
        for kind, i, j in spec['moves']:
            n = len({'storage': core.x, 'dissipative': core.w,
                     'port': core.u, 'connector': core.cu}[kind])
            if n > 1:
                getattr(core, 'move_' + kind)(i % n, j % n)
    for k, (a, b, _) in enumerate(cons):
        core.add_connector((core.index('y', 'y' + a),
                            core.index('u', 'u' + b)), alphas[k])
        if spec['cons'][k][3] == 'symbol':
            core.subs[alphas[k]] = spec['cons'][k][2]
        if k == 0:
            moves()
    labels = ['{} parts'.format(len(parts)),
              '{} connectors'.format(len(cons))]
    labels += ['alpha ' + c[3] for c in spec['cons']]
    want = set('y' + s['tag'] + str(i) for s in parts
               for i in range(s['ny']))
    want -= set('y' + p for c in cons for p in c[:2])
    if set(map(str, core.y)) != want or \
            set('y' + str(u)[1:] for u in core.u) != want:
        raise Violation('ports', 'y={} u={}'.format(core.y, core.u))
    core.connect()
    if core.cu or core.cy or core.connectors:
        raise Violation('connect', 'connectors remain')
    f = Field(core)
    for r, pt in zip(ref, spec['points']):
        got = f.eval(pt)
        if set(got) != set(r):
            raise Violation('variables', '{} instead of {}'.format(
                sorted(got), sorted(r)))
        compare(r, got, 'composition', tol=1e-6)
    return {'nontrivial': (len(parts) > 1 or bool(cons)) and
            cores.moved(ref[0]), 'labels': labels}
