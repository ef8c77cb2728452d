# -*- coding: utf-8 -*-
"""C04: reorderings, linear/nonlinear splits and reduction of linear
dissipations preserve the dynamics."""
import numpy as np
import sympy

from pbt import cores, phs
from pbt.coreeval import closure
from pbt.engine import Violation, Reject

PROPERTY = 'C04'
RULE = ('a case is a random system (0-3 states, 0-4 dissipations, 0-5 ports, '
        'connectors, literal and expression parameters) and a history of 1-6 '
        'operations among moves, linear/nonlinear split, separable split, '
        'reduction of linear dissipations, connection; after each of them '
        'the time derivatives, dissipation variables, outputs and energy are '
        'compared at 2 points with those of the untouched system; '
        'non-trivial when some of these values is not zero and the history '
        'contains an operation that applies')
TIMEOUT = 30
CASES = {'quick': 220, 'thorough': 20000}


def gen(d):
    spec = cores.gen(d, nx=(0, 4), nw=(0, 4), npar=(0, 1), gsymb=True)
    spec['points'] = cores.gen_points(d, spec)
    spec['force'] = d.subset(['w{}'.format(i) for i in range(spec['nw'])],
                             1, 4)
    ops = []
    for _ in range(d.int(1, 6)):
        k = d.weighted([(4, 'move'), (2, 'lnl'), (1, 'mono'), (2, 'reduce'),
                        (1, 'connect')])
        if k == 'move':
            ops.append([k, d.choice(['storage', 'dissipative', 'port',
                                     'connector']), d.int(0, 5), d.int(0, 5)])
        else:
            ops.append([k])
    spec['ops'] = ops
    return spec


LISTS = {'storage': 'x', 'dissipative': 'w', 'port': 'u', 'connector': 'cu'}


def do_move(core, kind, i, j):
    name = LISTS[kind]
    lst = list(getattr(core, name))
    if len(lst) < 2:
        return False
    i, j = i % len(lst), j % len(lst)
    getattr(core, 'move_' + kind)(i, j)
    want = list(lst)
    want.insert(j, want.pop(i))
    if list(getattr(core, name)) != want:
        raise Violation('move', 'move_{}({}, {}) of {} gives {}'.format(
            kind, i, j, lst, getattr(core, name)))
    return i != j


def numeric(exprs, syms, pts):
    f = sympy.lambdify(syms, exprs, 'numpy', dummify=True)
    return [np.array(f(*p), dtype=float) for p in pts]


def linear_sets(core, forced=()):
    """which states and dissipations are linear, numerically"""
    sub = closure(core.subs, zip(
        [sympy.Symbol('g' + str(x), real=True) for x in core.x],
        [sympy.diff(core.H, x) for x in core.x]))
    rs = np.random.RandomState(3)
    others = list(core.p) + list(core.u) + list(core.cu)

    def fixed(vary):
        keep = rs.uniform(-1, 1, 20)
        return [list(rs.uniform(-1.5, 1.5, len(vary))) for _ in range(4)], \
            keep
    x, w = list(core.x), list(core.w)
    nx, nw = len(x), len(w)
    H = sympy.sympify(core.H).xreplace(sub)
    hess = [[H.diff(a).diff(b) for b in x] for a in x]
    pts, keep = fixed(x)
    o = list(keep[:len(others)])
    vals = [np.zeros((nx, nx)) if not nx else numeric(
        [e for r in hess for e in r], x + others, [p + o])[0].reshape(
            (nx, nx)) for p in pts]
    xnl = set()
    coup = np.zeros((nx, nx), bool)
    for v in vals:
        coup |= abs(v) > 1e-12
    for i in range(nx):
        for v in vals[1:]:
            if abs(v[:, i] - vals[0][:, i]).max() > 1e-9:
                xnl.add(i)
    z = [sympy.sympify(e).xreplace(sub) for e in core.z]
    jac = [[a.diff(b) for b in w] for a in z]
    pts, keep = fixed(w)
    o = list(keep[:len(others) + nx])
    wnl = set()
    wcoup = np.zeros((nw, nw), bool)
    if nw:
        vals = [numeric([e for r in jac for e in r], w + x + others,
                        [p + o])[0].reshape((nw, nw)) for p in pts]
        for v in vals:
            wcoup |= abs(v) > 1e-12
        for i in range(nw):
            for v in vals[1:]:
                if abs(v[:, i] - vals[0][:, i]).max() > 1e-9:
                    wnl.add(i)

    wnl |= set(i for i in range(nw) if w[i] in forced)

    def close(nl, c):
        c = c | c.T
        while True:
            new = set(i for i in range(len(c)) if i not in nl and
                      any(c[i, j] for j in nl))
            if not new:
                return nl
            nl |= new
    return ([x[i] for i in range(nx) if i not in close(xnl, coup)],
            [w[i] for i in range(nw) if i not in close(wnl, wcoup)])


def check_split(core, exp):
    xl, wl = core.xl(), core.wl()
    if set(xl) != set(exp[0]) or set(wl) != set(exp[1]):
        raise Violation('linear/nonlinear split', 'linear parts {} {} '
                        'instead of {} {}'.format(xl, wl, *exp))
    if list(xl) + list(core.xnl()) != list(core.x) or \
            list(wl) + list(core.wnl()) != list(core.w):
        raise Violation('linear/nonlinear split', 'parts do not partition')
    sub = closure(core.subs, zip(
        [sympy.Symbol('g' + str(x), real=True) for x in core.x],
        [sympy.diff(core.H, x) for x in core.x]))
    left = [sympy.diff(core.H, x) for x in xl] + list(core.z[:len(wl)])
    right = []
    for i in range(len(xl)):
        right.append(sum((core.Q[i, j] * xl[j] for j in range(len(xl))),
                         core.bl[i]))
    for i in range(len(wl)):
        right.append(sum(core.Zl[i, j] * wl[j] for j in range(len(wl))))
    if not left:
        return
    syms = list(core.x) + list(core.w) + list(core.p) + list(core.u) + \
        list(core.cu)
    rs = np.random.RandomState(5)
    pts = [list(rs.uniform(-1, 1, len(syms))) for _ in range(2)]
    L = numeric([sympy.sympify(e).xreplace(sub) for e in left], syms, pts)
    R = numeric([sympy.sympify(e).xreplace(sub) for e in right], syms, pts)
    for a, b in zip(L, R):
        if abs(a - b).max() > 1e-8 * (1 + abs(a).max()):
            raise Violation('linear/nonlinear split', 'coefficients Q, bl, '
                            'Zl: {} instead of {}'.format(b, a))


def check_mono(core):
    n0, n1 = core.dims.xl(), core.dims.xl() + core.dims.xnl_mono()
    H = sympy.sympify(core.H).xreplace(closure(core.subs))
    x = list(core.x)
    multi = set(x[n1:])
    got = set(x[n0:n1])
    want = set(a for a in x[n0:] if all(
        sympy.simplify(H.diff(a).diff(b)) == 0 for b in x if b != a))
    if not got <= want | set():
        raise Violation('separable split', '{} instead of {}'.format(
            got, want))
    if want - got:
        raise Violation('separable split', '{} instead of {}'.format(
            got, want))
    return bool(multi)


def run(spec, ctx):
    ref = cores.reference(spec)
    core = cores.build(spec)
    core.force_wnl = [phs.sym(w) for w in spec['force']]
    labels = set()
    dropped = set()
    applied = False
    split = False
    for op in spec['ops']:
        if op[0] == 'move':
            if do_move(core, *op[1:]):
                applied = True
                labels.add('move ' + op[1])
                if op[1] in ('storage', 'dissipative'):
                    split = False
        elif op[0] == 'lnl':
            core.linear_nonlinear()
            check_split(core, linear_sets(core))
            split = True
            applied = True
            labels.add('split')
        elif op[0] == 'mono':
            if not split:
                core.linear_nonlinear()
                split = True
            core.monovar_multivar()
            if check_mono(core):
                labels.add('multivariate')
            applied = True
        elif op[0] == 'reduce':
            lin = linear_sets(core, core.force_wnl)[1]
            want = set(core.w) - set(lin)
            try:
                core.reduce_z()
            except ValueError as e:
                if 'invertible' in str(e):
                    raise Reject('singular reduction')
                raise
            if set(core.w) != want:
                raise Violation('reduce_z', 'w is {} instead of {}'.format(
                    core.w, want))
            dropped |= set(map(str, lin))
            split = False
            if lin:
                applied = True
                labels.add('reduce {}'.format(
                    'all' if not want else 'some'))
                if core.force_wnl:
                    labels.add('reduce with forced')
        elif op[0] == 'connect':
            if core.connectors:
                labels.add('connect')
                applied = True
            core.connect()
        cores.check_same(ref, core, spec, 'dynamics after ' + op[0], dropped)
    return {'nontrivial': applied and cores.moved(ref[0]),
            'labels': sorted(labels)}
