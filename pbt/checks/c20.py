# -*- coding: utf-8 -*-
"""C20: the LaTeX document of a system states this system."""
import os
import re

import numpy as np

from pbt import cores, latexp, nets, phs
from pbt.checks.c09 import reference
from pbt.engine import Violation, Reject
from pbt.phs import mp

PROPERTY = 'C20'
RULE = ('a case is a random system (parameters with numeric or expression '
        'values, observers, pending connectors, split or not in linear and '
        'nonlinear parts), whose document is written to a file and read '
        'back by a reader of LaTeX mathematics; dimensions, constants, '
        'variables, energy, gradient, Hessian, dissipation and its '
        'jacobian, outputs, observers, laws of connectors and every block '
        'of the structure are evaluated at a drawn point and compared with '
        'the specification; non-trivial when the system has a storage or a '
        'dissipation and some entry of the structure is not zero')
CASES = {'quick': 300, 'thorough': 4000}
TIMEOUT = 60
EQ = re.compile(r'\$ (?P<label>[^$=]+?) = (?P<body>[^$]+?)\$')


def gen(d):
    spec = gen_system(d)
    spec['title'] = d.choice([None, 'a title'])
    spec['path'] = d.choice(['absolute', 'name', 'relative',
                             None])
    spec['exists'] = d.bool(1, 3)
    return spec


def gen_system(d):
    if d.bool(1, 3):
        return {'els': nets.gen_net(d, nmax=3, emax=4, mode='tree')}
    spec = cores.gen(d, nx=(0, 2), nw=(0, 2), ny=(0, 2), npar=(0, 1),
                     nobs=(0, 2), connectors=(1, 3), couple=False)
    given = set(k for k, _ in spec['exprs'])
    for kv in spec['params']:
        # values with many digits
        if kv[0][0] == 'k' and kv[0] not in given and d.bool(1, 2):
            kv[1] += d.int(1, 9999) * 1e-9
    spec['split'] = d.bool(1, 3)
    names = phs.names_of(spec)
    spec['at'] = {k: d.signed(1.5, 16) for k in names}
    return spec


def document(core, spec, ctx):
    """text of the document, and folder where it is"""
    folder = os.path.realpath(ctx.newdir())
    cwd = os.getcwd()
    kw = {}
    where = os.path.join(folder, 'doc.tex')
    if spec['path'] == 'absolute':
        kw['path'] = where
    elif spec['path'] == 'name':
        kw['path'] = 'doc.tex'
    elif spec['path'] == 'relative':
        os.mkdir(os.path.join(folder, 'sub'))
        kw['path'] = os.path.join('sub', 'doc.tex')
        where = os.path.join(folder, 'sub', 'doc.tex')
    else:
        where = os.path.join(folder, core.label + '.tex')
    if spec['title'] is not None:
        kw['title'] = spec['title']
    if spec['exists']:
        with open(where, 'w') as f:
            f.write('$ a = b$\n' * 1000)
    os.chdir(folder)
    try:
        core.texwrite(**kw)
    finally:
        os.chdir(cwd)
    if not os.path.exists(where):
        raise Violation('file', 'absent: {}'.format(where))
    with open(where) as f:
        text = f.read()
    if '$ a = b$' in text:
        raise Violation('file', 'not overwritten')
    return text, folder


def equations(text):
    out = {}
    for m in EQ.finditer(text):
        out.setdefault(m.group('label').strip(), m.group('body').strip())
    return out


def close(a, b):
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    return a.shape == b.shape and \
        (not a.size or (abs(a - b) <= 1e-7 * (1 + abs(b).max())).all())


ROW = re.compile(r'\$\\ell_(\d+)\$ & (.*?) & (.*?) & (.*?) & '
                 r'\$\\left\\\{(.*?)\\right\.\$', re.S)
ARG = re.compile(r'^\s*(\w+) & (.*?)\s*\\\\', re.M)


def network(spec, ctx):
    """the document of a network lists its components"""
    els = spec['els']
    if not nets.propagates(els):
        raise Reject('no causality by propagation')
    net, _ = nets.netlist(els, os.path.join(ctx.newdir(), 'sys.net'))
    net.write()
    text, folder = document(net.to_core(), spec, ctx)
    title = spec['title'] or 'sys'
    if title not in text:
        raise Violation('title', title)
    rows = [[int(n), l, c, v.replace('\\#', '#'),
             {k: a.replace('\\#', '#') for k, a in ARG.findall(args)}]
            for n, l, c, v, args in ROW.findall(text)]
    want = []
    for i, e in enumerate(els):
        m = nets.line_of(e)[0]
        want.append([i + 1, m['label'],
                     '{dictionary}.{component}'.format(**m),
                     str(m['nodes']),
                     {k: str(a) for k, a in m['arguments'].items()}])
    if rows != want:
        raise Violation('components', '{} instead of {}'.format(rows, want))
    m = re.search(r'made of (\d+) nodes and (\d+)', text)
    edges = sum(2 if e['c'] in 'TY' else 1 for e in els)
    nodes = set(n for e in els for n in e['n'])
    if not m or (int(m.group(1)), int(m.group(2))) != (len(nodes), edges):
        raise Violation('graph', '{} instead of {} nodes and {} edges'.format(
            m and m.groups(), len(nodes), edges))
    fig = re.search(r'\\includegraphics\[.*?\]\{(.*?)\}', text)
    if not fig or not os.path.exists(os.path.join(folder, fig.group(1))):
        raise Violation('figure', '{}'.format(fig and fig.group(1)))
    return {'nontrivial': True, 'labels': ['network']}


def run(spec, ctx):
    if 'els' in spec:
        return network(spec, ctx)
    core = cores.build(spec)
    if spec['split']:
        core.linear_nonlinear()
    text, _ = document(core, spec, ctx)
    ref = phs.Ref(spec)
    nx, nw, ny = spec['nx'], spec['nw'], spec['ny']
    labels = ['split'] if spec['split'] else []
    title = spec['title'] or 'sys'
    if title not in text:
        raise Violation('title', title)
    eq = equations(text)

    def get(label):
        if label not in eq:
            raise Violation('missing equation', '{} in {}'.format(
                label, sorted(eq)))
        return eq[label]

    def read(f, *a):
        try:
            return f(*a)
        except (latexp.LatexError, KeyError) as e:
            raise Violation('not readable', '{!r}: {!r}'.format(a[0], e))
    # variables
    con = set(k for i, j, _ in spec['connectors'] for k in (i, j))
    x = read(latexp.vector_of_symbols, get(r'\mathbf{x}'))
    w = read(latexp.vector_of_symbols, get(r'\mathbf{w}'))
    y = read(latexp.vector_of_symbols, get(r'\mathbf y'))
    u = read(latexp.vector_of_symbols, get(r'\mathbf{u}'))
    cy = read(latexp.vector_of_symbols, get(r'\mathbf y_c'))
    cu = read(latexp.vector_of_symbols, get(r'\mathbf u_c'))
    dx = read(latexp.vector_of_symbols, get(r'\mathbf{d_x}'))
    p = read(latexp.vector_of_symbols, get(r'\mathbf p'))
    o = read(latexp.vector_of_symbols, get(r'\mathbf o'))
    want = {'x': sorted('x%d' % i for i in range(nx)),
            'w': sorted('w%d' % i for i in range(nw)),
            'y': sorted('y%d' % i for i in range(ny) if i not in con),
            'cy': sorted('y%d' % i for i in con)}
    got = {'x': sorted(x), 'w': sorted(w), 'y': sorted(y), 'cy': sorted(cy)}
    if got != want:
        raise Violation('variables', '{} instead of {}'.format(got, want))
    if [k[1:] for k in u] != [k[1:] for k in y] or \
            [k[1:] for k in cu] != [k[1:] for k in cy] or \
            dx != ['d' + k for k in x] or \
            p != ['p%d' % i for i in range(spec['np'])] or \
            o != [k for k, _ in spec['obs']]:
        raise Violation('variables', '{} {} {} {} {}'.format(u, cu, dx, p, o))
    # dimensions
    for k, n in (('x', nx), ('w', nw), ('y', len(y)), ('p', spec['np']),
                 ('o', len(o)), ('cy', len(cy))):
        if get(r'n_\mathbf{%s}' % k) != str(n):
            raise Violation('dimensions', '{} {}'.format(
                k, get(r'n_\mathbf{%s}' % k)))
    # constants
    values = dict(map(tuple, spec['params']))
    table = re.search(r'value \(SI\)\s*\\\\ \\hline(.*?)\\hline', text, re.S)
    if not table:
        raise Violation('table of constants', 'absent')
    rows = re.findall(r'\$([^$]+)\$ & (.*)\n', table.group(1))
    listed = {read(latexp.symbol, k): v for k, v in rows}
    if sorted(listed) != sorted(values):
        raise Violation('table of constants', '{} instead of {}'.format(
            sorted(listed), sorted(values)))
    for k, v in listed.items():
        a = float(v) if re.match(r'^-?[\d.e+-]+$', v) else \
            read(latexp.value, v, values)
        if abs(a - values[k]) > 1e-12 * (1 + abs(values[k])):
            raise Violation('value of a constant', '{}: {} instead of {}'
                            .format(k, a, values[k]))
    if spec['exprs']:
        labels.append('expressions')
    # the point of evaluation
    env = dict(spec['at'])
    env.update(values)
    menv = {k: mp.mpf(float(v)) for k, v in env.items()}

    def at(name):
        return reference(spec, ref, name, menv)
    xi = [int(k[1:]) for k in x]
    wi = [int(k[1:]) for k in w]
    yi = [int(k[1:]) for k in y]
    ci = [int(k[1:]) for k in cy]

    def scalar(label, wanted, what):
        a = read(latexp.value, get(label), env)
        if not close(a, wanted):
            raise Violation(what, '{}: {} instead of {}'.format(
                label, a, wanted))

    def mat(label, wanted, what):
        wanted = np.array(wanted, dtype=float)
        body = get(label)
        if body == r'\mathrm{Empty}':
            a = np.zeros(wanted.shape) if not wanted.size else None
        elif body == r'\mathrm{Zeros}':
            a = np.zeros(wanted.shape) if wanted.size else None
        else:
            a = np.array(read(latexp.matrix, body, env))
            if wanted.ndim == 1:
                a = a.ravel()
        if a is None or not close(a, wanted):
            raise Violation(what, '{}: {} instead of {}'.format(
                label, body, wanted.tolist()))
    scalar(r'\mathrm H(\mathbf{x})', at('H'), 'energy')
    g, z, out, ob = at('dxH'), at('z'), at('output'), at('o')
    if read(latexp.vector_of_symbols,
            get(r'\nabla\mathrm H(\mathbf{x})')) != ['g' + k for k in x]:
        raise Violation('gradient', get(r'\nabla\mathrm H(\mathbf{x})'))
    for i in xi:
        scalar(r'g_{\mathrm{x%d}}' % i, g[i], 'gradient')
    if read(latexp.vector_of_symbols, get(r'\mathbf z(\mathbf{w})')) != \
            ['z' + k[1:] for k in w]:
        raise Violation('dissipation', get(r'\mathbf z(\mathbf{w})'))
    for i in wi:
        scalar(r'z_{\mathrm{%d}}' % i, z[i], 'dissipation')
    for i in yi:
        scalar(r'y_{\mathrm{%d}}' % i, out[i], 'output')
    for i, k in enumerate(o):
        scalar(r'o_{\mathrm{%s}}' % k[1:], ob[i], 'observer')
    # laws of the connectors, in terms of the outputs
    for i in range(ny):
        env['y%d' % i] = 0.25 + 0.5 * i
    for i, j, e in spec['connectors']:
        a = values[e] if e in values else float(e)
        scalar(r'u_{\mathrm{%d}}' % i, -a * env['y%d' % j], 'connector')
        scalar(r'u_{\mathrm{%d}}' % j, a * env['y%d' % i], 'connector')
        labels.append('connector')
    # derivatives
    hess, jac = at('hessH'), at('jacz')
    mat(r'\triangle\mathrm H(\mathbf x)', hess[np.ix_(xi, xi)], 'Hessian')
    mat(r'\mathcal J_{\mathbf z}(\mathbf w)', jac[np.ix_(wi, wi)],
        'jacobian')
    if spec['split']:
        nl = int(get(r'n_\mathbf{x_{l}}'))
        ml = int(get(r'n_\mathbf{w_{l}}'))
        mat(r'\mathbf{Q}', hess[np.ix_(xi, xi)][:nl, :nl], 'linear storages')
        mat(r'\mathbf{b_l}', np.array([
            g[i] - sum(hess[i][j] * env['x%d' % j] for j in xi[:nl])
            for i in xi[:nl]]), 'linear form')
        mat(r'\mathbf{Z_l}', jac[np.ix_(wi, wi)][:ml, :ml],
            'linear dissipations')
        if nl or ml:
            labels.append('linear part')
    # structure
    order = xi + [nx + i for i in wi] + [nx + nw + i for i in yi + ci]
    part = {'x': slice(0, nx), 'w': slice(nx, nx + nw),
            'y': slice(nx + nw, nx + nw + len(yi)),
            'cy': slice(nx + nw + len(yi), None)}
    for name in 'MJR':
        full = at(name)[np.ix_(order, order)]
        mat(r'\mathbf{%s}' % name, full, 'structure')
        for a in part:
            for b in part:
                mat(r'\mathbf{%s_{%s%s}}' % (name, a, b),
                    full[part[a], part[b]], 'structure')
    return {'nontrivial': nx + nw > 0 and bool(at('M').any()),
            'labels': labels}
