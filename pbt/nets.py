# -*- coding: utf-8 -*-
"""Random electrical-like networks and an independent nodal-analysis oracle.

An element is a dict {'c': kind, 'l': label, 'n': [nodes], 'v': value}; kinds:
C, L, R (resistor), G (conductance-like: not used), V, I (sources), T
(transformer), Y (gyrator).
"""
import os

import numpy as np

from pbt.engine import Reject

DATUM = '#'

# per dictionary: kind -> (component, arguments from the normalised value)
# normalised laws (e: effort, f: flux, both from the first node to the second)
#   R: e = v f    C: f = v de/dt    L: e = v df/dt    V: e = u    I: f = u
DICS = {
    'electronics': {
        'R': ('resistor', lambda v: ('R', v)),
        'C': ('capacitor', lambda v: ('C', v)),
        'L': ('inductor', lambda v: ('L', v)),
        'V': ('source', lambda v: ('type', 'voltage')),
        'I': ('source', lambda v: ('type', 'current'))},
    'mechanics': {
        'R': ('damper', lambda v: ('A', 1. / v)),
        'C': ('mass', lambda v: ('M', v)),
        'L': ('stiffness', lambda v: ('K', 1. / v)),
        'V': ('source', lambda v: ('type', 'velocity')),
        'I': ('source', lambda v: ('type', 'force'))},
    'mechanics_dual': {
        'R': ('damper', lambda v: ('A', v)),
        'C': ('stiffness', lambda v: ('K', 1. / v)),
        'L': ('mass', lambda v: ('M', v)),
        'V': ('source', lambda v: ('type', 'force')),
        'I': ('source', lambda v: ('type', 'velocity'))},
    'magnetics': {
        'R': ('resistor', lambda v: ('R', v)),
        'C': ('capacitor', lambda v: ('C', v)),
        'V': ('source', lambda v: ('type', 'mmf')),
        'I': ('source', lambda v: ('type', 'fluxvar'))},
    'connectors': {
        'T': ('transformer', lambda v: ('alpha', v)),
        'Y': ('gyrator', lambda v: ('alpha', v))},
}


def line_of(e):
    """The netlist line (a dict) of an element, and the values of the
    parameters that stay symbolic."""
    dic = 'connectors' if e['c'] in 'TY' else e.get('d', 'electronics')
    comp, arg = DICS[dic][e['c']]
    key, val = arg(e['v'])
    values = {}
    if not isinstance(val, str):
        form = e.get('a', 'num')
        name = 'q' + e['l']
        if form == 'named':
            val = (name, val)
        elif form == 'param':
            values[name] = val
            val = name
    nodes = list(e['n'])
    if (dic, comp) == ('mechanics', 'mass'):
        # one terminal: the edge goes from the datum to the node
        assert nodes[0] == DATUM
        nodes = nodes[1:]
    return {'dictionary': dic, 'component': comp, 'label': e['l'],
            'nodes': tuple(nodes), 'arguments': {key: val}}, values


def netlist(elements, path):
    from pyphs import Netlist
    net = Netlist(path, clear=True)
    values = {}
    for e in elements:
        line, vals = line_of(e)
        values.update(vals)
        net.add_line(line)
    return net, values


def affine_component(e):
    """An element whose law has an offset 'o' (so that its orientation
    matters), or whose control is forced ('ctrl')."""
    import sympy
    from pyphs.dictionary.edges import DissipativeNonLinear, StorageNonLinear
    v, o, label = float(e['v']), float(e.get('o', 0.)), e['l']
    sym = sympy.Symbol(('w' if e['c'] == 'R' else 'x') + label, real=True)
    data = {'label': sym, 'link': None}
    edge = (e['n'][0], e['n'][1], data)
    if e['c'] == 'R':
        fc, ec = v*sym + o, (sym - o)/v
        ctrl = e.get('ctrl', '?')
        data.update({'type': 'dissipative', 'ctrl': ctrl,
                     'z': {'e_ctrl': ec, 'f_ctrl': fc}})
        return DissipativeNonLinear(label, [edge], [sym],
                                    [ec if ctrl == 'e' else fc])
    data.update({'type': 'storage', 'ctrl': 'f' if e['c'] == 'C' else 'e'})
    return StorageNonLinear(label, [edge], [sym], sym**2/(2*v) + o*sym)


def graph_by_sum(elements, label='net'):
    """The same network, as a sum of components."""
    import pyphs.dictionary as dictionary
    from pyphs import Graph
    g = Graph(label=label)
    values = {}
    for e in elements:
        if 'o' in e or 'ctrl' in e:
            g += affine_component(e)
            continue
        line, vals = line_of(e)
        values.update(vals)
        comp = getattr(getattr(dictionary, line['dictionary']),
                       line['component'].capitalize())
        g += comp(line['label'], line['nodes'], **line['arguments'])
    return g, values


def edges_of(elements):
    """[(kind, label, n1, n2, value, side)]"""
    out = []
    for e in elements:
        if e['c'] in 'TY':
            out.append((e['c'], e['l'], e['n'][0], e['n'][1], e['v'], 0))
            out.append((e['c'], e['l'], e['n'][2], e['n'][3], e['v'], 1))
        else:
            out.append((e['c'], e['l'], e['n'][0], e['n'][1], e['v'], None))
    return out


def mna(elements, s):
    """Port admittance-like response: dict (out label, in label) -> complex,
    or None when the network equations are singular."""
    edges = edges_of(elements)
    nodes = sorted(set(n for e in edges for n in e[2:4]) - {DATUM}, key=str)
    idx = {n: i for i, n in enumerate(nodes)}
    nn, ne = len(nodes), len(edges)
    srcs = [e[1] for e in edges if e[0] in 'VI']
    # unknowns: potentials, fluxes
    # the offsets of the laws are a constant input ''
    off = {e['l']: e['o'] for e in elements if 'o' in e}
    if off:
        srcs = srcs + ['']
    A = np.zeros((nn + ne, nn + ne), complex)
    B = np.zeros((nn + ne, len(srcs)), complex)
    for k, (c, l, n1, n2, v, side) in enumerate(edges):
        if n1 in idx:
            A[idx[n1], nn + k] += 1
        if n2 in idx:
            A[idx[n2], nn + k] -= 1

    def effort(row, k, coef):
        n1, n2 = edges[k][2:4]
        if n1 in idx:
            A[row, idx[n1]] += coef
        if n2 in idx:
            A[row, idx[n2]] -= coef
    for k, (c, l, n1, n2, v, side) in enumerate(edges):
        row = nn + k
        if c == 'R':
            effort(row, k, 1.)
            A[row, nn + k] -= v
            if l in off:
                B[row, -1] = off[l] / s
        elif c == 'C':
            effort(row, k, s * v)
            A[row, nn + k] -= 1
            if l in off:
                B[row, -1] = off[l] * v
        elif c == 'L':
            effort(row, k, 1.)
            A[row, nn + k] -= s * v
            if l in off:
                B[row, -1] = -off[l] * v
        elif c == 'V':
            effort(row, k, 1.)
            B[row, srcs.index(l)] = 1
        elif c == 'I':
            A[row, nn + k] = 1
            B[row, srcs.index(l)] = 1
        elif c == 'Y':
            other = k + 1 if side == 0 else k - 1
            # e_A = -alpha f_B ; e_B = alpha f_A
            effort(row, k, 1.)
            A[row, nn + other] = v if side == 0 else -v
        elif c == 'T':
            # e_A = -alpha e_B ; f_B = alpha f_A
            if side == 0:
                effort(row, k, 1.)
                effort(row, k + 1, v)
            else:
                A[row, nn + k] = 1
                A[row, nn + k - 1] = -v
    if np.linalg.cond(A) > 1e9:
        return None
    X = np.linalg.solve(A, B)
    out = {}
    for k, (c, l, n1, n2, v, side) in enumerate(edges):
        if c not in 'VI':
            continue
        for j, m in enumerate(srcs):
            if c == 'V':
                val = X[nn + k, j]
            else:
                val = (X[idx[n1], j] if n1 in idx else 0) - \
                    (X[idx[n2], j] if n2 in idx else 0)
            out[(l, m)] = complex(val)
    return out


def core_numbers(core, values=None, offsets=False):
    """Numeric M, Q, Z of a linear core, and the values of the laws at 0."""
    import sympy
    sub = dict(core.subs)
    sub.update({s: (values or {})[str(s)] for s in core.p})
    for _ in range(3):
        sub = {k: (v.subs(sub) if isinstance(v, sympy.Basic) else v)
               for k, v in sub.items()}

    def num(e):
        v = sympy.sympify(e).subs(sub)
        if not v.is_finite:
            # two connectors facing each other, singular for these ratios
            raise Reject('degenerate connection')
        return float(v)
    nx, nw, ny = len(core.x), len(core.w), len(core.y)
    n = nx + nw + ny
    M = np.array([[num(core.M[i, j]) for j in range(n)] for i in range(n)]) \
        .reshape((n, n))
    H = sympy.sympify(core.H).subs(sub)
    Q = np.array([[float(sympy.diff(H, a, b)) for b in core.x]
                  for a in core.x]).reshape((nx, nx))
    Z = np.array([[float(sympy.diff(sympy.sympify(zi).subs(sub), w))
                   for w in core.w] for zi in core.z]).reshape((nw, nw))
    if offsets:
        zero = {a: 0 for a in list(core.x) + list(core.w)}
        laws = [sympy.diff(H, a) for a in core.x] + \
            [sympy.sympify(zi).subs(sub) for zi in core.z]
        return M, Q, Z, np.array([float(e.subs(zero)) for e in laws])
    return M, Q, Z


def core_response(core, s, values=None, offsets=False):
    M, Q, Z = core_numbers(core, values)
    nx, nw, ny = len(core.x), len(core.w), len(core.y)
    n = nx + nw
    L = np.zeros((n, n), complex)
    L[:nx, :nx] = Q
    L[nx:, nx:] = Z
    E = np.diag([s] * nx + [1.] * nw).astype(complex) if n else \
        np.zeros((0, 0), complex)
    S = E - M[:n, :n].dot(L)
    G = np.linalg.solve(S, M[:n, n:]) if n else np.zeros((0, ny))
    Y = M[n:, :n].dot(L).dot(G) + M[n:, n:]
    # outputs and inputs by name: each port pairs u<label> with y<label>
    outs = [str(y)[1:] for y in core.y]
    ins = [str(u)[1:] for u in core.u]
    if offsets:
        l0 = core_numbers(core, values, True)[3] / s
        g = np.linalg.solve(S, M[:n, :n].dot(l0)) if n else np.zeros(0)
        y = M[n:, :n].dot(L.dot(g) + l0)
        Y = np.column_stack([Y, y])
        ins.append('')
    return {(outs[i], ins[j]): complex(Y[i, j])
            for i in range(ny) for j in range(len(ins))}


def realizable(elements):
    """Is there an assignment of efforts/fluxes compatible with the fixed
    causalities?  (no connectors) C and V impose their effort, L, I and D
    their flux: C+V must be a forest, and R+C+V must connect everything."""
    edges = edges_of(elements)
    nodes = set(n for e in edges for n in e[2:4]) | {DATUM}

    def comps(kinds):
        parent = {n: n for n in nodes}

        def find(a):
            while parent[a] != a:
                a = parent[a]
            return a
        cyc = False
        for c, l, n1, n2, v, side in edges:
            if c in kinds:
                a, b = find(n1), find(n2)
                if a == b:
                    cyc = True
                parent[a] = b
        return cyc, len(set(find(n) for n in nodes))
    return not comps('CV')[0] and comps('CVR')[1] == 1


def propagates(elements):
    """Is the causality decided by elementary propagation alone?  (an element
    with no free end is effort-controlled; an effort-imposing element with a
    single free end, or the only candidate of a node, imposes its potential)
    """
    edges = edges_of(elements)
    if any(e[0] in 'TY' for e in edges) or any('ctrl' in e for e in elements):
        return False
    nodes = set(n for e in edges for n in e[2:4]) - {DATUM}
    cand = {}
    for k, e in enumerate(edges):
        if e[0] in 'CVR':
            cand[k] = set(e[2:4]) - {DATUM}
    done = set()
    imposed = {}
    change = True
    while change:
        change = False
        for k in list(cand):
            if not cand[k]:
                if edges[k][0] in 'CV':
                    return False
                del cand[k]
                change = True
        for n in sorted(nodes - done, key=str):
            inc = [k for k in cand if n in cand[k]]
            if not inc:
                return False
            if len(inc) == 1:
                k = inc[0]
            else:
                one = [k for k in inc if cand[k] == {n} and
                       edges[k][0] in 'CV']
                if len(one) > 1:
                    return False
                if not one:
                    continue
                k = one[0]
            imposed[n] = k
            done.add(n)
            del cand[k]
            for q in cand:
                cand[q].discard(n)
            change = True
            break
    return done == nodes and not cand


# --------------------------------------------------------------------------
# generators

def gen_net(d, nmax=5, emax=7, connectors=True, mode=None, dics=True,
            forms=True, sources=2, kinds='RCLVI'):
    """A connected network.  In the 'tree' mode, C and V are only put on a
    spanning tree and L and I only on the other branches, so that a causality
    assignment exists; in the 'free' mode, anything goes."""
    nn = d.int(1, nmax)
    style = d.weighted([(4, 'str'), (1, 'int'), (1, 'mixed')])
    nodes = [DATUM] + [i if style == 'int' or (style == 'mixed' and i % 2)
                       else 'n{}'.format(i) for i in range(nn)]
    lab = d.weighted([(6, '{}{}'), (1, '{}_out_{}'), (1, '{}serial{}')])
    mode = mode or d.weighted([(4, 'tree'), (1, 'free')])
    slots = []
    for i in range(1, len(nodes)):
        slots.append(([nodes[i], nodes[d.int(0, i - 1)]], 'tree'))
    ncot = d.int(1, max(1, emax - len(slots)))
    for _ in range(ncot):
        slots.append((d.sample(nodes, 2), 'cotree'))
    dic = d.weighted([(4, 'electronics'), (1, 'mechanics'),
                      (1, 'mechanics_dual'), (1, 'magnetics')]) \
        if dics else 'electronics'
    elements = []
    conns = []
    k = 0
    for n, where in slots:
        if d.bool():
            n = n[::-1]
        if mode == 'free':
            opts = 'RCLVI'
        else:
            opts = 'RCV' if where == 'tree' else 'RLI'
        opts = [c for c in opts if c in DICS[dic] and c in kinds]
        c = d.choice(opts)
        if connectors and len(conns) < 3 and d.bool(1, 6):
            c = d.choice('TY')
        e = {'c': c, 'n': n, 'v': d.num(0.25, 2., 8), 'w': where}
        if c in 'TY':
            conns.append(e)
            continue
        if dic != 'electronics':
            e['d'] = dic
            if dic == 'mechanics' and c == 'C':
                # a mass is connected to the datum
                if DATUM not in n:
                    e['c'] = c = 'R' if mode == 'tree' else 'L'
                elif n[0] != DATUM:
                    e['n'] = n[::-1]
        e['l'] = lab.format(c, k)
        k += 1
        if forms and c in 'RCL':
            a = d.weighted([(4, 'num'), (2, 'named'), (1, 'param')])
            if a != 'num':
                e['a'] = a
        elements.append(e)
    # pair the connector branches
    while conns:
        a = conns.pop()
        b = conns.pop() if conns else {
            'n': d.sample(nodes, 2) if len(nodes) > 1 else a['n'],
            'w': 'cotree'}
        v = d.choice([0.5, 2., -1.5, 1.])
        c = a['c']
        if mode == 'tree':
            c = 'Y' if a['w'] == b['w'] else 'T'
        e = {'c': c, 'n': a['n'] + b['n'], 'v': v, 'l': lab.format(c, k)}
        k += 1
        if forms and d.bool(1, 3):
            e['a'] = 'named'
        elements.append(e)
    # at least some sources, so that there is something to observe
    have = sum(e['c'] in 'VI' for e in elements)
    while have < sources:
        e = {'c': 'I', 'n': d.sample(nodes, 2), 'v': 1., 'l': 'I{}'.format(k)}
        if dic != 'electronics':
            e['d'] = dic
        elements.append(e)
        k += 1
        have += 1
    for e in elements:
        e.pop('w', None)
    return d.shuffle(elements)
