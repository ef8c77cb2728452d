# -*- coding: utf-8 -*-
"""C07: the structure of a core is what its mutators were given."""
import numpy as np
import sympy

from pbt import phs
from pbt.phs import sym
from pbt.engine import Violation, Reject

PROPERTY = 'C07'
RULE = ('a case is a system filled by a history of component additions '
        '(scalars or lists), then 1-8 block mutations of J, R or M (any pair '
        'of blocks, in the partition by kind or by linear/nonlinear parts; '
        'lists, arrays or matrices; numbers or symbols), interleaved with '
        'splits and further additions; after each step every block accessor is compared with a '
        'model matrix; non-trivial when at least two mutations touch non-'
        'empty blocks')
CASES = {'quick': 1200, 'thorough': 40000}

KIND = ['x', 'w', 'y', 'cy']
LNL = ['xl', 'xnl', 'wl', 'wnl', 'y', 'cy']


def gen(d):
    adds = []
    cnt = {'x': 0, 'w': 0, 'y': 0, 'p': 0}
    for _ in range(d.int(2, 6)):
        k = d.choice(['x', 'w', 'y', 'p'])
        n = d.weighted([(4, 0), (2, 1), (2, 2)])  # 0: a scalar
        m = max(n, 1)
        adds.append([k, n, cnt[k], [d.bool() for _ in range(m)]])
        cnt[k] += m
    ncon = 1 if cnt['y'] >= 2 and d.bool(1, 3) else 0
    con = d.sample(range(cnt['y']), 2) if ncon else []
    ops = []
    for _ in range(d.int(1, 8)):
        k = d.weighted([(8, 'set'), (1, 'split'), (1, 'init'), (1, 'bad'),
                        (2, 'add')])
        if k == 'set':
            part = d.choice(['J', 'R', 'M'])
            fam = d.choice(['kind', 'lnl', 'mixed'])
            again = [o for o in ops if o[0] == 'set']
            if again and d.bool(1, 4):
                # the same block again
                part, fam, i, j = d.choice(again)[1:5]
            else:
                i, j = d.int(0, 5), d.int(0, 5)
            zero = d.bool(1, 5)
            ops.append([k, part, fam, i, j,
                        d.choice(['list', 'array', 'matrix', 'sparse']),
                        [0. if zero else d.signed(3., 4) for _ in range(25)],
                        d.bool(1, 3)])
        elif k == 'bad':
            ops.append([k, d.choice(['w', 'y'])])
        elif k == 'add':
            c = d.choice(['x', 'w', 'y'])
            n = d.weighted([(2, 0), (1, 1), (1, 2)])
            ops.append([k, c, n, cnt[c], [d.bool() for _ in range(max(n, 1))]])
            cnt[c] += max(n, 1)
        else:
            ops.append([k])
    return {'adds': adds, 'con': con, 'ops': ops, 'early': d.bool(1, 4)}


def model_blocks(model, sizes):
    """slices of the blocks, for both partitions"""
    x, w, y, cy, xl, wl = sizes
    pos = {}
    o = 0
    for n, s in (('x', x), ('w', w), ('y', y), ('cy', cy)):
        pos[n] = (o, o + s)
        o += s
    pos['xl'] = (0, xl)
    pos['xnl'] = (xl, x)
    pos['wl'] = (x, x + wl)
    pos['wnl'] = (x + wl, x + w)
    return pos


def eq(a, b):
    return all(sympy.expand(u - v) == 0 for u, v in zip(a, b))


def check(core, model, sizes, what):
    pos = model_blocks(model, sizes)
    J = (model - model.T) / 2
    R = -(model + model.T) / 2
    full = {'M': model, 'J': J, 'R': R}
    n = model.shape[0]
    for part in 'MJR':
        got = core.M if part == 'M' else getattr(core, part)()
        if got.shape != (n, n) or not eq(list(got), list(full[part])):
            raise Violation('structure', '{} after {}: {} instead of {}'
                            .format(part, what, list(got),
                                    list(full[part])))
        for a in pos:
            for b in pos:
                blk = getattr(core, part + a + b)()
                want = full[part][slice(*pos[a]), slice(*pos[b])]
                if blk.shape != want.shape or not eq(list(blk), list(want)):
                    raise Violation('block', '{}{}{} after {}: {} instead of '
                                    '{}'.format(part, a, b, what, blk, want))


def run(spec, ctx):
    from pyphs import Core
    core = Core('acc')
    want = {k: [] for k in ('x', 'w', 'u', 'y', 'p', 'z')}
    total = [sympy.sympify(0)]
    lin = {}
    core.subs[sym('p0')] = 1.
    labels = set()

    def add(k, n, first, ql):
        idx = list(range(first, first + max(n, 1)))
        s = [sym('{}{}'.format(k, i)) for i in idx]
        for a, q in zip(s, ql):
            lin[a] = q
        if k == 'x':
            e = sum((a**2 if q else a**4 + a**2) for a, q in zip(s, ql))
            core.add_storages(s[0] if n == 0 else list(s), e)
            total[0] = total[0] + e
            want['x'] += s
        elif k == 'w':
            z = [(2 * a if q else sympy.tanh(a)) for a, q in zip(s, ql)]
            core.add_dissipations(s[0] if n == 0 else list(s),
                                  z[0] if n == 0 else list(z))
            want['w'] += s
            want['z'] += z
        elif k == 'y':
            u = [sym('u{}'.format(i)) for i in idx]
            core.add_ports(u[0] if n == 0 else list(u),
                           s[0] if n == 0 else list(s))
            want['u'] += u
            want['y'] += s
        else:
            core.add_parameters(s[0] if n == 0 else list(s))
            want['p'] += s
        labels.add('scalar' if n == 0 else 'list')

    for a in spec['adds']:
        add(*a)
    H = total[0]
    for k, v in want.items():
        if list(getattr(core, k)) != v:
            raise Violation('components', '{} is {} instead of {}'.format(
                k, getattr(core, k), v))
    if sympy.expand(core.H - H) != 0:
        raise Violation('components', 'H is {} instead of {}'.format(
            core.H, H))
    if (sym('p0') in core.subs) == (sym('p0') in want['p']):
        raise Violation('parameters', 'a parameter is not a substitution')
    x, w, y = len(want['x']), len(want['w']), len(want['y'])
    cy = 0
    nt = x + w + y
    model = sympy.zeros(nt, nt)
    if spec['con']:
        if not spec['early']:
            core.init_M()
        i, j = spec['con']
        core.add_connector((i, j), 1.)
        if set(core.cy) != {want['y'][i], want['y'][j]}:
            raise Violation('connector', str(core.cy))
        cy, y = 2, y - 2
    if tuple(core.M.shape) not in ((0, 0), (nt, nt)):
        raise Violation('structure', 'shape {}'.format(core.M.shape))
    if nt == 0:
        raise Reject('nothing')
    xl = wl = 0
    nset = 0
    if core.M.shape == (nt, nt):
        check(core, model, (x, w, y, cy, 0, 0), 'init')
    for op in spec['ops']:
        sizes = (x, w, y, cy, xl, wl)
        pos = model_blocks(model, sizes)
        if op[0] == 'split':
            if core.M.shape[0] != nt:
                core.init_M()
            before = list(core.x) + list(core.w)
            core.linear_nonlinear()
            after = list(core.x) + list(core.w)
            perm = [before.index(a) for a in after] + list(
                range(x + w, nt))
            model = model.extract(perm, perm)
            xl = sum(lin[a] for a in want['x'])
            wl = sum(lin[a] for a in want['w'])
            sizes = (x, w, y, cy, xl, wl)
            labels.add('split')
        elif op[0] == 'add':
            # new components: new rows and columns at the end of the block
            defined = core.M.shape[0] == nt
            add(*op[1:])
            m = max(op[2], 1)
            end = pos[op[1]][1]
            keep = [i if i < end else i + m for i in range(nt)]
            old, nt = model, nt + m
            model = sympy.zeros(nt, nt)
            for i, a in enumerate(keep):
                for j, b in enumerate(keep):
                    model[a, b] = old[i, j]
            x += m if op[1] == 'x' else 0
            w += m if op[1] == 'w' else 0
            y += m if op[1] == 'y' else 0
            sizes = (x, w, y, cy, xl, wl)
            if defined:
                labels.add('added to a structure')
                check(core, model, sizes, op)
        elif op[0] == 'init':
            core.init_M()
            model = sympy.zeros(nt, nt)
        elif op[0] == 'bad':
            # refused, without effect
            s = [sym('bad0'), sym('bad1')]
            f = core.add_dissipations if op[1] == 'w' else core.add_ports
            try:
                f(list(s), [sym('bad2')])
            except Exception:
                pass
            else:
                raise Violation('components', 'accepted vectors of different '
                                'lengths')
            labels.add('refused')
            if core.M.shape[0] != nt:
                continue
        else:
            _, part, fam, ia, ib, typ, vals, symb = op
            la = {'kind': KIND, 'lnl': LNL, 'mixed': KIND}[fam]
            lb = {'kind': KIND, 'lnl': LNL, 'mixed': LNL}[fam]
            pairs = [(a, b) for a in la for b in lb
                     if pos[a][0] < pos[a][1] and pos[b][0] < pos[b][1] and
                     (a == b or pos[a][1] <= pos[b][0] or
                      pos[b][1] <= pos[a][0])]
            if not pairs:
                continue
            a, b = pairs[(ia * 6 + ib) % len(pairs)]
            ra, rb = range(*pos[a]), range(*pos[b])
            if not len(ra) or not len(rb):
                continue
            m = sympy.Matrix(len(ra), len(rb),
                             [sympy.Float(v) for v in
                              (vals * 3)[:len(ra) * len(rb)]])
            if a == b and part == 'J':
                m = m - m.T
            if a == b and part == 'R':
                m = m + m.T
            if symb:
                # a symbol off the diagonal
                if a != b:
                    m[0, 0] = sym('k0') * m[0, 0] + sym('k1')
                    labels.add('symbolic')
                    typ = 'matrix' if typ == 'array' else typ
            if typ == 'list':
                arg = m.tolist()
            elif typ == 'array':
                arg = np.array(m.tolist(), dtype=float)
            elif typ == 'sparse':
                arg = sympy.SparseMatrix(m)
            else:
                arg = sympy.Matrix(m)
            getattr(core, 'set_' + part + a + b)(arg)
            Jm, Rm = (model - model.T) / 2, -(model + model.T) / 2
            for p, i in enumerate(ra):
                for q, j in enumerate(rb):
                    if part == 'M':
                        model[i, j] = m[p, q]
                    elif part == 'J':
                        model[i, j] = m[p, q] - Rm[i, j]
                        model[j, i] = -m[p, q] - Rm[j, i]
                    else:
                        model[i, j] = Jm[i, j] - m[p, q]
                        model[j, i] = Jm[j, i] - m[p, q]
            nset += 1
            labels.add('set ' + part)
            labels.add(typ)
            if a == b:
                labels.add('diagonal block')
        if core.M.shape[0] == nt:
            check(core, model, sizes, op[:5])
    if sympy.expand(core.H - total[0]) != 0:
        raise Violation('components', 'H is {} instead of {}'.format(
            core.H, total[0]))
    for k, v in (('x', want['x']), ('w', want['w'])):
        if set(getattr(core, k)) != set(v):
            raise Violation('components', '{} is {} instead of {}'.format(
                k, getattr(core, k), v))
    return {'nontrivial': nset > 1, 'labels': sorted(labels)}
