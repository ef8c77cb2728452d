# -*- coding: utf-8 -*-
"""C06: copies, saved files and sums are faithful, and objects derived from a
core are independent from it."""
import copy
import zlib

import sympy

from pbt import cores, phs
from pbt.phs import sym
from pbt.engine import Violation, Reject

PROPERTY = 'C06'
RULE = ('a case is a pool of 1-2 random systems (with connectors, observers, '
        'forced dissipations, splits already applied or not) and a history '
        'of 2-8 operations: copy, save+load (same or new label), sum, '
        'method construction, and mutations of one element of the pool; '
        'after every operation all other elements must be unchanged, and the '
        'derived ones must equal their source; non-trivial when an element '
        'is derived and an element of the pool is mutated afterwards')
CASES = {'quick': 320, 'thorough': 20000}
TIMEOUT = 60

MUT = ['subs', 'newsubs', 'setM', 'setJ', 'storage', 'diss', 'port', 'param',
       'observer', 'move', 'split', 'connect', 'connector', 'substitute',
       'simplify', 'force', 'label', 'alpha', 'poke']


def gen(d):
    n = d.int(1, 2)
    spec = {'pool': []}
    for k in range(n):
        s = cores.gen(d, nx=(0, 2), nw=(0, 2), ny=(0, 2), npar=(0, 1),
                      nobs=(0, 1), connectors=(1, 2))
        s = phs.rename(s, 'ab'[k])
        s['force'] = d.subset(range(s['nw']), 1, 3)
        s['split'] = d.bool(1, 3)
        spec['pool'].append(s)
    ops = []
    for _ in range(d.int(2, 8)):
        k = d.weighted([(3, 'mutate'), (2, 'copy'), (2, 'saveload'),
                        (1, 'sum'), (1, 'method')])
        i = d.int(0, 5)
        if k == 'mutate':
            ops.append([k, i, d.choice(MUT), d.int(0, 4), d.signed(2., 8)])
        elif k == 'saveload':
            ops.append([k, i, d.bool(), d.bool()])
        elif k == 'method':
            ops.append([k, i, d.bool(), d.choice(['discret', 'theta'])])
        elif k == 'sum':
            ops.append([k, i, d.int(0, 5)])
        else:
            ops.append([k, i])
    spec['ops'] = ops
    return spec


def value_of(name, k):
    """a fixed pseudo-random value for a symbol"""
    h = zlib.crc32('{}/{}'.format(name, k).encode())
    return 0.3 + (h % 99991) / 99991.


def dump(e):
    """a comparable form of an object; expressions are represented by their
    free symbols and by values at two points"""
    if isinstance(e, dict):
        # order matters for observers
        return [[str(k), dump(v)] for k, v in e.items()]
    if isinstance(e, (list, tuple)):
        return [dump(v) for v in e]
    if isinstance(e, sympy.MatrixBase):
        return [list(e.shape)] + [dump(v) for v in e]
    if isinstance(e, sympy.Symbol):
        return str(e)
    if isinstance(e, sympy.Basic):
        names = sorted(e.free_symbols, key=str)
        vals = []
        for k in range(2):
            v = e.xreplace({n: sympy.Float(value_of(str(n), k))
                            for n in names})
            vals.append(float(sympy.re(v.evalf())))
        return [[str(n) for n in names], vals]
    if isinstance(e, bool) or e is None or isinstance(e, str):
        return repr(e)
    return [[], [float(e)] * 2]


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-9 * (1 + abs(a)) or (a != a and b != b)
    return a == b


NAMES = ['label', 'x', 'w', 'u', 'y', 'cu', 'cy', 'p', 'H', 'z', 'M', 'Q',
         'Zl', 'bl', '_dxH', 'observers', 'connectors', 'force_wnl']


def snapshot(core):
    out = {n: dump(getattr(core, n)) for n in NAMES}
    out['subs'] = sorted(dump(core.subs), key=lambda e: e[0])
    out['dims'] = [core.dims.xl(), core.dims.wl(), core.dims.xnl_mono(),
                   core.dims.x(), core.dims.w(), core.dims.y(),
                   core.dims.cy(), core.dims.p(), core.dims.o()]
    # views: they must refer to the object itself
    out['J'] = dump(core.J())
    out['Mxw'] = dump(core.Mxw())
    out['xl'] = dump(core.xl())
    out['znl'] = dump(core.znl())
    out['dxH'] = dump(core.dxH())
    return out


def differ(a, b, skip=()):
    return [k for k in a if k not in skip and not same(a[k], b[k])]


def mutate(core, kind, i, v):
    """change a core in place, through its public interface; returns False
    when the mutation does not apply"""
    from pyphs import Core
    n = 'm{}'.format(i)
    if kind == 'subs':
        if not core.subs:
            return False
        k = sorted(core.subs, key=str)[i % len(core.subs)]
        core.subs[k] = v + 17.5
    elif kind == 'newsubs':
        core.subs[sym('new' + n)] = v
    elif kind == 'setM':
        if not core.dims.x():
            return False
        core.M[0, 0] += -abs(v) - 1
    elif kind == 'setJ':
        if not (core.dims.x() and core.dims.y()):
            return False
        core.set_Jxy(core.Jxy() + sympy.ones(core.dims.x(),
                                             core.dims.y()) * (v + 3))
    elif kind == 'storage':
        core.add_storages(sym('x' + n), sym('x' + n)**2)
        core.init_M()
    elif kind == 'diss':
        core.add_dissipations(sym('w' + n), 3 * sym('w' + n))
        core.init_M()
    elif kind == 'port':
        core.add_ports(sym('u' + n), sym('y' + n))
        core.init_M()
    elif kind == 'param':
        core.add_parameters(sym('p' + n))
    elif kind == 'observer':
        core.add_observer({sym('o' + n): sympy.sympify(v + 5)})
    elif kind == 'move':
        if core.dims.x() > 1:
            core.move_storage(0, core.dims.x() - 1)
        elif core.dims.w() > 1:
            core.move_dissipative(0, core.dims.w() - 1)
        else:
            return False
    elif kind == 'split':
        if not core.dims.x() + core.dims.w():
            return False
        core.linear_nonlinear()
    elif kind == 'connect':
        if not core.connectors:
            return False
        core.connect()
    elif kind == 'connector':
        if core.dims.y() < 2:
            return False
        core.add_connector((0, 1), v + 4)
    elif kind == 'substitute':
        if not core.subs:
            return False
        core.substitute(selfall=True)
    elif kind == 'simplify':
        core.simplify()
    elif kind == 'force':
        if not core.w:
            return False
        core.force_wnl.append(core.w[i % len(core.w)])
    elif kind == 'label':
        core.label = core.label + n
    elif kind == 'alpha':
        if not core.connectors:
            return False
        core.connectors[0]['alpha'] = sympy.sympify(v + 9)
    elif kind == 'poke':
        # in-place modification of a list
        for name in ('x', 'z', 'u', 'p', 'cu'):
            lst = getattr(core, name)
            if lst:
                lst[i % len(lst)] = sym('poke')
                break
        else:
            return False
    return True


def run(spec, ctx):
    from pyphs import Core
    folder = ctx.newdir()
    pool, derived = [], []
    for k, s in enumerate(spec['pool']):
        core = cores.build(s, 'sys' + s['tag'])
        core.force_wnl = [core.w[i] for i in s['force']]
        if s['split']:
            core.linear_nonlinear()
            core.monovar_multivar()
        pool.append(core)
    snaps = [snapshot(c) for c in pool]
    labels = set()
    poked = set()
    nontrivial = False

    def check(what, except_=None):
        for k, c in enumerate(pool):
            if k == except_:
                continue
            bad = differ(snaps[k], snapshot(c))
            if bad:
                raise Violation('{} changes another object'.format(what),
                                '{} of element {}'.format(bad, k))

    def add(core, src, what, skip=()):
        bad = differ(snaps[src], snapshot(core), skip)
        if bad:
            raise Violation('{} is not faithful'.format(what), '; '.join(
                '{}: {} instead of {}'.format(
                    b, snapshot(core)[b], snaps[src][b]) for b in bad)[:1500])
        pool.append(core)
        snaps.append(snapshot(core))
        derived.append(len(pool) - 1)
        labels.add(what)
    for op in spec['ops']:
        i = op[1] % len(pool)
        core = pool[i]
        if op[0] == 'mutate':
            if i in poked and op[2] not in ('subs', 'label', 'newsubs'):
                continue
            try:
                if not mutate(core, op[2], *op[3:]):
                    continue
            except Exception as e:
                if op[2] in ('connect', 'connector', 'split'):
                    raise Reject('mutation {}: {}'.format(op[2], e))
                raise
            if op[2] == 'poke':
                poked.add(i)
            check(op[2], i)
            snaps[i] = snapshot(core)
            labels.add(op[2])
            nontrivial = nontrivial or bool(derived)
        elif op[0] == 'copy':
            new = copy.copy(core)
            check('copy')
            add(new, i, 'copy')
            if i in poked:
                poked.add(len(pool) - 1)
        elif op[0] == 'saveload':
            label = 'other' if op[2] else None
            core.save(folder, label)
            check('save')
            new = Core(label or core.label)
            if op[3]:
                # loading overwrites whatever the target contained
                new.add_storages(sym('old'), sym('old')**2)
                new.subs[sym('oldsub')] = 1.
            new.load(folder, None if op[3] else (label or core.label))
            check('load')
            if new.label != (label or core.label):
                raise Violation('load', 'label {}'.format(new.label))
            add(new, i, 'saveload', ('label',))
            if i in poked:
                poked.add(len(pool) - 1)
        elif op[0] == 'sum':
            j = op[2] % len(pool)
            a, b = pool[i], pool[j]
            shared = set(map(str, a.allsymbs())) & \
                set(map(str, b.allsymbs()))
            if shared or i in poked or j in poked or set(a.observers) & set(
                    b.observers) or i == j:
                continue
            if a.M.shape[0] != a.dims.tot() or b.M.shape[0] != b.dims.tot():
                continue
            new = a + b
            check('sum')
            for name in ('x', 'w', 'u', 'y', 'cu', 'cy', 'p', 'z',
                         'connectors', 'force_wnl'):
                want = dump(list(getattr(a, name)) + list(getattr(b, name)))
                if not same(dump(getattr(new, name)), want):
                    raise Violation('sum', '{} is {} instead of {}'.format(
                        name, getattr(new, name), want))
            for name in ('subs', 'observers'):
                want = sorted(dump(getattr(a, name)) +
                              dump(getattr(b, name)), key=lambda e: e[0])
                if not same(sorted(dump(getattr(new, name)),
                                   key=lambda e: e[0]), want):
                    raise Violation('sum', name)
            pool.append(new)
            snaps.append(snapshot(new))
            derived.append(len(pool) - 1)
            labels.add('sum')
        elif op[0] == 'method':
            if i in poked or core.cy or core.M.shape[0] != core.dims.tot():
                continue
            m = core.to_method(config={'split': op[2], 'grad': op[3]})
            check('to_method')
            # changing the method does not change the core
            for k in list(m.subs):
                m.subs[k] = 123.
            m.subs[sym('added')] = 1.
            m.observers[sym('oadded')] = sympy.sympify(1)
            if m.x:
                m.x.reverse()
            check('modifying a method')
            labels.add('method')
            nontrivial = True
    return {'nontrivial': nontrivial, 'labels': sorted(labels)}
