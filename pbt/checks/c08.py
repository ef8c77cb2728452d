# -*- coding: utf-8 -*-
"""C08: substitutions and simplifications preserve values."""
import sympy

from pbt import cores, phs
from pbt.phs import sym
from pbt.coreeval import Field, compare
from pbt.engine import Violation, Reject

PROPERTY = 'C08'
RULE = ('a case is a random system with literal, numeric and (chained) '
        'expression parameters, connectors and observers, and a history of '
        '1-5 operations among substitution of given parameters (by numbers, '
        'symbols, expressions), renaming of variables, self-substitution of '
        'expressions or of everything, with or without simplification, '
        'simplification, removal of inverses; values are compared at 2 '
        'points after each; non-trivial when the system has parameters or '
        'renamed variables, and a non-zero value is compared')
CASES = {'quick': 600, 'thorough': 20000}
TIMEOUT = 60


def gen(d):
    spec = cores.gen(d, nx=(0, 2), nw=(0, 2), ny=(0, 2), npar=(0, 1),
                     nobs=(0, 1), connectors=(1, 3), gsymb=True)
    for o in spec['obs']:
        o[1] = o[1].replace('dx', 'x')
    spec['points'] = cores.gen_points(d, spec)
    # inverses of parameters, as in the dictionary (1/C)
    spec['inv'] = []
    if spec['nx'] and d.bool(1, 2):
        for i in range(d.int(1, 2)):
            n = 'k{}'.format(len(spec['params']) + 20)
            spec['params'].append([n, d.num(0.5, 2., 8)])
            spec['inv'].append([d.int(0, spec['nx'] - 1), n, d.int(1, 2)])
    for i, n, p in spec['inv']:
        spec['H'].append('x{}**2/(2*{}**{})'.format(i, n, p))
    ops = []
    for _ in range(d.int(1, 5)):
        k = d.weighted([(3, 'subs'), (2, 'selfexprs'), (2, 'selfall'),
                        (1, 'simplify'), (1, 'subsinverse'), (1, 'rename')])
        if k == 'subs':
            its = []
            for _ in range(d.int(1, 2)):
                its.append([d.int(0, 9), d.choice(['num', 'symb', 'expr']),
                            d.num(0.5, 2., 8)])
            ops.append([k, its, d.bool(1, 4)])
        elif k in ('selfexprs', 'selfall'):
            ops.append([k, d.bool(1, 4)])
        elif k == 'rename':
            ops.append([k, d.choice(['x', 'w', 'u', 'p']), d.int(0, 3)])
        else:
            ops.append([k])
    spec['ops'] = ops
    return spec


def run(spec, ctx):
    core = cores.build(spec)
    over = {}       # values of parameters that were substituted explicitly
    names = {}      # renamed variables
    labels = set()
    fresh = [0]
    useful = bool(spec['params'])

    def reference():
        c = cores.build(spec)
        for k, v in over.items():
            c.subs[sym(k)] = v
        f = Field(c)
        return [f.eval(pt) for pt in spec['points']]

    def renamed(k):
        for a, b in names.items():
            if k == a:
                return b
            if k == 'dt' + a:
                return 'dt' + b
        return k
    ref = reference()
    for op in spec['ops']:
        if op[0] == 'subs':
            # once inverted, a parameter is not in the expressions any more
            keys = sorted((k for k in core.subs if str(k)[0] in 'kq'),
                          key=str)
            if not keys or 'subsinverse' in labels:
                continue
            arg, later = {}, {}
            for i, form, v in op[1]:
                k = keys[i % len(keys)]
                if k in arg:
                    continue
                if form == 'num':
                    arg[k] = v
                else:
                    q = sym('fresh{}'.format(fresh[0]))
                    fresh[0] += 1
                    later[q] = v if form == 'symb' else v - 0.25
                    arg[k] = q if form == 'symb' else q + 0.25
                over[str(k)] = v
                labels.add('subs by ' + form)
            given = dict(arg)
            core.substitute(subs=arg, simplify=op[2])
            if arg != given:
                raise Violation('substitute', 'the dictionary given by the '
                                'user was changed to {}'.format(arg))
            left = [k for k in given if k in core.subs]
            if left:
                raise Violation('substitute', 'substituted parameters {} '
                                'remain'.format(left))
            for q, v in later.items():
                core.subs[q] = v
            ref = reference()
        elif op[0] == 'selfexprs':
            core.substitute(selfexprs=True, simplify=op[1])
            bad = [k for k, v in core.subs.items() if
                   not isinstance(v, (int, float)) and
                   not sympy.sympify(v).is_number]
            if bad:
                raise Violation('substitute', 'expressions remain after '
                                'selfexprs: {}'.format(bad))
            labels.add('selfexprs')
        elif op[0] == 'selfall':
            core.substitute(selfall=True, simplify=op[1])
            if len(core.subs):
                raise Violation('substitute', 'subs is {} after selfall'
                                .format(core.subs))
            labels.add('selfall')
        elif op[0] == 'simplify':
            core.simplify()
            labels.add('simplify')
        elif op[0] == 'subsinverse':
            core.subsinverse()
            labels.add('subsinverse')
        elif op[0] == 'rename':
            lst = getattr(core, op[1])
            if not lst:
                continue
            s = lst[op[2] % len(lst)]
            new = sym('ren{}{}'.format(op[1], fresh[0]))
            fresh[0] += 1
            if any('g' + str(s) == str(k) for e in list(core.z) + list(core.M)
                   for k in sympy.sympify(e).free_symbols):
                continue
            core.substitute(subs={s: new})
            base = [a for a, b in names.items() if b == str(s)] or [str(s)]
            names[base[0]] = str(new)
            useful = True
            labels.add('rename')
        f = Field(core)
        for r, pt in zip(ref, spec['points']):
            got = f.eval({renamed(k): v for k, v in pt.items()})
            want = {renamed(k): v for k, v in r.items()}
            if set(got) != set(want):
                raise Violation('variables', '{} instead of {}'.format(
                    sorted(got), sorted(want)))
            compare(want, got, 'values after ' + op[0], tol=1e-6)
    return {'nontrivial': useful and bool(labels) and cores.moved(ref[0]),
            'labels': sorted(labels)}
