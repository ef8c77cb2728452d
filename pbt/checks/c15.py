# -*- coding: utf-8 -*-
"""C15: networks assembled piece by piece, and analysed several times."""
import os

from pbt import nets
from pbt.checks import c03
from pbt.checks.c14 import content
from pbt.engine import Violation, Reject, Hang, time_limit

PROPERTY = 'C15'
RULE = ('a case is a connected network (random, or chains rich in serial and '
        'parallel components), cut into 1-4 pieces built from netlists or '
        'component by component, and a history of 2-10 sums (in place or '
        'not), analyses (with and without resolution of connectors, forced '
        'or not, with and without the merge of all compatible components); '
        'after each analysis the response is compared with the nodal analysis '
        'of the components put in the piece; operands of sums and systems '
        'returned before must not change; non-trivial when at least two '
        'analyses of networks with at least 3 components are compared')
CASES = {'quick': 480, 'thorough': 12000}
TIMEOUT = 240


def gen_chain(d):
    """A chain or a ring with several components between neighbours."""
    nodes = [nets.DATUM] + ['n{}'.format(i) for i in range(d.int(1, 4))]
    path = nodes + [nets.DATUM] if d.bool(3, 5) else nodes
    els = []
    for a, b in zip(path, path[1:]):
        for _ in range(d.weighted([(3, 1), (1, 2), (1, 3)])):
            c = d.choice('RRRCCLLIV')
            n = [a, b]
            if d.bool():
                n = n[::-1]
            e = {'c': c, 'n': n, 'v': d.num(0.25, 2., 8),
                 'l': '{}{}'.format(c, len(els))}
            if c in 'RCL' and d.bool(1, 4):
                e['a'] = d.choice(['named', 'param'])
            els.append(e)
    if not any(e['c'] in 'VI' for e in els):
        els.append({'c': 'I', 'n': d.sample(nodes, 2), 'v': 1.,
                    'l': 'I{}'.format(len(els))})
    if d.bool():
        # laws with an offset: the orientation of merged components matters
        ctrl = d.weighted([(2, None), (1, 'e'), (1, 'f')])
        for e in els:
            if e['c'] in 'RCL' and d.bool(3, 4):
                e.pop('a', None)
                e['o'] = d.signed(2., 4)
                if e['c'] == 'R' and ctrl is not None and d.bool(3, 4):
                    e['ctrl'] = ctrl
    return d.shuffle(els)


def gen(d):
    if d.bool():
        els = gen_chain(d)
    else:
        els = nets.gen_net(d, connectors=d.bool(1, 4), sources=1)
    k = d.int(1, min(4, len(els)))
    cuts = sorted(d.sample(range(1, len(els)), k - 1)) if k > 1 else []
    cuts = [0] + cuts + [len(els)]
    parts = [[d.choice(['sum', 'netlist']), cuts[i], cuts[i + 1]]
             for i in range(k)]
    ops = []
    n = k
    for _ in range(d.int(0, 4)):
        o = d.weighted([(3, 'sum'), (3, 'isum'), (4, 'core')])
        if o == 'core':
            ops.append([o, d.int(0, n - 1), gen_opts(d)])
        else:
            ops.append([o, d.int(0, n - 1), d.int(0, n - 1)])
            n += o == 'sum'
    # assemble what remains, then analyse the whole
    ops.append(['all', d.bool()])
    for _ in range(d.int(1, 4)):
        ops.append(['core', -1, gen_opts(d)])
    return {'els': els, 'parts': parts, 'ops': ops}


def gen_opts(d):
    return {'connect': d.bool(3, 4), 'force': d.bool(3, 4),
            'merge': d.bool(1, 3), 'arc': d.bool(5, 6)}


class Entry(object):
    def __init__(self, graph, ids, values):
        self.graph = graph
        self.ids = set(ids)
        self.values = dict(values)
        self.merged = False      # by a previous analysis
        self.analysed = False    # since the last addition
        self.dead = False


def run(spec, ctx):
    els = spec['els']
    pool = []
    labels = set()
    compared = [0]
    returned = []
    for via, a, b in spec['parts']:
        part = els[a:b]
        if any('o' in e for e in part):
            # not components of the dictionary
            via = 'sum'
            labels.add('offset')
        if via == 'netlist':
            net, values = nets.netlist(
                part, os.path.join(ctx.newdir(), 'net.net'))
            g = net.to_graph()
        else:
            g, values = nets.graph_by_sum(part)
        pool.append(Entry(g, range(a, b), values))

    def members(e):
        return [x for i, x in enumerate(els) if i in e.ids]

    def freeze(core):
        return repr((core.M, core.H, core.z, core.x, core.w, core.y, core.cy))

    def analyse(e, opts):
        part = members(e)
        if not any(x['c'] in 'VI' for x in part):
            return
        nodes = set(n for x in nets.edges_of(part) for n in x[2:4])
        if nets.DATUM not in nodes or nets.mna(part, c03.POINTS[0]) is None:
            return
        must = nets.propagates(part)
        kw = dict(connect=opts['connect'], merge_all=opts['merge'],
                  force=opts['force'] or not e.analysed,
                  solve_arc=opts['arc'] or not must)
        try:
            with time_limit(120 if must else 8):
                core = e.graph.to_core(**kw)
        except Hang:
            if must:
                raise Violation('the analysis does not end', str(kw))
            e.dead = True
            return
        except Exception as exc:
            if must:
                raise
            e.dead = True
            labels.add('refused')
            return
        if not opts['connect']:
            core = core.__copy__()
            core.connect()
        c03.skew(core, e.values)
        c03.compare(core, e.values, part, ' {}'.format(
            'after a merge' if e.merged else
            'merge' if opts['merge'] else 'analysis'))
        nx, nw = len(core.x), len(core.w)
        cl = sum(x['c'] in 'CL' for x in part)
        r = sum(x['c'] == 'R' for x in part)
        if nx > cl or nw > r:
            raise Violation('components', '{} storages and {} dissipations '
                            'from {} and {}'.format(nx, nw, cl, r))
        if must and not opts['merge'] and not e.merged and \
                (nx, nw) != (cl, r):
            raise Violation('components', '{} storages and {} dissipations '
                            'from {} and {}'.format(nx, nw, cl, r))
        if (nx, nw) != (cl, r):
            labels.add('merged')
        e.merged |= opts['merge'] or not must
        e.analysed = True
        returned.append((core, freeze(core)))
        compared[0] += len(part) >= 3
        labels.add('merge' if opts['merge'] else 'analysis')

    def usable(a, b):
        return a is not b and not (a.ids & b.ids) and not (
            a.merged or b.merged or a.dead or b.dead)

    def add(a, b, inplace):
        ca, cb = content(a.graph), content(b.graph)
        values = dict(a.values)
        values.update(b.values)
        if inplace:
            g = a.graph
            g += b.graph
            a.graph = g
            a.ids |= b.ids
            a.values = values
            a.analysed = False
        else:
            g = a.graph + b.graph
            pool.append(Entry(g, a.ids | b.ids, values))
            if content(a.graph) != ca:
                raise Violation('a sum changes its left operand',
                                '{} != {}'.format(content(a.graph), ca))
        if content(b.graph) != cb:
            raise Violation('a sum changes its right operand',
                            '{} != {}'.format(content(b.graph), cb))
        labels.add('isum' if inplace else 'sum')

    for op in spec['ops']:
        if op[0] == 'core':
            if op[1] < len(pool):
                e = pool[op[1]]
                if not e.dead:
                    analyse(e, op[2])
        elif op[0] in ('sum', 'isum'):
            if max(op[1:3]) < len(pool) and usable(pool[op[1]], pool[op[2]]):
                add(pool[op[1]], pool[op[2]], op[0] == 'isum')
        else:
            # the disjoint pieces that cover most of the network
            order = sorted((e for e in pool if not (e.dead or e.merged)),
                           key=lambda e: -len(e.ids))
            take = []
            for e in order:
                if all(not (e.ids & t.ids) for t in take):
                    take.append(e)
            if not take:
                break
            acc = take[0]
            for e in take[1:]:
                add(acc, e, op[1])
                if not op[1]:
                    acc = pool[-1]
            pool.append(acc)
            if len(acc.ids) == len(els):
                labels.add('whole network')
    for core, state in returned:
        if freeze(core) != state:
            raise Violation('a system returned before changes', '')
    return {'nontrivial': compared[0] >= 2, 'labels': sorted(labels)}
