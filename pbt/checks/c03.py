# -*- coding: utf-8 -*-
"""C03: the core built from a network of components obeys Kirchhoff's laws
and the components' laws (reference: an independent nodal analysis)."""
import os

from pbt import nets
from pbt.engine import Violation, Reject, Hang, time_limit

PROPERTY = 'C03'
RULE = ('a case is a connected network of 2 to 10 components (4 dictionaries '
        'and connectors; literal, named or free parameters; built from a '
        'netlist or as a sum of components), drawn either on a spanning '
        'tree/co-tree so that a causality exists, or freely; non-trivial when '
        'a core is returned and its port response is compared with the nodal '
        'analysis at 2 complex frequencies')
CASES = {'quick': 480, 'thorough': 20000}
TIMEOUT = 200
POINTS = [complex(0.7, 1.3), complex(2.1, -0.4)]


def gen(d):
    els = nets.gen_net(d)
    return {'els': els, 'via': d.choice(['netlist', 'sum'])}


def build(spec, ctx):
    if spec['via'] == 'netlist':
        net, values = nets.netlist(spec['els'],
                                   os.path.join(ctx.newdir(), 'net.net'))
        graph = net.to_graph()
    else:
        graph, values = nets.graph_by_sum(spec['els'])
    return graph, values


def compare(core, values, els, what=''):
    for s in POINTS:
        ref = nets.mna(els, s)
        if ref is None:
            raise Reject('singular network')
        got = nets.core_response(core, s, values,
                                 any('o' in e for e in els))
        if set(got) != set(ref):
            raise Violation('ports' + what, '{} != {}'.format(
                sorted(got), sorted(ref)))
        for k in ref:
            if not abs(got[k] - ref[k]) <= 1e-6 * (1 + abs(ref[k])):
                raise Violation('response' + what, '{} at s={}: core {} '
                                'nodal analysis {}'.format(k, s, got[k],
                                                           ref[k]))


def skew(core, values):
    M = nets.core_numbers(core, values)[0]
    if M.size and abs(M + M.T).max() > 1e-7 * (1 + abs(M).max()):
        raise Violation('not lossless', 'M = {}'.format(M.tolist()))


def run(spec, ctx):
    els = spec['els']
    must = nets.propagates(els)
    if nets.mna(els, POINTS[0]) is None:
        raise Reject('singular network')
    graph, values = build(spec, ctx)
    labels = ['via ' + spec['via']]
    labels += sorted(set(e.get('d', 'electronics') for e in els))
    labels += sorted(set('has ' + e['c'] for e in els if e['c'] in 'TY'))
    if must:
        try:
            with time_limit(120):
                core = graph.to_core()
        except Hang:
            raise Violation('the analysis does not end', '120 s')
    else:
        try:
            with time_limit(8):
                core = graph.to_core()
        except (Exception, Hang):
            # no guarantee that the heuristics find the causality
            return {'nontrivial': False, 'labels': labels + ['refused']}
    labels.append('built, causality by propagation' if must else 'built')
    skew(core, values)
    compare(core, values, els)
    if must:
        want = sorted('x' + e['l'] for e in els if e['c'] in 'CL')
        if sorted(map(str, core.x)) != want:
            raise Violation('states', '{} != {}'.format(core.x, want))
    else:
        n = sum(e['c'] in 'CL' for e in els)
        if len(core.x) != n:
            labels.append('storages merged')
    return {'nontrivial': True, 'labels': labels}
