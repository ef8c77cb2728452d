# -*- coding: utf-8 -*-
"""C14: a netlist is the list of its lines, in memory and on the disk."""
import os

from pbt.engine import Violation

PROPERTY = 'C14'
RULE = ('a case is a history of 2-12 operations on up to three netlists: '
        'reading a text (comments, blank lines, free spacing, quoted or bare '
        'strings, missing final separators), appending, replacing and '
        'deleting lines, sums in place and not, writing to the same or '
        'another file, reloading; after every operation each netlist is '
        'compared with a list of lines, and at the end the networks built '
        'from the netlists with the components built one by one; non-trivial '
        'when a netlist with at least two lines went through a file')
CASES = {'quick': 900, 'thorough': 40000}

# (dictionary, component, number of nodes, [(argument, kind)])
COMPONENTS = [
    ('electronics', 'resistor', 2, [('R', 'par')]),
    ('electronics', 'capacitor', 2, [('C', 'par')]),
    ('electronics', 'inductor', 2, [('L', 'par')]),
    ('electronics', 'source', 2, [('type', ('voltage', 'current')),
                                  ('const', 'const')]),
    ('electronics', 'potentiometer', 3, [('R', 'par'), ('E', 'par')]),
    ('electronics', 'bjt', 3, [('mu', 'par'), ('betaF', 'par'), ('Is', 'par'),
                               ('Vt', 'par'), ('Rb', 'par')]),
    ('electronics', 'diode', 2, [('Is', 'par'), ('v0', 'par'), ('mu', 'par')]),
    ('mechanics', 'mass', 1, [('M', 'par')]),
    ('mechanics', 'stiffness', 2, [('K', 'par')]),
    ('mechanics', 'springcubic', 2, [('K0', 'par'), ('K2', 'par')]),
    ('mechanics_dual', 'damper', 2, [('A', 'par')]),
    ('magnetics', 'capacitor', 2, [('C', 'par')]),
    ('connectors', 'transformer', 4, [('alpha', 'par')]),
    ('connectors', 'gyrator', 4, [('alpha', 'par')]),
    # lines of a netlist need not be components of the dictionary
    ('mydic', 'mycomp', 2, [('file', 'text'), ('flag', 'bool'),
                            ('range', 'tuple'), ('N', 'par'), ('ctrl', 'text')])
]
REAL = [c for c in COMPONENTS if c[0] != 'mydic']
TEXTS = ['name', 'data/pwl.txt', '/tmp/some where/file.txt', 'a_b-c', 'e1',
         'linear', 'x y', 'C:x.txt']
NODES = ['#', 'n1', 'n2', 'N3', 'in', 1, 2, 10, 'A', 'node 1', 'x y z']


def gen_value(d, kind):
    if isinstance(kind, tuple):
        return ['str', d.choice(kind)]
    if kind == 'const':
        return ['num', d.choice([0.5, 2., -9.])]
    if kind == 'par':
        k = d.weighted([(4, 'num'), (3, 'named'), (2, 'str'), (1, 'int')])
        if k == 'num':
            return [k, d.weighted([(3, d.num(0.25, 4., 8)),
                                   (1, d.choice([1e-9, 2.39e-14, 1e6,
                                                 0.1, 1. / 3., 123456.789,
                                                 6.02e23]))])]
        if k == 'int':
            return [k, d.int(1, 20)]
        if k == 'named':
            return [k, d.choice(['R1', 'Cin', 'a', 'K_x', 'mu']),
                    d.choice([d.num(0.25, 4., 8), 1e-9, 100, 0.1])]
        return ['str', d.choice(['param', 'theta', 'P1', 'x_1'])]
    if kind == 'text':
        return ['str', d.choice(TEXTS)]
    if kind == 'bool':
        return ['bool', d.bool()]
    return ['tuple', [d.choice([-5, 0, 10, 2.5, 48e3]) for _ in
                      range(d.int(2, 3))]]


def gen_line(d, k):
    dic, comp, n, args = d.choice(COMPONENTS)
    keep = [a for a in args if a[1] == ('voltage', 'current') or
            d.bool(2, 3)]
    keep = d.shuffle(keep)
    return {'dictionary': dic, 'component': comp, 'label': '{}{}'.format(
        d.choice(['C', 'R', 'el_', 'IN', 'e']), k),
        'nodes': d.sample(NODES, n),
        'arguments': [[a[0], gen_value(d, a[1])] for a in keep]}


def gen_style(d):
    return {'comments': d.bool(), 'blank': d.bool(), 'spaces': d.int(0, 3),
            'quote': d.bool(), 'final': d.bool(), 'last': d.bool(),
            'parens': d.bool(3, 4)}


def gen_index(d):
    # from the end when negative, as for a list
    i = d.int(0, 5)
    return -1 - i if d.bool(1, 4) else i


def gen(d):
    ops = []
    k = 0
    n = 0
    for _ in range(d.int(2, 12)):
        o = d.weighted([(3, 'text'), (4, 'add'), (2, 'set'), (2, 'del'),
                        (2, 'write'), (2, 'reload'), (2, 'sum'), (1, 'isum'),
                        (1, 'writeto')])
        if n == 0:
            o = 'text'
        if o == 'text':
            lines = [gen_line(d, k + i) for i in range(d.int(0, 4))]
            k += len(lines)
            ops.append([o, lines, gen_style(d)])
            n = min(n + 1, 3)
        elif o == 'add':
            ops.append([o, d.int(0, n - 1), gen_line(d, k)])
            k += 1
        elif o == 'set':
            ops.append([o, d.int(0, n - 1), gen_index(d), gen_line(d, k)])
            k += 1
        elif o == 'del':
            ops.append([o, d.int(0, n - 1), gen_index(d)])
        elif o in ('write', 'reload', 'writeto'):
            ops.append([o, d.int(0, n - 1)])
        else:
            ops.append([o, d.int(0, n - 1), d.int(0, n - 1)])
    return {'ops': ops}


def value(v):
    if v[0] == 'named':
        return (v[1], v[2])
    if v[0] == 'tuple':
        return tuple(v[1])
    return v[1]


def line_of(spec):
    return {'dictionary': spec['dictionary'], 'component': spec['component'],
            'label': spec['label'], 'nodes': tuple(spec['nodes']),
            'arguments': {a: value(v) for a, v in spec['arguments']}}


def render(spec, style):
    """The line of a text file, by hand."""
    sp = ' ' * style['spaces']
    sep = ',' + sp
    nodes = sep.join(repr(n) for n in spec['nodes'])
    if style['parens'] or len(spec['nodes']) == 1:
        nodes = '(' + nodes + (',' if len(spec['nodes']) == 1 else '') + ')'
    out = '{}.{} {}{} {}{}:'.format(spec['dictionary'], spec['component'],
                                    sp, spec['label'], sp, nodes)
    pars = []
    for a, v in spec['arguments']:
        x = value(v)
        if v[0] == 'str':
            t = repr(x) if style['quote'] else x
        elif v[0] == 'named':
            t = '({!r},{}{!r})'.format(x[0], sp, x[1])
        elif v[0] == 'tuple':
            t = '(' + sep.join(repr(i) for i in x) + ')'
        else:
            t = repr(x)
        pars.append(' {}{}={}{}'.format(a, sp, sp, t))
    out += (';' + sp).join(pars)
    if pars and style['last']:
        out += ';'
    return out


def text_of(lines, style):
    out = []
    if style['comments']:
        out.append('# a comment: with = and ; signs')
    for i, l in enumerate(lines):
        out.append(render(l, style))
        if style['blank']:
            out.append(' ' * (i % 2))
        if style['comments'] and i % 2:
            out.append('#' + render(l, style))
    t = '\n'.join(out)
    return t + ('\n' if style['final'] else '')


def same(a, b):
    """Equal values of equal types (a number is not its text)."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    return a == b


def check(net, model, what):
    if net.nlines() != len(model):
        raise Violation('number of lines' + what, '{} != {}'.format(
            net.nlines(), len(model)))
    got = list(net)
    if len(got) != len(model):
        raise Violation('iteration' + what, '{} != {}'.format(
            len(got), len(model)))
    for i, (g, m) in enumerate(zip(got, model)):
        for f in ('dictionary', 'component', 'label', 'nodes'):
            if not same(g[f], m[f]):
                raise Violation(f + what, 'line {}: {!r} != {!r}'.format(
                    i, g[f], m[f]))
        ga, ma = g['arguments'], m['arguments']
        if set(ga) != set(ma):
            raise Violation('arguments' + what, 'line {}: {!r} != {!r}'.format(
                i, ga, ma))
        for k in ma:
            if not same(ga[k], ma[k]):
                raise Violation('arguments' + what,
                                'line {}, {}: {!r} != {!r}'.format(
                                    i, k, ga[k], ma[k]))


def copy_line(m):
    m = dict(m)
    m['arguments'] = dict(m['arguments'])
    return m


def edges(graph):
    def show(v):
        if isinstance(v, dict):
            return sorted((str(k), show(x)) for k, x in v.items())
        if isinstance(v, (list, tuple)):
            return [show(x) for x in v]
        return str(v)
    out = []
    for n1, n2, data in graph.edges(data=True):
        out.append(repr((n1, n2, show(data))))
    return sorted(out)


def content(graph):
    c = graph.core
    return {'edges': edges(graph), 'H': str(c.H),
            'x': sorted(map(str, c.x)), 'w': sorted(map(str, c.w)),
            'z': sorted(zip(map(str, c.w), map(str, c.z))),
            'y': sorted(map(str, c.y)), 'p': sorted(set(map(str, c.p))),
            'subs': sorted((str(k), str(v)) for k, v in c.subs.items())}


def networks(net, model, what):
    """The graph of a netlist is the sum of its components."""
    import pyphs.dictionary as dictionary
    from pyphs import Graph
    real = {(c[0], c[1]) for c in REAL}
    if not model or any((m['dictionary'], m['component']) not in real
                        for m in model):
        return False
    if len(set(m['label'] for m in model)) != len(model):
        return False
    ref = Graph()
    for m in model:
        comp = getattr(getattr(dictionary, m['dictionary']),
                       m['component'].capitalize())
        ref += comp(m['label'], m['nodes'], **dict(m['arguments']))
    for how, g in (('object', net.to_graph()), ('argument', Graph(net))):
        a, b = content(g), content(ref)
        for k in a:
            if a[k] != b[k]:
                raise Violation('network ({})'.format(how) + what,
                                '{}: {} != {}'.format(k, a[k], b[k]))
    return True


def run(spec, ctx):
    from pyphs import Netlist
    root = ctx.newdir()
    pool = []     # [netlist, model, path, what the file holds]
    labels = set()
    through = False

    def fresh():
        return os.path.join(root, 'net{}.net'.format(len(os.listdir(root))))
    for op in spec['ops']:
        o = op[0]
        if o == 'text':
            path = fresh()
            with open(path, 'w') as f:
                f.write(text_of(op[1], op[2]))
            model = [line_of(l) for l in op[1]]
            entry = [Netlist(path), model, path,
                     [copy_line(m) for m in model]]
            if len(pool) < 3:
                pool.append(entry)
            else:
                pool[0] = entry
            through |= len(model) > 1
        elif op[1] >= len(pool):
            continue
        else:
            e = pool[op[1]]
            net, model = e[0], e[1]
            if o == 'add':
                net.add_line(line_of(op[2]))
                model.append(line_of(op[2]))
            elif o in ('set', 'del'):
                if not model:
                    continue
                i = op[2]
                i = i % len(model) if i >= 0 else -1 - (-1 - i) % len(model)
                if o == 'set':
                    net.setline(i, line_of(op[3]))
                    model[i] = line_of(op[3])
                else:
                    net.delline(i)
                    del model[i]
            elif o == 'write':
                net.write()
                e[3] = [copy_line(m) for m in model]
                through |= len(model) > 1
                check(Netlist(e[2]), e[3], ' (written file)')
            elif o == 'writeto':
                path = fresh()
                net.write(path)
                through |= len(model) > 1
                check(Netlist(path), model, ' (written to a path)')
            elif o == 'reload':
                e[0] = Netlist(e[2])
                e[1] = [copy_line(m) for m in e[3]]
            elif o in ('sum', 'isum') and op[2] < len(pool):
                f = pool[op[2]]
                lines = [copy_line(m) for m in f[1]]
                if len(model) + len(lines) > 30:
                    continue
                if o == 'sum':
                    s = net + f[0]
                    check(s, model + lines, ' (sum)')
                    path = fresh()
                    s.write(path)
                    check(Netlist(path), model + lines, ' (written sum)')
                    networks(s, model + lines, ' (sum)')
                else:
                    net += f[0]
                    e[0] = net
                    model.extend(lines)
        labels.add(o)
        for i, e in enumerate(pool):
            check(e[0], e[1], ' after ' + o)
            # what was not written is not on the disk
        for e in pool:
            check(Netlist(e[2]), e[3], ' (file) after ' + o)
    built = False
    for e in pool:
        built |= networks(e[0], e[1], '')
    if built:
        labels.add('network built')
    # an emptied netlist
    if pool:
        e = pool[0]
        check(Netlist(e[2], clear=True), [], ' (cleared)')
    return {'nontrivial': bool(through), 'labels': sorted(labels)}
