# -*- coding: utf-8 -*-
"""C12: the generated C++ code computes what the python solver computes."""
import os
import subprocess

import numpy as np

from pbt import phs
from pbt.engine import Violation, Reject

PROPERTY = 'C12'
RULE = ('a case is a random system (nonlinear storages and dissipations, '
        'parameters, observers), a scheme configuration and 1-2 runs with '
        'drawn inputs, initial values and values of parameters; either the '
        'C++ simulation is built, run and its recorded data compared, or the '
        'generated class is compiled with a driver that calls its accessors, '
        'mutators and change of sample rate; the oracle is the python solver '
        'of the same system; non-trivial when some compared value is not '
        'zero after the first step')
CASES = {'quick': 56, 'thorough': 4000}

DN = ['x', 'dx', 'dxH', 'w', 'z', 'y']
CMAKE = '#!/bin/sh\n' \
    'if [ "$1" = "--build" ]; then exec cmake "$@"; fi\n' \
    'exec cmake "-DCMAKE_CXX_FLAGS_RELEASE=-O0" "$@"\n'


def gen(d):
    spec = phs.gen_core(d, nx=(0, 3), nw=(0, 2), ny=(0, 2), npar=(0, 2),
                        nobs=(0, 2), gsymb=True)
    for q in spec['params']:
        # numbers with many digits, large or small
        if isinstance(q[1], float) and d.bool(3, 4):
            q[1] = d.int(500000001, 2000000001) / 1e9
    spec['mode'] = d.choice(['simu', 'class'])
    spec['cfg'] = {'split': d.bool(),
                   'grad': d.weighted([(3, 'discret'), (1, 'theta'),
                                       (1, 'trapez')]),
                   'theta': d.choice([0., 0.5])}
    spec['label'] = d.choice(['sys', 'my_system', 'Sys2'])
    runs = []
    for k in range(d.weighted([(2, 1), (1, 2)])):
        N = d.int(2, 5)
        runs.append({
            'fs': d.choice([200., 500., 1000.]),
            'x': [d.int(-1000000, 1000000) / 1000001. for _ in range(spec['nx'])]
            if k == 0 or d.bool() else None,
            'u': [[d.int(-20, 20) / 10. for _ in range(spec['ny'])]
                  for _ in range(N)],
            'p': [[d.int(-10, 10) / 10. for _ in range(spec['np'])]
                  for _ in range(N)],
            'subs': [[q[0], d.int(500000, 2000000) / 1000001.] for q in
                     d.subset(spec['params'])] if k else []})
    spec['runs'] = runs
    spec['dx'] = [d.choice([0.5, -0.25]) for _ in range(spec['nx'])] \
        if d.bool(1, 4) else None
    spec['simlabel'] = d.bool(1, 3)
    # sets of values: a dictionary or a list, complete or not, in any order
    spec['sets'] = [[[q[0], d.int(500000, 2000000) / 1000001.] for q in
                     d.shuffle(d.subset(spec['params']) if d.bool(1, 3)
                               else spec['params'])]
                    for _ in range(d.int(0, 3))]
    spec['key'] = d.int(0, max(0, len(spec['sets']) - 1))
    spec['setform'] = d.choice(['list', 'tuple', 'dict'])
    return spec


def initial(spec, x0, xo):
    r = {'x': [x0[i] for i in xo]}
    if spec['dx']:
        r['dx'] = [spec['dx'][i] for i in xo]
    return r


def reference(spec, params, fs, x0, run):
    s = dict(spec)
    s['params'] = [[k, params[k]] for k, _ in spec['params']]
    core = phs.build_core(s)
    method = core.to_method(config=spec['cfg'])
    xo = [int(str(q)[1:]) for q in method.x]
    nums = method.to_numeric(inits=initial(spec, x0, xo),
                             config={'fs': fs})
    rec = {k: [] for k in DN}
    for u, p in zip(run['u'], run['p']):
        nums.update(u=np.array(u), p=np.array(p))
        for k in DN:
            rec[k].append(np.array(getattr(nums, k)(), dtype=float))
    out = {}
    names = cols(method)
    for k in DN:
        a = np.array(rec[k]).reshape((len(run['u']), -1))
        for c, n in enumerate(names[k]):
            out[k, n] = a[:, c]
            if not np.isfinite(out[k, n]).all():
                raise Reject('the python solver diverges')
    return out


def cols(method):
    x, w = list(map(str, method.x)), list(map(str, method.w))
    return {'x': x, 'dx': x, 'dxH': x, 'w': w, 'z': w,
            'y': list(map(str, method.y))}


def compare(method, got, want, nt, what):
    nz = False
    names = cols(method)
    for k in DN:
        a = np.array(got[k]).reshape((nt, -1))
        if a.shape[1] != len(names[k]):
            raise Violation('shape', '{} {}: {}'.format(what, k, a.shape))
        for c, n in enumerate(names[k]):
            b = want[k, n]
            if not abs(a[:, c] - b).max() <= 1e-10 * (1 + abs(b).max()):
                raise Violation('values', '{} {} {}: {} instead of {}'.format(
                    what, k, n, a[:, c].tolist(), b.tolist()))
            nz = nz or abs(b).max() > 1e-9
    return nz


def run_simu(spec, ctx, labels):
    from pyphs import Simulation
    core = phs.build_core(spec, label=spec['label'])
    path = ctx.newdir()
    cmake = os.path.join(ctx.newdir(), 'cmake.sh')
    with open(cmake, 'w') as f:
        f.write(CMAKE)
    os.chmod(cmake, 0o755)
    method = core.to_method(config=spec['cfg'])
    r0 = spec['runs'][0]
    cfg = dict(spec['cfg'], path=path, lang='c++', cmake=cmake,
               fs=r0['fs'])
    if spec['simlabel']:
        simu = Simulation(method, config=cfg, label=spec['label'] + '_b')
        labels.add('own label')
    else:
        simu = method.to_simulation(config=cfg)
    params = dict(map(tuple, spec['params']))
    xo = [int(str(q)[1:]) for q in simu.method.x]
    nz = False
    for n, r in enumerate(spec['runs']):
        kw = {}
        if r['x'] is not None:
            x0 = r['x']
            kw['inits'] = initial(spec, x0, xo)
        if n:
            kw['config'] = {'fs': r['fs']}
        if r['subs']:
            params.update(dict(map(tuple, r['subs'])))
            kw['subs'] = {phs.sym(k): v for k, v in r['subs']}
            labels.add('values')
        nt = len(r['u'])
        simu.init(u=np.array(r['u']).reshape((nt, -1)),
                  p=np.array(r['p']).reshape((nt, -1)), nt=nt, **kw)
        try:
            simu.process()
        except subprocess.CalledProcessError as e:
            with open(os.path.join(simu.cpp_path, 'build.log')) as f:
                log = f.read()
            raise Violation('the generated code does not compile',
                            str(e.stderr)[-1500:] + log[-300:])
        want = reference(spec, params, r['fs'], x0, r)
        got = {k: np.array(getattr(simu.data, k)()) for k in DN}
        nz = compare(simu.method, got, want, nt, 'run {}'.format(n)) or nz
        # the inputs are kept
        for k in 'up':
            a = np.array(r[k]).reshape((nt, -1))
            if not np.array_equal(np.array(getattr(simu.data, k)()), a):
                raise Violation('recorded inputs', k)
    return nz


DRIVER = r'''
#include "core.h"
#include <cstdio>
typedef std::vector<double> V;
static void show(const char *n, const V &v) {
    std::printf("%%s", n);
    for (unsigned i = 0; i < v.size(); i++) std::printf(" %%.17g", v[i]);
    std::printf("\n");
}
int main() {
    %(label)s obj;
    %(label)s other;
    std::vector<V> U, P;
%(steps)s
}
'''


def vec(v):
    return 'V{' + ', '.join(repr(float(e)) for e in v) + '}'


def run_class(spec, ctx, labels):
    core = phs.build_core(spec, label=spec['label'])
    method = core.to_method(config=spec['cfg'])
    path = ctx.newdir()
    xo = [int(str(q)[1:]) for q in method.x]
    r0 = spec['runs'][0]
    x0 = r0['x']
    inits = initial(spec, x0, xo)
    subs = None
    params = dict(map(tuple, spec['params']))
    if spec['sets']:
        subs = [{phs.sym(k): v for k, v in one} for one in spec['sets']]
        params.update(dict(map(tuple, spec['sets'][spec['key']])))
        labels.add('several sets of values' if len(subs) > 1 else
                   'set of values')
        if len(subs) == 1 and spec['setform'] == 'dict':
            subs = subs[0]
        elif spec['setform'] == 'tuple':
            subs = tuple(subs)
    method.to_cpp(objlabel=spec['label'], path=path, inits=inits,
                  config={'fs': r0['fs']}, subs=subs)
    if spec['key']:
        # the set that is used is a constant of the generated header
        name = os.path.join(path, 'core.h')
        with open(name) as f:
            text = f.read()
        if text.count('indexParameters = 0;') != 1:
            raise Reject('no selection of the set of values')
        with open(name, 'w') as f:
            f.write(text.replace('indexParameters = 0;',
                                 'indexParameters = %d;' % spec['key']))
        labels.add('another set of values')
    label = spec['label'].upper()
    names = cols(method)
    dims = {k: len(names[k]) for k in DN}
    steps = []
    for n, r in enumerate(spec['runs']):
        if n:
            steps.append('    {double fs = %r; obj.set_sampleRate(fs);}'
                         % r['fs'])
            labels.add('sample rate')
        for i, (u, p) in enumerate(zip(r['u'], r['p'])):
            if i % 2 == 0:
                steps.append('    obj.set_u({}); obj.set_p({});'.format(
                    vec(u), vec(p)))
            else:
                # element by element
                for q, v in (('u', u), ('p', p)):
                    for j, e in enumerate(v):
                        steps.append('    {unsigned int j = %d; obj.set_%s('
                                     '%r, j);}' % (j, q, float(e)))
            steps.append('    obj.update();')
            if i % 2 == 1:
                # another object does not interfere
                steps.append('    other.set_u({}); other.update();'.format(
                    vec([3.] * len(u))))
            for k in DN:
                if k in ('x', 'dx', 'w') or i % 2 == 0 or not dims[k]:
                    steps.append('    show("{0}", obj.{0}_vector());'.format(
                        k))
                else:
                    steps.append('    {V v; for (unsigned int j=0; j<%d; j++)'
                                 ' v.push_back(obj.%s(j)); show("%s", v);}'
                                 % (dims[k], k, k))
    with open(os.path.join(path, 'main.cpp'), 'w') as f:
        f.write(DRIVER % {'label': label, 'steps': '\n'.join(steps)})
    exe = os.path.join(path, 'main')
    r = subprocess.run(['g++', '-std=c++11', '-O0', '-I/usr/include/eigen3',
                        '-o', exe, 'main.cpp', 'core.cpp', 'parameters.cpp'],
                       cwd=path, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, universal_newlines=True)
    if r.returncode:
        raise Violation('the generated code does not compile',
                        r.stdout[:1500])
    r = subprocess.run([exe], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, universal_newlines=True)
    if r.returncode:
        raise Violation('the generated code crashes', r.stdout[-1000:])
    lines = [li.split() for li in r.stdout.splitlines() if li.strip()]
    pos = 0
    nz = False
    for n, r in enumerate(spec['runs']):
        got = {k: [] for k in DN}
        for _ in r['u']:
            for k in DN:
                if lines[pos][0] != k:
                    raise Violation('output', str(lines[pos]))
                got[k].append([float(v) for v in lines[pos][1:]])
                pos += 1
        want = reference(spec, params, r['fs'], x0, r)
        nz = compare(method, got, want, len(r['u']), 'run {}'.format(n)) or nz
    return nz


def run(spec, ctx):
    labels = set(spec['labels'])
    labels.add(spec['mode'])
    if spec['dx']:
        labels.add('initial increment')
    labels.add('grad:' + spec['cfg']['grad'])
    labels.add('split' if spec['cfg']['split'] else 'nosplit')
    if spec['mode'] == 'simu':
        nz = run_simu(spec, ctx, labels)
    else:
        nz = run_class(spec, ctx, labels)
    return {'nontrivial': nz, 'labels': sorted(labels)}
