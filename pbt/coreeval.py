# -*- coding: utf-8 -*-
"""Independent numerical evaluation of a pyphs Core from its public attributes
(x, w, u, y, cu, cy, p, H, z, M, subs, observers, connectors) only: the implicit
equations of the port-Hamiltonian system are solved for w and for the connected
inputs, and the state derivatives, dissipation variables and outputs are
returned by name."""
import numpy as np
import sympy

from pbt.engine import Violation, Reject


def closure(subs, extra=()):
    """A dictionary of substitutions, closed on itself."""
    d = {k: sympy.sympify(v) for k, v in dict(subs).items()}
    d.update({k: sympy.sympify(v) for k, v in extra})
    for _ in range(len(d) + 1):
        new = {k: v.xreplace(d) for k, v in d.items()}
        if new == d:
            return d
        d = new
    raise Reject('circular substitutions')


class Field(object):

    def __init__(self, core, given=()):
        """given: names whose values are provided (others must be states,
        inputs, parameters)"""
        self.x = list(core.x)
        self.w = list(core.w)
        self.u = list(core.u)
        self.y = list(core.y)
        self.cu = list(core.cu)
        self.cy = list(core.cy)
        self.p = list(core.p)
        H = sympy.sympify(core.H)
        grad = [sympy.diff(H, x) for x in self.x]
        g = list(zip([sympy.Symbol('g' + str(x), real=True) for x in self.x],
                     grad))
        obs = list(dict(core.observers).items())
        sub = closure(core.subs, g + obs)
        self.nx, self.nw = len(self.x), len(self.w)
        self.ny, self.nc = len(self.y), len(self.cy)
        n = self.nx + self.nw + self.ny + self.nc
        if not (len(core.z) == self.nw and len(self.u) == self.ny and
                len(self.cu) == self.nc):
            raise Violation('dimensions', 'x{} w{} z{} u{} y{}'.format(
                self.nx, self.nw, len(core.z), len(self.u), self.ny))
        if tuple(core.M.shape) != (n, n) and n and not (
                core.M.shape == (0, 0)):
            raise Violation('structure shape', '{} for {}'.format(
                core.M.shape, n))
        if core.M.shape == (0, 0):
            M = sympy.zeros(n, n)
        else:
            M = core.M
        self.args = self.x + self.u + self.p + self.w + self.cu

        def prep(e):
            return sympy.sympify(e).xreplace(sub)
        exprs = [prep(H)] + [prep(e) for e in grad] + \
            [prep(e) for e in core.z] + \
            [prep(M[i, j]) for i in range(n) for j in range(n)]
        free = set().union(*[e.free_symbols for e in exprs]) - set(self.args)
        if free:
            raise Violation('unknown symbols', sorted(map(str, free)))
        self._f = sympy.lambdify(self.args, exprs, 'numpy', dummify=True)
        self.n = n
        self.S = np.zeros((self.nc, self.nc))
        names = [str(s) for s in self.cy]
        cnames = [str(s) for s in self.cu]
        for c in core.connectors:
            a = prep(c['alpha'])
            if a.free_symbols:
                raise Violation('unknown symbols', str(a))
            i, j = (names.index(str(s)) for s in c['y'])
            iu, ju = (cnames.index(str(s)) for s in c['u'])
            if (i, j) != (iu, ju):
                raise Violation('connector', 'inputs and outputs of a '
                                'connector are not aligned')
            # u_A = -alpha y_B ; u_B = alpha y_A
            self.S[i, j] = -float(a)
            self.S[j, i] = float(a)

    def parts(self, vals):
        out = np.array([float(v) for v in self._f(*vals)])
        k = 1 + self.nx
        return out[0], out[1:k], out[k:k + self.nw], \
            out[k + self.nw:].reshape((self.n, self.n))

    def eval(self, values):
        """values: dict of floats by name, for x, u, p"""
        known = [values[str(s)] for s in self.x + self.u + self.p]
        u = [values[str(s)] for s in self.u]
        nu = self.nw + self.nc
        v = np.zeros(nu)

        def rhs(v):
            H, g, z, M = self.parts(known + list(v))
            a = np.concatenate([g, z, u, v[self.nw:]])
            b = M.dot(a) if self.n else np.zeros(0)
            return H, b

        def res(v):
            H, b = rhs(v)
            w = b[self.nx:self.nx + self.nw]
            cy = b[self.nx + self.nw + self.ny:]
            return v - np.concatenate([w, self.S.dot(cy)])
        for it in range(60):
            if not nu:
                break
            r = res(v)
            if not np.all(np.isfinite(r)):
                raise Reject('diverged')
            if abs(r).max() < 1e-13 * (1 + abs(v).max()) and it:
                break
            Jm = np.zeros((nu, nu))
            for i in range(nu):
                h = 1e-6 * (1 + abs(v[i]))
                e = np.zeros(nu)
                e[i] = h
                Jm[:, i] = (res(v + e) - res(v - e)) / (2 * h)
            if np.linalg.cond(Jm) > 1e6:
                raise Reject('ill-conditioned implicit equations')
            step = np.linalg.solve(Jm, r)
            # damped
            t = 1.
            while t > 1e-3 and abs(res(v - t * step)).max() > \
                    abs(r).max() * (1 + 1e-9) and abs(r).max() > 1e-12:
                t /= 2
            v = v - t * step
        else:
            if abs(res(v)).max() > 1e-10 * (1 + abs(v).max()):
                raise Reject('implicit equations not solved')
        H, b = rhs(v)
        out = {'H': float(H)}
        for i, s in enumerate(self.x):
            out['dt' + str(s)] = float(b[i])
        for i, s in enumerate(self.w):
            out[str(s)] = float(v[i])
        for i, s in enumerate(self.y):
            out[str(s)] = float(b[self.nx + self.nw + i])
        return out


def compare(ref, got, what, keys=None, tol=1e-7):
    for k in (keys if keys is not None else ref):
        if k not in got:
            raise Violation(what, '{} is missing'.format(k))
        if not abs(ref[k] - got[k]) <= tol * (1 + abs(ref[k])):
            raise Violation(what, '{}: {} instead of {}'.format(
                k, got[k], ref[k]))
