"""C27 binarization penalties measure grayness of the design region"""
import itertools

import numpy as np

from mc.util import *

RULE = ('all assignments of densities to the cells of small design regions x placements of the region x values outside x materials x constants; value of the penalized objective for several base objectives, and its '
        'derivatives with respect to all three arguments (autograd through the wrapper against the exact formula)')
BOUND = {'quick': 'all assignments of {0, 1/4, 1/2, 3/4, 1} to up to 4 cells; 8 kinds of densities on 240 larger regions', 'thorough': 'all assignments of 6 levels to up to 5 cells'}
ASSUMPTIONS = []
SHAPE = (4, 3)
PLACES = {'corner': [0, 1, 3, 4, 6], 'spread': [0, 5, 7, 11, 2], 'row': [9, 10, 11, 6, 7], 'mid': [4, 7, 5, 8, 3]}


def cases(tier):
    q = tier == 'quick'
    lev = [0, 0.25, 0.5, 0.75, 1] if q else [0, 0.25, 0.5, 0.75, 1, 0.9]
    out = []
    n = 0
    for k in range(1, 5 if q else 6):
        for p in PLACES:
            for first in lev:
                n += 1
                for e, o in itertools.product([5.0, 2.0, 12.25] if not q else [[5.0, 2.0, 12.25][n % 3]], ['ones', 'gray', 'big'] if not q else [['ones', 'gray', 'big'][(n//2) % 3]]):
                    out.append(dict(cells=k, place=p, first=first, em=e, outside=o, levels=lev, dtype=['f', 'b', 'i'][n % 3], c=[1, 0.3, 5.0, 0][n % 4]))
    for n, (s, r, em) in enumerate(itertools.product([(9, 8), (8, 8), (1, 9), (13, 1), (21, 17), (5, 12)], ['full', 'block', 'edge', 'checker', 'corner', 'line', 'bool', 'int', 'F', 'one'], [0.4, 5.0, 40.0, 1.05])):      # larger regions
        out.append(dict(kind='large', shape=s, region=r, em=em, c=[1, 0.3, 5.0][n % 3], outside=n//2 % 3))
    return out


def run_large(case, ctx):
    import autograd.numpy as npa
    from autograd import grad
    from angler.utils import Binarizer
    from mc.checks.c12 import design
    shape, em, c = tuple(case['shape']), case['em'], case['c']
    d = design(case['region'], shape)
    keep = d.copy()
    ins = d.astype(bool)
    a, b = gen(shape, 5) + 1j*gen(shape, 6), gen(shape, 7) - 0.5j
    B = Binarizer(d, em, exp_const=c)
    for nm, r in (('gen', gen(shape, 3)), ('half', np.full(shape, 0.5)), ('gray', np.full(shape, 0.2)), ('nearly', np.abs(0.001*gen(shape, 4) - 1.0*(gen(shape, 2) > 0.5))), ('mixed', np.clip(2*gen(shape, 8) - 0.5, 0, 1)), ('bin', 1.0*(gen(shape, 2) > 0.5)), ('zero', 0*gen(shape)), ('one', 0*gen(shape) + 1)):
        eps = [np.ones(shape), 1 + (em - 1)*gen(shape, 9), np.full(shape, -3.0)][case['outside']]
        eps[ins] = (1 + (em - 1)*r)[ins]
        gray = np.mean(4*(r*(1 - r))[ins])
        for amp in (1, 1e9, -1e-9):
            base = lambda x, y, e: amp*npa.sum(npa.abs(x)) + amp*2*npa.sum(npa.abs(y))
            J0 = base(a, b, eps)
            for kind, fac, dfac in (('density', 1 - gray, -1), ('density_exp', np.exp(-c*gray), -c*np.exp(-c*gray)), ('smoothness', 1 - gray, -1)):
                f = getattr(B, kind)(base)
                v = f(a, b, eps)
                ctx.op()
                ctx.check(abs(v - J0*fac) <= 1e-11*abs(J0), lambda: '%s penalty of %s densities: objective %.9g becomes %.9g, it should be %.9g: %s' % (kind, nm, J0, v, J0*fac, case))
                if nm in ('gen', 'gray') and amp == 1:
                    g = np.real(grad(f, 2)(a, b, eps))
                    w = np.where(ins, J0*dfac*4*(1 - 2*r)/(em - 1)/ins.sum(), 0)
                    ctx.check(np.max(np.abs(g - w)) <= 1e-9*np.max(np.abs(w)), lambda: '%s: derivative with respect to the permittivity, %s densities: %s' % (kind, nm, case))
        ctx.state(*[str(x) for x in case.values()], nm)
    ctx.check(np.array_equal(d, keep), 'the design region was modified: %s' % case)
    ctx.trace_ok()


def run(case, ctx):
    if case.get('kind') == 'large':
        return run_large(case, ctx)
    import autograd.numpy as npa
    from autograd import grad
    from angler.utils import Binarizer
    k, em, c = case['cells'], case['em'], case['c']
    cells = PLACES[case['place']][:k]
    des = np.zeros(SHAPE)
    des.ravel()[cells] = 1
    inside = des.astype(bool)
    d = {'f': des, 'b': inside, 'i': des.astype(int)}[case['dtype']]
    keep = d.copy()
    out = {'ones': np.ones(SHAPE), 'gray': 1 + (em - 1)*gen(SHAPE, 3), 'big': 20 + gen(SHAPE, 4)}[case['outside']]
    a, b = gen(SHAPE, 5) + 1j*gen(SHAPE, 6), gen(SHAPE, 7) - 0.5j
    bases = {'plain': lambda x, y, e: npa.sum(npa.abs(x)) + 2*npa.sum(npa.abs(y)), 'neg': lambda x, y, e: -3*npa.sum(npa.square(npa.abs(x)*npa.abs(y))),
             'eps': lambda x, y, e: npa.sum(npa.abs(x))*npa.sum(e*e)/100}
    B = Binarizer(d, em) if c == 1 else Binarizer(d, em, exp_const=c)
    for nm, base in bases.items():
        pen = {'density': B.density(base), 'density_exp': B.density_exp(base), 'smoothness': B.smoothness(base)}
        for rest in itertools.product(case['levels'], repeat=k - 1):
            r = np.array((case['first'],) + rest)
            eps = out.copy()
            eps.ravel()[cells] = 1 + (em - 1)*r
            ek = eps.copy()
            gray = np.mean(4*r*(1 - r))
            J0 = base(a, b, eps)
            for kind, f in pen.items():
                fac = 1 - gray if kind != 'density_exp' else np.exp(-c*gray)
                v = f(a, b, eps)
                ctx.op()
                ctx.check(abs(v - J0*fac) <= 1e-12*abs(J0), lambda: '%s penalty of the densities %s: objective %.9g becomes %.9g, it should be %.9g: %s' % (kind, r, J0, v, J0*fac, case))
                if set(r) <= {0, 1}:
                    ctx.check(abs(v - J0) <= 1e-12*abs(J0), lambda: '%s: a binary design is penalized: %s' % (kind, case))
                if set(r) == {0.5} and kind != 'density_exp':
                    ctx.check(abs(v) <= 1e-12*abs(J0), lambda: 'a uniformly half-filled design is worth %.3g: %s' % (v, case))
                # (at a binary design the exponential penalty has a kink: |mean|, the smoothness one at every binary cell)
                if nm != 'eps' and (kind == 'density' or gray > 0) and (kind != 'smoothness' or not set(r) & {0, 1}) and (k < 4 or rest[0] == case['levels'][-1]):
                    g = grad(f, 2)(a, b, eps)
                    w = np.zeros(SHAPE)
                    dg = 4*(1 - 2*r)/(em - 1)/k
                    w.ravel()[cells] = J0*(-dg if kind != 'density_exp' else -c*fac*dg)
                    ctx.check(np.max(np.abs(np.real(g) - w)) <= 1e-10*max(abs(J0), 1), lambda: '%s: derivative with respect to the permittivity, densities %s: %s' % (kind, r, case))
                    gx, g0 = grad(f, 0)(a, b, eps), grad(base, 0)(a, b, eps)
                    ctx.check(np.max(np.abs(gx - g0*fac)) <= 1e-10*max(np.max(np.abs(g0)), 1), lambda: '%s: derivative with respect to the first field: %s' % (kind, case))
                    ctx.op(None, 2)
            ctx.check(np.array_equal(eps, ek) and np.array_equal(d, keep), 'an input was modified: %s' % case)
            ctx.state(case['place'], case['outside'], em, c, nm, tuple(r))
            ctx.trace_ok()
