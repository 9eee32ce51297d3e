"""C12 the density filter is a weighted average"""
import itertools

import numpy as np

from mc import ref
from mc.util import *

RULE = ('every grid x design region x PML pair x radius; the filter of an Optimization is applied to every unit density (the whole '
        'matrix) and to generic, constant and extreme densities; compared with the reference filter, and the permittivity it leads to')
BOUND = {'quick': 'grids up to 16x15, radii 1..4, 6, 7; 3 grids up to 30x26, radii 5 and 10', 'thorough': 'grids up to 20x17, radii 1..6; grids up to 40x37, radii up to 15'}
ASSUMPTIONS = []

REGIONS = ['full', 'block', 'edge', 'checker', 'one', 'empty', 'bool', 'int', 'line', 'corner', 'F']


def design(kind, shape):
    d = np.zeros(shape)
    if kind == 'full':
        d[:] = 1
    elif kind == 'block':
        d[shape[0]//4:shape[0]//4 + 5, shape[1]//3:shape[1]//3 + 4] = 1
    elif kind == 'edge':
        d[-3:, :] = 1
    elif kind == 'checker':
        d[(np.add.outer(np.arange(shape[0]), np.arange(shape[1])) % 2) == 0] = 1
    elif kind == 'one':
        d[shape[0]//2, shape[1]//2] = 1
    elif kind == 'bool':
        return design('block', shape).astype(bool)
    elif kind == 'int':
        return design('edge', shape).astype(int)
    elif kind == 'line':
        d[:, shape[1]//2] = 1
    elif kind == 'corner':
        d[:2, :2] = 1
        d[-2:, -1:] = 1
    elif kind == 'F':
        return np.asfortranarray(design('block', shape))
    return d


def cases(tier):
    q = tier == 'quick'
    shapes = [(7, 6), (13, 12), (12, 9), (10, 1), (5, 5)]
    if not q:
        shapes += [(20, 17), (1, 14), (16, 11), (9, 15)]
    out = []
    for s, n, r, k in itertools.product(shapes, [(0, 0), (2, 2), (0, 1), (1, 0), (3, 0)], range(1, 5 if q else 7), REGIONS):
        if npml_ok(s, n):
            out.append(dict(shape=s, npml=n, R=r, region=k))
    for i, (s, n, r) in enumerate(itertools.product([(14, 13), (1, 11), (16, 12), (9, 9), (6, 15)], [(1, 3), (3, 1), (2, 1), (0, 2), (0, 4), (0, 0)], range(1, 8))):
        if npml_ok(s, n) and (not q or r in (1, 2, 6, 7)):
            for j in range(2 if q else 11):
                out.append(dict(shape=s, npml=n, R=r, region=REGIONS[(i + 3*j + i//11) % 11]))
    big = [((30, 26), (0, 0), 10, 'F'), ((30, 26), (2, 0), 5, 'edge'), ((21, 33), (0, 3), 10, 'full')]
    if not q:
        big += [((40, 37), (2, 3), r, k) for r, k in itertools.product([7, 10, 12], ['full', 'block'])] + [((24, 25), (0, 0), r, k) for r in (10, 15) for k in ('F', 'bool', 'line')]
    for s, n, r, k in big:
        out.append(dict(shape=s, npml=n, R=r, region=k))
    out.sort(key=lambda c: -c['R']*c['shape'][0]*c['shape'][1])
    return out


def run(case, ctx):
    from angler import Optimization
    from angler.filter import rho2rhot, get_W
    from angler.objective import Objective, obj_arg
    import autograd.numpy as npa
    shape, npml, R = tuple(case['shape']), tuple(case['npml']), case['R']
    des = design(case['region'], shape)
    keep = des.copy()
    sim = sim_of(OM, np.ones(shape), 0.1, npml, 'Ez')
    o = Optimization(Objective(lambda e: npa.sum(npa.abs(e)), [obj_arg('e')]), sim, des, eps_m=5.0, R=R)
    ctx.op('Optimization')
    ctx.check(np.array_equal(des, keep), 'the design region was modified')
    want = ref.filter_matrix(shape[0], shape[1], des, npml, R)
    n = shape[0]*shape[1]
    W2 = get_W(shape[0], shape[1], des, list(npml), **({} if R == 10 else dict(R=R)))
    inside = keep.astype(bool).ravel()
    for W, who in ((o.W, 'Optimization'), (W2, 'get_W')):
        got = np.empty((n, n))
        for k in range(n):
            e = np.zeros(n)
            e[k] = 1
            got[:, k] = np.asarray(rho2rhot(e.reshape(shape), W)).ravel()
            ctx.op('filter')
        err = np.abs(got - want)
        i, k = np.unravel_index(np.argmax(err), err.shape)
        ctx.check(err.max() < 1e-12, lambda: 'the weight of cell %s in the filtered cell %s is %.6g, not %.6g (%s): %s'
                  % (divmod(k, shape[1]), divmod(i, shape[1]), got[i, k], want[i, k], who, case))
        ctx.check(np.all(got >= 0) and np.all(np.abs(got.sum(1) - 1) < 1e-12), 'the weights do not sum to one: %s' % case)
        for name, r in (('zeros', np.zeros(shape)), ('ones', np.ones(shape)), ('half', np.full(shape, 0.5)), ('generic', gen(shape, 2)),
                        ('binary', (gen(shape, 4) > 0.5)*1.0)):
            k0 = r.copy()
            t = np.asarray(rho2rhot(r, W))
            ctx.op('filter %s' % name)
            ctx.state(shape, npml, R, case['region'], name)
            ctx.check(np.array_equal(r, k0), 'filtering modified the density')
            ctx.check(t.shape == shape and t.min() >= r.min() - 1e-12 and t.max() <= r.max() + 1e-12,
                      lambda: 'the filtered density leaves the range of the densities: %s' % case)
            ctx.check(np.allclose(t.ravel()[~inside], r.ravel()[~inside], rtol=0, atol=1e-14), 'filtering changed cells outside of the design region: %s' % case)
            ctx.check(np.max(np.abs(t.ravel() - want @ r.ravel())) < 1e-12, 'wrong filtered density: %s' % case)
    ctx.trace_ok()
