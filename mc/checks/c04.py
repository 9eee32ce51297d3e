"""C04 linearity in the source and reciprocity"""
import itertools

import numpy as np

from mc.util import *

RULE = ('every polarization x grid x PML pair x material; in each, the response to EVERY unit source is computed on '
        'the real code (the complete Green matrix), then every pair is tested for reciprocity and superpositions '
        'and scalings are compared with the Green matrix')
BOUND = {'quick': 'grids up to 6x7 (all cells; some of 17x12, 30x1), 8-12 materials, 6 scales', 'thorough': 'grids up to 12x11 (all cells), 12 materials'}
ASSUMPTIONS = ['reciprocity is stated for sources and observers outside of the PML']


def cases(tier):
    shapes = [(1, 4), (5, 1), (3, 4), (5, 5), (6, 7)]
    npmls = [(0, 0), (2, 2), (0, 1), (2, 0), (1, 2)]
    kinds = ['vac', 'slabx', 'gen', 'lossy', 'metal', 'T', 'int', 'F']
    if tier != 'quick':
        shapes += [(2, 2), (8, 3), (9, 8), (12, 11)]
        npmls += [(3, 3), (1, 1), (4, 2), (0, 3)]
        kinds += ['pt', 'slaby', 'check', 'view']
    out = [dict(shape=s, npml=n, pol=p, eps=k) for s in shapes for n in npmls if npml_ok(s, n) for p in ('Ez', 'Hz') for k in kinds]
    for ph, (s, n), p, k in itertools.product(range(1, 6), [((5, 6), (1, 2)), ((6, 5), (0, 2))], ('Ez', 'Hz'), ['gen', 'lossy', 'gain', 'high', 'low', 'f32']):
        out.append(dict(shape=s, npml=n, pol=p, eps=k, phys=ph))
    for (s, n), p, k in itertools.product([((30, 1), (10, 0)), ((2, 29), (0, 12)), ((17, 12), (6, 3))], ('Ez', 'Hz'), ['gen', 'lossy', 'high']):
        out.append(dict(shape=s, npml=n, pol=p, eps=k, phys=0))
    return out


def run(case, ctx):
    shape, npml, pol = tuple(case['shape']), tuple(case['npml']), case['pol']
    eps = eps_of(case['eps'], shape)
    if 0 in npml or 'phys' in case:
        eps = eps - (0.1j if case['eps'] != 'gain' else 0.06j)        # away from the resonances of a closed lossless box
    n = int(np.prod(shape))
    om, dl, L0 = PHYS[case.get('phys', 0)]
    sim = sim_of(om, eps, dl, npml, pol, L0)
    ctx.op()

    def go(src):
        sim.src = src
        ctx.op()
        return np.array([np.asarray(f).astype(complex) for f in sim.solve_fields()])
    G = np.array([go(src_of('cell%d' % k, shape)) for k in range(n)])       # n,3,Nx,Ny
    for k in range(n):
        ctx.state(shape, npml, pol, case['eps'], k)
    scale = [np.max(np.abs(G[:, c])) for c in range(3)]

    def close(got, want, name, tol=1e-8):
        for c in range(3):
            s = max(np.max(np.abs(want[c])), 1e-6*scale[c]*np.max(np.abs(want[2]))/scale[2])
            err = np.max(np.abs(got[c] - want[c]))
            ctx.check(err <= tol*s, lambda: '%s: component %s off by %.3g of its size (%s)'
                      % (name, 'xyz'[c], err/s if s else np.inf, case))
    # reciprocity over all pairs outside of the PML
    inside = np.zeros(shape, bool)
    inside[npml[0]:shape[0] - npml[0], npml[1]:shape[1] - npml[1]] = True
    idx = np.flatnonzero(inside.ravel())
    g = G[:, 2].reshape(n, n)[np.ix_(idx, idx)]
    bad = np.abs(g - g.T)
    ctx.check(np.max(bad) < 1e-8*np.max(np.abs(g)), lambda: 'reciprocity violated: G(a,b) and G(b,a) differ by %.3g '
              'of the largest response, cells %s (%s)' % (np.max(bad)/np.max(np.abs(g)),
                                                          np.unravel_index(np.argmax(bad), bad.shape), case))
    ctx.trace_ok(len(idx)*(len(idx) - 1)//2)
    # superposition
    for sk, tol in (('gen', 1e-8), ('real', 1e-8), ('imag', 1e-8), ('int', 1e-8), ('F', 1e-8), ('view', 1e-8), ('c64', 1e-6), ('tinyim', 1e-8), ('tinyre', 1e-8), ('spread', 1e-8)):
        src = src_of(sk, shape)
        close(go(src), np.tensordot(src.ravel().astype(complex), G, 1), 'superposition ' + sk, tol)
        ctx.trace_ok()
    # scaling, over many orders of magnitude and phases
    base_src = src_of('gen', shape)
    base = go(base_src)
    for a in (1e-30, 1e-12j, -1, 1j, 3 - 4j, 1e8, -1e30j, 1 + 1e-6j, 1e-6 - 1j, 1e-30 + 1e-36j):
        close(go(a*base_src), a*base, 'scaling by %s' % a)
        ctx.trace_ok()
    # two cells at a time
    for k in range(0, n - 1):
        s2 = src_of('cell%d' % k, shape)*2 - 1j*src_of('cell%d' % (n - 1 - k), shape)
        close(go(s2), 2*G[k] - 1j*G[n - 1 - k], 'pair of sources')
    ctx.check(np.array_equal(go(base_src), base), 'the same source gives different fields the second time (%s)' % case)
