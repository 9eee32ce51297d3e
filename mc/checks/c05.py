"""C05 the length unit L0 is only a unit"""
import itertools

import numpy as np

from mc.util import *

RULE = ('every length scale x polarization x grid x PML pair x material: linear fields, power flux, mode source and '
        'its input power, nonlinear fields and index shift, adjoint gradients of every component (linear and Kerr) '
        'are computed in both units and compared')
BOUND = {'quick': '7 length scales, 3 grids, 4 materials', 'thorough': '11 length scales, 6 grids, 8 materials'}
ASSUMPTIONS = ['sources scale with L0^2 (A/L0^2), fields with L0 (V/L0, A/L0), line flux with L0']


def cases(tier):
    q = tier == 'quick'
    L = [1e-9, 1e-8, 2.5e-7, 1e-6, 1e-3, 1e-2, 1.0]
    if not q:
        L += [1e-10, 3e-5, 0.1, 2.54e-2]
    shapes = [((14, 13), (3, 2)), ((11, 16), (0, 3)), ((15, 15), (4, 3))]
    kinds = ['slabx', 'gen', 'lossy', 'pt']
    if not q:
        shapes += [((10, 10), (2, 2)), ((22, 14), (3, 0)), ((13, 15), (1, 2))]
        kinds += ['slaby', 'check', 'T', 'F']
    out = []
    for i, (k, p, (s, n)) in enumerate(itertools.product(kinds, ('Ez', 'Hz'), shapes)):
        for l in L:     # v: Kerr coefficient and filter
            out.append(dict(L0=l, shape=s, npml=n, pol=p, eps=k, v=(i + i//3) % 3))
    return out


def observe(case, L0, ctx):
    """everything a user can measure, in units where it must not depend on L0"""
    import autograd.numpy as npa
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    u = L0/1e-6
    shape, npml, pol = tuple(case['shape']), tuple(case['npml']), case['pol']
    eps = eps_of(case['eps'], shape)
    Nx, Ny = shape
    dl = 0.1/u
    out = {}
    s = sim_of(OM, eps.copy(), dl, npml, pol, L0)
    src = src_of('mid', shape)*u**2
    s.src = src
    for nm, f in zip(NAMES[pol], s.solve_fields()):
        out[nm] = np.asarray(f)/u
    for d, c, w in (('x', [Nx - npml[0] - 3, Ny//2], 6), ('y', [Nx//2, Ny - npml[1] - 3], 4), ('x', [npml[0] + 1, Ny//2], 5)):
        out['flux%s%s' % (d, c)] = np.array([s.flux_probe(d, c, w)])/u
    ctx.op('linear', 5)
    # mode source
    m = sim_of(OM, eps_of('slabx', shape), dl, npml, pol, L0)
    m.add_mode(2.2, 'x', [npml[0] + 2, Ny//2], max(6, Ny - 2*npml[1] - 2), scale=3*u**2)
    m.setup_modes()
    out['mode'] = np.array(m.src)/u**2
    out['W_in'] = np.array([m.W_in])/u
    ctx.op('mode', 3)
    des = np.zeros(shape)
    des[Nx//2 - 1:Nx//2 + 3, Ny//2 - 2:Ny//2 + 2] = 1
    P = gen(shape, 8)*(np.add.outer(np.arange(Nx), np.arange(Ny)) % 3 == 0)
    if pol == 'Ez':
        n = sim_of(OM, eps.copy(), dl, npml, pol, L0)
        n.src = src*60
        reg = np.zeros(shape)
        reg[Nx//2 - 2:Nx//2 + 3, Ny//2 - 2:Ny//2 + 2] = 1
        n.add_nl([1e-19, 1e-19 - 4e-20j, -6e-20][case['v']], reg)
        n.add_nl(2e-19, 1 - reg, eps_scale=True, eps_max=6)
        dn = n.compute_index_shift()
        out['dn'] = np.array(dn)
        for nm in NAMES[pol]:
            out['nl' + nm] = np.asarray(n.fields_nl[nm])/u
        ctx.op('nonlinear', 4)
    comps = NAMES[pol]
    jobs = [(c, False) for c in comps] + ([(c, True) for c in comps] if pol == 'Ez' else [])
    for c, nl in jobs:
        g = sim_of(OM, eps.copy(), dl, npml, pol, L0)
        g.src = src*60
        g.init_design_region(des, 6.0, style='halfway')
        if nl:
            g.add_nl([1e-19, 1e-19 - 4e-20j, -6e-20][case['v']], des, eps_scale=case['v'] != 1, eps_max=6.0)
        o = Optimization(Objective(lambda f: npa.sum(npa.square(npa.abs(f))*P), [obj_arg('a', component=c, nl=nl)]),
                         g, des, eps_m=6.0, **[dict(), dict(R=2, eta=0.4, beta=4.0), dict(R=1)][case['v']])
        J = o.compute_J(g)
        out['J%s%d' % (c, nl)] = np.array([J])/u**2
        out['dJ%s%d' % (c, nl)] = np.array(o.compute_dJ(g, des))/u**2
        ctx.op('gradient %s' % c, 2)
    return out


_base = {}


def run(case, ctx):
    key = (tuple(case['shape']), tuple(case['npml']), case['pol'], case['eps'], case['v'])
    if key not in _base:
        _base.clear()
        _base[key] = observe(case, 1e-6, ctx)
    base = _base[key]
    got = observe(case, case['L0'], ctx)
    for k in base:
        ctx.state(key, case['L0'], k)
        tol = 1e-6 if k in ('mode', 'W_in') or k.startswith(('nl', 'J', 'dJ', 'dn')) else 1e-7
        s = np.max(np.abs(base[k]))
        if k.startswith('flux'):    # a flux may cancel: compare with the flux of the largest fields
            z, t = NAMES[case['pol']][2], NAMES[case['pol']][:2]
            s = 0.1*np.max(np.abs(base[z]))*max(np.max(np.abs(base[t[0]])), np.max(np.abs(base[t[1]])))*0.1
        err = np.max(np.abs(got[k] - base[k]))
        ctx.check(s > 0 and err <= tol*s, lambda: '%s depends on the length unit: L0=%g gives a relative difference '
                  'of %.3g to L0=1e-6 (%s)' % (k, case['L0'], err/s if s else np.inf, case))
        ctx.trace_ok()
