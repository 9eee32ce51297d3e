"""C13 the density-to-permittivity map is exact, monotone and differentiable"""
import itertools

import numpy as np

from mc import ref
from mc.util import *

RULE = ('every threshold x steepness x material, each on the whole grid of densities and for both implementations; the permittivity that '
        'an optimization assigns for a density, and the reported derivatives against the exact law and central differences')
BOUND = {'quick': '41 densities, 7 thresholds, 10 steepnesses, 5 materials', 'thorough': '401 densities, 15 thresholds, 25 steepnesses, 8 materials'}
ASSUMPTIONS = []


def cases(tier):
    q = tier == 'quick'
    etas = [0.5, 0.0, 1.0, 0.25, 0.75, 0.4, 0.01] if q else list(np.round(np.linspace(0, 1, 15), 4)) + [0.5]
    betas = [1e-9, 1e-6, 1e-3, 0.1, 1.0, 3.0, 10.0, 100.0, 500.0, 1e3]
    if not q:
        betas += [1e-7, 1e-4, 1e-2, 0.03, 0.3, 0.7, 2, 5, 7, 15, 20, 30, 50, 200, 300]
    mats = [6.0, 2.25, 12.0, 1.0001, -3.0] + ([] if q else [100.0, 0.5, 4.0])
    out = []
    for e, b in itertools.product(etas, betas):
        out.append(dict(kind='proj', eta=e, beta=b))
    for m in mats + [[6.0, -0.3]]:
        out.append(dict(kind='mat', eps_m=m))
    for e, b, m, r, k in itertools.product([0.5, 0.3], [1e-9, 2.0, 30.0], [6.0, 2.0], [None, 1, 2, 3], ['block', 'full', 'edge', 'bool', 'checker']):
        out.append(dict(kind='opt', eta=e, beta=b, eps_m=m, R=r, region=k))
    for k in ['block', 'full', 'edge']:     # nothing given: a linear map up to a permittivity of 5, no filter
        out.append(dict(kind='opt', eta=0.5, beta=1e-9, eps_m=5, R=None, region=k, default=True))
    return out


def grid(tier):
    n = 41 if tier == 'quick' else 401
    r = np.linspace(0, 1, n)
    return r.reshape(1, -1) if n % 2 == 0 else r.reshape(-1, 1)


def run(case, ctx):
    from angler import filter as fl
    from angler import utils as ut
    if case['kind'] == 'proj':
        eta, beta = case['eta'], case['beta']
        rho = grid(ctx.tier)
        keep = rho.copy()
        want = ref.project(rho, eta, beta)
        dwant = ref.dproject(rho, eta, beta)
        for name, f, df in (('filter', fl.rhot2rhob, fl.drhob_drhot), ('utils', ut.rho_bar, ut.drho_bar_drho)):
            p = np.asarray(f(rho, eta=eta, beta=beta))
            d = np.asarray(df(rho, eta=eta, beta=beta))
            ctx.op(name, 2)
            ctx.state(eta, beta, name)
            # for a tiny steepness the ratio of two small numbers loses digits
            tol = 1e-10 if beta > 1e-5 else 1e-6
            ctx.check(p.shape == rho.shape and np.max(np.abs(p - want)) < tol, lambda: '%s: projected densities are off by %.3g, %s' % (name, np.max(np.abs(p - want)), case))
            ctx.check(abs(p.ravel()[0]) < tol and abs(p.ravel()[-1] - 1) < tol, '%s: 0 and 1 are not fixed, %s' % (name, case))
            ctx.check(np.all(np.diff(p.ravel()) >= -1e-12), '%s: not monotone, %s' % (name, case))
            ctx.check(d.size == rho.size and np.max(np.abs(d.ravel() - dwant.ravel())) <= 1e-8*max(1, np.max(dwant)),
                      lambda: '%s: the derivative of the projection is off by %.3g, %s' % (name, np.max(np.abs(d.ravel() - dwant.ravel())), case))
            ctx.check(np.array_equal(rho, keep), 'the densities were modified')
            ctx.trace_ok()
        if eta == 0.5:
            p = np.asarray(fl.rhot2rhob(np.full((2, 2), 0.5), eta=eta, beta=beta))
            ctx.check(np.max(np.abs(p - 0.5)) < 1e-6, 'the threshold moves')
    elif case['kind'] == 'mat':
        em = complex(*case['eps_m']) if isinstance(case['eps_m'], (list, tuple)) else case['eps_m']
        rho = grid(ctx.tier)
        for name, to, back, der in (('filter', fl.rhob2eps, fl.eps2rho, lambda: fl.deps_drhob(rho, em)),
                                    ('utils', ut.rho_bar2eps, ut.eps2rho_bar, lambda: ut.deps_drho_bar(to(rho, em), em))):
            e = to(rho, em)
            ctx.op(name, 3)
            ctx.state(str(em), name)
            ctx.check(np.max(np.abs(e - (1 + rho*(em - 1)))) < 1e-12*max(1, abs(em)), '%s: wrong permittivity of a density, %s' % (name, case))
            ctx.check(np.max(np.abs(back(e, em) - rho)) < 1e-9, '%s: permittivity to density is not the inverse, %s' % (name, case))
            ctx.check(np.max(np.abs(np.asarray(der()) - (em - 1))) < 1e-12*abs(em), '%s: wrong derivative of the permittivity, %s' % (name, case))
            ctx.trace_ok()
    else:
        run_opt(case, ctx)


def run_opt(case, ctx):
    """the whole chain as the optimizer uses it, and rho2eps"""
    import autograd.numpy as npa
    from angler import Optimization
    from angler import filter as fl
    from angler.objective import Objective, obj_arg
    from mc.checks.c12 import design
    shape, npml = (11, 9), (1, 0)
    des = design(case['region'], shape)
    eta, beta, em, R = case['eta'], case['beta'], case['eps_m'], case['R']
    W = np.eye(99) if R is None else ref.filter_matrix(11, 9, des, npml, R)
    for name, rho in (('gen', gen(shape, 3)), ('bin', (gen(shape, 4) > 0.4)*1.0), ('zeros', np.zeros(shape)), ('ones', np.ones(shape))):
        bg = eps_of('pt', shape)
        sim = sim_of(OM, bg.copy(), 0.1, npml, 'Ez')
        sim.src = src_of('mid', shape)
        o = Optimization(Objective(lambda e: npa.sum(npa.square(npa.abs(e))), [obj_arg('e')]), sim, des, **({} if case.get('default') else dict(eps_m=em, R=R, eta=eta, beta=beta)))
        want = 1 + (em - 1)*ref.project((W @ rho.ravel()).reshape(shape), eta, beta)
        got = np.asarray(fl.rho2eps(rho, em, o.W, eta=eta, beta=beta))
        tol = 1e-9 if beta > 1e-5 else 1e-5
        ctx.check(np.max(np.abs(got - want)) < tol, lambda: 'wrong permittivity of the density %s: %s' % (name, case))
        # through the optimizer: a run without steps assigns the permittivity of the density
        sim.rho = rho.copy()
        o.run(method='GD', Nsteps=0)
        full = ref.rho_to_eps(rho, des, em, W, eta, beta)
        ctx.op('run')
        ctx.check(np.max(np.abs(sim.eps_r - full)) < tol, lambda: 'an optimization assigns another permittivity (off by %.3g) to the density %s: %s'
                  % (np.max(np.abs(sim.eps_r - full)), name, case))
        ctx.state(case['eta'], beta, em, R, case['region'], name)
        ctx.trace_ok()
