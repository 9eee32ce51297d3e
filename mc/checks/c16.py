"""C16 gradients of Kerr and mixed objectives are exact"""
import itertools

import numpy as np

from mc import ref, grads
from mc.util import *
from mc.checks import c14
from mc.checks.c07 import regions

RULE = ('every list of one to three different arguments out of {Ez, Hx, Hy} x {linear, nonlinear} x objective form, paired with grids, PMLs, '
        'Kerr region sets (scaled with the material or not), strengths, design regions, filters, projections and backgrounds; the objective and its gradient in '
        'EVERY design cell against the exact derivative of the converged reference problem')
BOUND = {'quick': '41 argument sets x 3 pairings, 5 region sets x 4 strengths x 4 backgrounds x 3 components, 11 grids x 5 filters x 7 design regions', 'thorough': 'all ordered lists x 8 pairings x strengths, 7 region sets'}
ASSUMPTIONS = ['strengths for which the default solver contracts (those where the reference fixed-point iteration converges to the Newton solution)']

ARGS = [(c, n) for n in (True, False) for c in ('Ez', 'Hx', 'Hy')]
KERR = ['all', 'scaled', 'two', 'neg', 'scaled2', 'grade', 'bool', 'block', 'order', 'cplx', 'cplx2', 'four']
GRIDS = [((9, 8), (2, 2)), ((8, 10), (0, 3)), ((11, 7), (3, 0)), ((7, 6), (0, 0)), ((12, 1), (2, 0)), ((9, 9), (2, 0)), ((13, 11), (3, 2)), ((9, 10), (1, 2)), ((1, 10), (0, 2)), ((8, 9), (2, 3)), ((10, 10), (1, 1))]
STR = [0.05, 0.3, 1e-3, 0.0]


def cases(tier):
    q = tier == 'quick'
    out = []
    n = 0

    def add(args, form, **kw):
        nonlocal n
        n += 1
        g = GRIDS[n % len(GRIDS)]
        d = dict(shape=g[0], npml=g[1], args=args, form=form, kerr=KERR[(n + 3*(n//7)) % 12], strength=STR[n % 3],
                 region=['block', 'edge', 'bool', 'full', 'checker', 'corner', 'int'][(n + n//7) % 7],
                 filt=c14.FILT[(n + n//5) % 5], back=['ones', 'gen', 'lossy', 'pt'][(n + n//4) % 4], em=[6.0, 2.5][n % 2])
        d.update(kw)
        out.append(d)

    for a in ARGS:
        for f in grads.FORMS1:
            add([a], f)
    sets = [c for k in (2, 3) for c in (itertools.combinations(ARGS, k) if q else itertools.permutations(ARGS, k))]
    for c in sets:
        for f in grads.FORMSN:
            for r in range(3 if q else 8):
                add(list(c)[::-1 if r % 2 else 1], f)
    for k, s, b, c in itertools.product(KERR[:5] if q else KERR, STR, ['ones', 'gen', 'lossy', 'pt'], ['Ez', 'Hx', 'Hy']):
        add([(c, True)], 'int', kerr=k, strength=s, back=b)
    for i, (ph, em, c) in enumerate(itertools.product(range(6), [6.0, 12.1, 0.4, -2.3, [5.0, -0.7], 3], ['Ez', 'Hx', 'Hy'])):
        for j in range(5 if q else 25):
            add([(c, True)], 'int', em=em, phys=ph, src=['gen', 'real', 'int', 'F', 'cell5', 'imag'][(i + i//6 + 3*j) % 6], shape=GRIDS[(0, 1, 2, 7, 9)[(i + j) % 5]][0], npml=GRIDS[(0, 1, 2, 7, 9)[(i + j) % 5]][1])
    for i, (rk, f, c) in enumerate(itertools.product(['half', 'bin', 'bounds', 'gen', 'zero', 'one'], c14.FILT + c14.STEEP, ['Ez', 'Hx', 'Hy'])):
        if rk == 'gen' or f[2] < 10:
            add([(c, True)] if i % 3 else [(c, True), ('Ez', False)], 'int' if i % 3 else 'sum', rho=rk, filt=f, amp=[1, 1e3, 1e-4][i//3 % 3], phys=[0, 1, 6][i//2 % 3], extra=[None, 'mode', 'shift'][i//4 % 3],
                shape=[(1, 11), (9, 8), (12, 9), (10, 10)][i % 4], npml=[(0, 2), (2, 2), (1, 0), (0, 1)][i % 4])
    for i, (g, f, r) in enumerate(itertools.product(GRIDS, c14.FILT, ['block', 'edge', 'bool', 'full', 'checker', 'corner', 'int'])):
        for c in ['Ez', 'Hx', 'Hy'][i % 3::3] if q else ['Ez', 'Hx', 'Hy']:
            add([(c, True)] if q else [(c, True), (c, False)], 'int' if q else 'sum', shape=g[0], npml=g[1], filt=f, region=r)
    return out


def scale_P(form, args, prob, shape):
    F = [prob.field(c, nl) for c, nl in args]
    s = [max(np.max(np.abs(f)), 1e-300) for f in F]
    P = []
    for i in range(len(F)):
        w = (gen(shape, 9 + i) - 0.3)*(np.add.outer((1 + i)*np.arange(shape[0]), np.arange(shape[1])) % 3 == 0)
        if form in ('log', 'quart', 'prod'):
            w = np.abs(w)
        if form == 'overlap':
            d = s[0]*s[1] if i < 2 else s[i]
        elif form in ('re', 'im', 'abs'):
            d = s[i]
        elif form == 'quart':
            d = s[i]**4
        else:
            d = s[i]**2
        P.append(w/d)
    return P


def run(case, ctx, pol='Ez'):
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    shape, npml, des, inside, em, R, eta, beta, rho, W, eps, src = c14.setup(case, pol)
    om, dl, L0 = PHYS[case.get('phys', 0)]
    m = ref.Model(om, eps, dl, npml, pol, L0)
    args = [tuple(a) for a in case['args']]
    kerr, regs = None, []
    if any(nl for _, nl in args):
        E0 = m.solve_sparse(src)[2]
        chi = case['strength']*L0**2/3/np.max(np.abs(E0))**2
        for _ in range(40):     # weaken until the fixed-point iteration contracts
            regs = regions(case['kerr'], shape, chi, em)
            kerr = ref.Kerr(regs, L0)
            bE, bok, bst, _ = ref.born(m, kerr, src, itmax=18, tol=1e-11)
            if bok:
                break
            chi /= 2
        ctx.check(bok, 'internal: no strength found for %s' % case)
    prob = grads.Problem(m, src, kerr)
    if kerr is not None and not (prob.ok and rel(prob.nl[2], bE) < 1e-8):
        raise AssertionError('the reference iterations disagree')
    # single-cell axes have identically vanishing fields: replace them
    args = [(c if np.any(prob.field(c, nl)) else pol, nl) for c, nl in args]
    P = scale_P(case['form'], args, prob, shape)
    want, J, F = grads.gradient(prob, args, case['form'], P, rho, des, em, W, eta, beta)
    sim = sim_of(om, eps.copy(), dl, npml, pol, L0)
    sim.src = src.copy()
    sim.rho = rho.copy()
    for c, g, e in regs:
        sim.add_nl(c, g, eps_scale=e is not None, eps_max=e)
    al = [obj_arg('a%d' % i, component=c, nl=nl) for i, (c, nl) in enumerate(args)]
    o = Optimization(Objective(grads.make_J(case['form'], len(args), P), al), sim, des, eps_m=em, R=R, eta=eta, beta=beta, **c14.extras(case, sim))
    gJ = o.compute_J(sim)
    g = np.asarray(o.compute_dJ(sim, des))
    ctx.op('J')
    ctx.op('dJ')
    S = sum(abs(grads.value('int', [f], [np.abs(p)])) for f, p in zip(F, P)) if case['form'] == 'sum' else abs(J)
    ctx.check(abs(gJ - J) <= 1e-7*max(S, abs(J)) + 1e-9, lambda: 'objective %.12g, not %.12g: %s' % (gJ, J, case))
    c14.compare(ctx, case, g, want, J, J, inside, R, tol=5e-6)
    # the gradient is still the same when asked for again (fields and Kerr state now belong to this structure)
    g2 = np.asarray(o.compute_dJ(sim, des))
    ctx.op('dJ')
    s = np.max(np.abs(want))
    ctx.check(np.max(np.abs(g2 - g)) <= 1e-6*s, lambda: 'asking for the gradient again gives another gradient: %s' % case)
    ctx.state(pol, *[str(v) for v in case.values()])
    ctx.trace_ok()


warm = warm
