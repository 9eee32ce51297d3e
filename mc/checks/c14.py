"""C14 gradients of Ez-polarized linear objectives are exact"""
import itertools

import numpy as np

from mc import ref, grads
from mc.util import *
from mc.checks.c12 import design

POL = 'Ez'
RULE = ('every grid and PML pair x design region x filter radius x projection x background x component x objective form; objective value '
        'and the gradient in EVERY design cell are compared with the exact derivative of the reference model; then the derivative check '
        'that angler offers is run and its two columns compared')
BOUND = {'quick': '12 grids, 9 design regions, 5 filter/projection pairs, 3 components, 7 forms (pairwise complete), all ordered lists of 2-3 components',
         'thorough': '17 grids, 9 design regions, full product of all axes but the background'}
ASSUMPTIONS = ['relative tolerance 5e-6 of the largest entry of the gradient']

GRIDS = [((9, 8), (2, 2)), ((8, 10), (0, 3)), ((11, 7), (3, 0)), ((6, 7), (0, 0)), ((9, 13), (0, 2)), ((12, 1), (2, 0)), ((13, 12), (3, 2)), ((1, 11), (0, 2)), ((10, 11), (2, 3)), ((14, 9), (1, 1)), ((7, 7), (1, 2)), ((10, 12), (0, 0))]
GRIDS_T = GRIDS + [((16, 15), (3, 3)), ((21, 10), (5, 0)), ((5, 5), (0, 0)), ((20, 19), (2, 4)), ((2, 9), (0, 2))]
REGIONS = ['block', 'edge', 'corner', 'bool', 'int', 'line', 'checker', 'one', 'full']
FILT = [(None, 0.5, 1e-9), (None, 0.5, 5.0), (2, 0.5, 1e-9), (1, 0.35, 8.0), (3, 0.5, 2.0)]
STEEP = [(None, 0.5, 40.0), (2, 0.45, 100.0)]
BACK = ['ones', 'gen', 'lossy', 'pt']


def cases(tier):
    comps = {'Ez': ['Ez', 'Hx', 'Hy'], 'Hz': ['Hz', 'Ex', 'Ey']}[POL]
    forms = list(grads.FORMS1)
    out = []
    GRIDS = globals()['GRIDS' if tier == 'quick' else 'GRIDS_T']
    ng, nr = len(GRIDS), len(REGIONS)
    n = 0
    for (s, npml), r, f in itertools.product(GRIDS[:ng], REGIONS[:nr], FILT):
        if tier == 'quick':
            for i, c in enumerate(comps):
                n += 1
                out.append(dict(shape=s, npml=npml, region=r, filt=f, back=BACK[n % 4], comp=c, form=forms[(n + i) % len(forms)], em=[6.0, 2.5][n % 2]))
        else:
            for c, fm in itertools.product(comps, forms):
                n += 1
                out.append(dict(shape=s, npml=npml, region=r, filt=f, back=BACK[(n + n//7) % 4], comp=c, form=fm, em=[6.0, 2.5, 12.0][n % 3]))
    for k, c, fm in itertools.product(BACK, comps, forms):
        out.append(dict(shape=[9, 10], npml=[2, 1], region='block', filt=FILT[3], back=k, comp=c, form=fm, em=6.0))
    for i, (r, f, c) in enumerate(itertools.product(REGIONS[:nr], FILT, comps)):      # square domains
        out.append(dict(shape=[9, 9], npml=[[2, 2], [1, 2], [0, 0]][i % 3], region=r, filt=f, back=BACK[(i + i//4) % 4], comp=c, form=forms[i % len(forms)], em=6.0))
    # other scales, materials and sources
    for i, (ph, em, c) in enumerate(itertools.product(range(6), [6.0, 12.1, 0.4, -2.0, [5.0, -0.7], 3], comps)):
        for j in range(6 if tier == 'quick' else 40):
            out.append(dict(shape=GRIDS[(i + j) % 7][0], npml=GRIDS[(i + j) % 7][1], region=REGIONS[(i + 3*j) % nr], filt=FILT[(i + i//6 + j) % 5], back=BACK[(i + i//4 + j) % 4], comp=c,
                            form=forms[(i + i//7 + j) % len(forms)], em=em, phys=ph, src=['gen', 'real', 'int', 'F', 'cell7', 'imag'][(i + i//6 + 3*j) % 6]))
    # designs at the limits of the density, steep projections, weak and strong sources, things that must not matter
    for i, (rk, f, x) in enumerate(itertools.product(['half', 'bin', 'bounds', 'gen', 'zero', 'one'], FILT + STEEP, [None, 'nl', 'mode', 'shift'])):
        if rk != 'gen' and f[2] > 10:
            continue        # flat projection: nothing but rounding
        for c in comps if tier != 'quick' else comps[i % 3:i % 3 + 1]:
            out.append(dict(shape=GRIDS[i % ng][0], npml=GRIDS[i % ng][1], region=REGIONS[(i + i//ng) % nr], filt=f, back=['ones', 'gen', 'uni', 'ones', 'lossy'][(i//2) % 5], comp=c, form=forms[(i + i//7) % len(forms)],
                            em=[6.0, 2.5, 12.0][i//3 % 3], rho=rk, amp=[1, 1e4, 1e-5][i//4 % 3], extra=x, phys=[0, 1, 6][i//5 % 3]))
    # objectives of several linear fields
    n = 0
    for k in (2, 3):
        for cs, fm, (s, npml) in itertools.product(itertools.permutations(comps, k), grads.FORMSN, GRIDS[:ng]):
            n += 1
            out.append(dict(shape=s, npml=npml, region=REGIONS[n % nr], filt=FILT[n % 5], back=BACK[n % 4], args=[(c, False) for c in cs], form=fm, em=6.0))
    return out


DENS = {'gen': lambda s: gen(s, 7), 'half': lambda s: np.full(s, 0.5), 'bin': lambda s: 1.0*(gen(s, 7) > 0.5), 'bounds': lambda s: np.clip(2*gen(s, 7) - 0.5, 0, 1),
        'zero': lambda s: np.zeros(s), 'one': lambda s: np.ones(s)}


def extras(case, sim):
    """what has no influence on linear fields and their gradients"""
    if case.get('extra') == 'nl':
        sim.add_nl(1e-19, np.ones(sim.eps_r.shape), eps_scale=True, eps_max=5.0)
        sim.add_nl(-2e-19, gen(sim.eps_r.shape, 3))
    elif case.get('extra') == 'mode':
        sim.add_mode(2.0, 'x', [sim.Nx//2, sim.Ny//2], 3)
    return dict(max_ind_shift=1e-3) if case.get('extra') == 'shift' else {}


def setup(case, pol=None):
    pol = pol or POL
    shape, npml = tuple(case['shape']), tuple(case['npml'])
    des = design(case['region'], shape)
    inside = des.astype(bool)
    em = case['em'] if not isinstance(case['em'], (list, tuple)) else complex(*case['em'])
    R, eta, beta = case['filt']
    back = {'ones': lambda: np.ones(shape), 'gen': lambda: 1 + 3*gen(shape, 5), 'lossy': lambda: 1 + 3*gen(shape, 5) - 0.3j*gen(shape, 6),
            'pt': lambda: eps_of('pt', shape), 'uni': lambda: np.full(shape, 2.25)}[case['back']]()
    if npml == (0, 0) or pol == 'Hz' and (min(npml) == 0 or np.real(em) < 1):
        back = back - 0.2j      # away from resonances
    rho = (back - 1)/(em - 1)
    rho[inside] = DENS[case.get('rho', 'gen')](shape)[inside]
    W = np.eye(rho.size) if R is None else ref.filter_matrix(shape[0], shape[1], des, npml, R)
    eps = ref.rho_to_eps(rho, des, em, W, eta, beta)
    src = src_of('mid', shape)*30 + 3*src_of('line', shape) if 'src' not in case else src_of(case['src'], shape)*7
    src = src*case.get('amp', 1)
    return shape, npml, des, inside, em, R, eta, beta, rho, W, eps, src


def run(case, ctx, pol=None):
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    pol = pol or POL
    if 'args' in case:
        from mc.checks import c16
        return c16.run(case, ctx, pol)
    shape, npml, des, inside, em, R, eta, beta, rho, W, eps, src = setup(case, pol)
    om, dl, L0 = PHYS[case.get('phys', 0)]
    m = ref.Model(om, eps, dl, npml, pol, L0)
    prob = grads.Problem(m, src)
    P = [(gen(shape, 9) - 0.3)*(np.add.outer(np.arange(shape[0]), np.arange(shape[1])) % 3 == 0)]
    if case['form'] in ('log', 'quart'):
        P[0] = np.abs(P[0])
    args = [(case['comp'], False)]
    f = prob.field(case['comp'], False)
    if min(np.max(np.abs(np.real(f))), np.max(np.abs(np.imag(f)))) <= 1e-6*np.max(np.abs(f)) and (case['form'] in ('re', 'im') or not np.any(f)):
        case = dict(case, form='square')        # the field, or its real part, vanishes identically
    want, J, F = grads.gradient(prob, args, case['form'], P, rho, des, em, W, eta, beta)
    sim = sim_of(om, eps.copy(), dl, npml, pol, L0)
    sim.src = src.copy()
    sim.rho = rho.copy()
    o = Optimization(Objective(grads.make_J(case['form'], 1, P), [obj_arg('a', component=case['comp'])]), sim, des, eps_m=em, R=R, eta=eta, beta=beta, **extras(case, sim))
    gJ = o.compute_J(sim)
    g = np.asarray(o.compute_dJ(sim, des))
    ctx.op('J')
    ctx.op('dJ')
    # where the projection is flat its slope is a difference of nearly equal numbers
    slope = np.max(np.abs(ref.dproject(W.dot(rho.ravel()), eta, beta)[inside.ravel()]))/beta if inside.any() else 1
    if slope < 1e-6:
        ctx.check(abs(gJ - J) <= 1e-7*abs(J) and np.all(np.isfinite(g)), lambda: 'objective %.12g, not %.12g: %s' % (gJ, J, case))
    else:
        compare(ctx, case, g, want, gJ, J, inside, R, 5e-6 + (1e-10/slope if beta > 10 else 0))
    # the derivative check of angler itself (central cell differences of the real code at random design cells)
    if case['back'] != 'lossy' and (ctx.tier != 'quick' or case['region'] == 'block'):
        d = 1e-6
        a, n = o.check_deriv(Npts=2, d_rho=d)
        ctx.op('check_deriv')
        s = np.max(np.abs(want[inside]))
        ctx.check(len(a) == len(n) == 2 and np.max(np.abs(np.array(a) - np.array(n))) <= 2e-3*s + 1e-9*abs(J)/d,
                  lambda: 'the derivative check reports %s against %s: %s' % (a, n, case))
    ctx.state(pol, *[str(v) for v in case.values()])
    ctx.trace_ok()


def compare(ctx, case, g, want, gJ, J, inside, R, tol=5e-6):
    ctx.check(abs(gJ - J) <= 1e-8*max(abs(J), 1e-300) or abs(gJ - J) < 1e-7*abs(J), lambda: 'objective %.12g, not %.12g: %s' % (gJ, J, case))
    ctx.check(g.shape == want.shape and np.all(np.isfinite(g)) and not np.iscomplexobj(g), lambda: 'shape or type of the gradient: %s' % case)
    s = np.max(np.abs(want[inside])) if inside.any() else 0
    err = np.where(inside, np.abs(g - want), 0)
    k = np.unravel_index(np.argmax(err), err.shape)
    ctx.check(err.max() <= tol*s, lambda: 'the gradient in cell %s is %.8g, the true derivative is %.8g (largest %.3g): %s' % (k, g[k], want[k], s, case))
    if R is None:
        ctx.check(not np.any(g[~inside]), lambda: 'gradient outside of the design region: %s' % case)
