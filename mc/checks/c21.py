"""C21 power scans report transmission at each input power"""
import itertools

import numpy as np

from mc import ref
from mc.util import *

RULE = ('every number of samples x range x solver x Kerr strength (up to strongly nonlinear where the fixed point contracts) x waveguide x direction x initial scale x further sources x history; '
        'each input power (power of the mode at scale 1, times the square of the amplitude) and each probed transmission against the reference nonlinear problem at that amplitude; the simulation before and after')
BOUND = {'quick': '9 waveguides, 5 units; 1..4 samples, 3 ranges, 3 solvers, 3 strengths; the default call', 'thorough': '1..8 samples, 5 ranges, 3 solvers, 4 strengths, 3 grids'}
ASSUMPTIONS = ['amplitudes at which the reference fixed-point iteration contracts', 'the input power at scale 1 is that of C09']
GUIDES = [((14, 13), (2, 2), 5, 4, 6.0, 2.3), ((16, 15), (3, 2), 6, 4, 4.0, 1.9), ((15, 12), (2, 0), 4, 3, 9.0, 2.8), ((14, 14), (2, 2), 5, 4, 6.0, 2.3), ((13, 13), (2, 2), 5, 3, 12.1, 3.1), ((16, 12), (2, 0), 4, 3, 6.0, 2.1), ((18, 14), (1, 1), 5, 4, 4.0, 1.9),
          ((15, 14), (3, 2), 5, 4, 6.0 - 0.01j, 2.3), ((15, 13), (2, 2), 5, 4, 6.0, 2.3, 'metal')]


def cases(tier):
    q = tier == 'quick'
    out = []
    n = 0
    rng = [(1e-2, 1e2), (0.5, 2.0), (3.0, 3.0)] + ([] if q else [(1e-6, 1.0), (2.0, 0.1)])
    for ns, r, sol, x, d in itertools.product([1, 2, 4] if q else [1, 2, 3, 5, 8], rng, ['newton', 'born', 'hybrid'], [0, 0.02, 0.3] + ([] if q else [1e-4]), 'xy'):
        n += 1
        for g in [[0, 3, 1, 4, 5, 6, 7, 8, 2][n//3 % 9]] if q else range(9):
            out.append(dict(Ns=ns, smin=r[0], smax=r[1], solver=sol, strength=x, dir=d, guide=g, scale0=[1, 20.0, 1e-3][n % 3], extra=[0, 1, 2][(n//3) % 3],
                            before=['', 'lin', 'nl', 'other'][(n//2) % 4], phys=[0, 2, 3, 5, 6][n//2 % 5]))
    for k, (x, d, g) in enumerate(itertools.product([1.5, 4.0, 12.0], 'xy', range(2 if q else 3))):       # slow contraction
        out.append(dict(Ns=3, smin=1.0, smax=1.5, solver='born', strength=x, dir=d, guide=g, scale0=1, extra=0, before='', phys=[0, 2, 3, 5][k % 4]))
    for ns, r, d, g in itertools.product([1, 3], rng, 'xy', range(2 if q else 3)):
        out.append(dict(Ns=ns, smin=r[0], smax=r[1], solver='born', strength=0, dir=d, guide=g, scale0=2.0, extra=0, before='lin', pol='Hz', phys=[0, 3, 5, 2][len(out) % 4]))
    for x, d in itertools.product([0, 1e-6], 'xy'):        # the default call
        out.append(dict(Ns=50, smin=1e-2, smax=1e2, solver='newton', strength=x, dir=d, guide=0, scale0=1, extra=0, before='', default=True))
    return out


def run(case, ctx):
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    import autograd.numpy as npa
    shape, npml, a, w, em, neff = GUIDES[case['guide']][:6]
    pol, d = case.get('pol', 'Ez'), case['dir']
    om, dl, L0 = PHYS[case.get('phys', 0)]
    eps = np.ones(shape, dtype=type(em))
    eps[:, a:a + w] = em
    reg = np.zeros(shape)
    reg[6:9, a - 1:a + w + 1] = 1
    eps[6:8, a - 2:a + w] = (em + 1)/2
    if GUIDES[case['guide']][6:] == ('metal',):
        eps[9:12, -3:] = -8
    mid = a + w//2
    width = 2*min(mid, shape[1] - mid) - 2*npml[1] - 2
    cs, cp = [4, mid], [shape[0] - npml[0] - 2, mid]
    if d == 'y':
        eps, reg, shape, npml, cs, cp = eps.T.copy(), reg.T.copy(), shape[::-1], npml[::-1], cs[::-1], cp[::-1]

    def build(scale):
        s = sim_of(om, eps.copy(), dl, npml, pol, L0)
        s.src = np.zeros(shape, complex)
        if case['extra'] == 2:
            s.src = 1e-3*src_of('mid', shape)
        s.add_mode(neff, d, list(cs), width, scale=scale, order=1)
        if case['extra'] == 1:
            c2 = [cp[0] - 1, cp[1]] if d == 'x' else [cp[0], cp[1] - 1]
            s.add_mode(neff, d, c2, width, scale=0.5, order=1)
        s.setup_modes()
        return s
    one = build(1.0)
    only = sim_of(om, eps.copy(), dl, npml, pol, L0)
    only.src = np.zeros(shape, complex)
    only.add_mode(neff, d, list(cs), width, scale=1.0, order=1)
    only.setup_modes()
    W1 = only.W_in
    line = only.src.copy()
    rest = one.src - line
    m = ref.Model(om, eps, dl, npml, pol, L0)
    chi = 0.0
    lim = 60 if case['solver'] == 'born' else 18        # also where the fixed point is approached slowly
    slist = np.logspace(np.log10(case['smin']), np.log10(case['smax']), case['Ns'])
    # the scan replaces the line of the mode, and nothing else
    srcs = [(3 if case['before'] == 'other' else 1)*rest + s*line for s in slist]
    if case['strength']:
        top = max(np.max(np.abs(m.solve_sparse(x)[2])) for x in srcs)
        chi = case['strength']*L0**2/3/top**2
        while True:     # weaken until the strongest amplitude converges
            kerr = ref.Kerr([(chi, reg, None)], L0)
            _, ok, st, _ = ref.born(m, kerr, max(srcs, key=lambda x: np.max(np.abs(x))), itmax=lim, tol=1e-12)
            if ok and len(st) < lim - 1:
                break
            chi /= 1.25 if lim > 18 else 2
    kerr = ref.Kerr([(chi, reg, None)], L0)
    sim = build(case['scale0'])
    if chi:
        sim.add_nl(chi, reg)
    if case['before'] == 'lin':
        sim.solve_fields()
    elif case['before'] == 'nl':
        sim.solve_fields()
        sim.solve_fields_nl(solver_nl='born')
    elif case['before'] == 'other':
        sim.solve_fields()
        sim.src = sim.src*3
    wts = np.abs(gen(shape, 8))
    wc = width//2
    probes = [lambda s: s.flux_probe(d, list(cp), width, nl=True), lambda s: np.sum(wts*np.abs(s.fields_nl[pol])**2),
              lambda s: s.flux_probe(d, list(cp), width), lambda s: 1.0 + 0*s.L0]
    o = Optimization(Objective(lambda e: npa.sum(npa.abs(e)), [obj_arg('e', component=pol)]), sim, reg, eps_m=em)
    keep = [sim.eps_r.copy(), sim.src.copy(), sim.W_in, sim.modes[0].scale, len(sim.modes), len(sim.nonlinearity)]
    k = case['Ns'] % 3 + 2
    P, T = o.scan_power(probes=probes[:k]) if case.get('default') else o.scan_power(probes=probes[:k], Ns=case['Ns'], s_min=case['smin'], s_max=case['smax'], solver=case['solver'])
    ctx.op('scan_power', case['Ns'])
    ctx.check(len(P) == case['Ns'] and len(T) == k and all(len(t) == case['Ns'] for t in T), 'shape of the result: %s' % case)
    compared = 0
    for i, s in enumerate(slist):
        ctx.check(abs(P[i] - W1*s**2) <= 1e-9*abs(W1)*s**2, lambda: 'input power %.10g at amplitude %.6g, the mode carries %.10g: %s' % (P[i], s, W1*s**2, case))
        L = m.solve_sparse(srcs[i])
        if chi:
            E, ok, st, _ = ref.born(m, kerr, srcs[i], itmax=60, tol=1e-12)
            E2, ok2, _ = ref.newton(m, kerr, srcs[i])
            if not (ok and ok2 and rel(E, E2) < 1e-9 and len(st) < lim):
                continue
            N = m.transverse(E) + (E,)
        else:
            N = L
        compared += 1

        def flux(F):
            X, Y, Z = F
            if d == 'x':
                Zx = ref.edge_avg(Z, 0)
                S = -0.5*np.real(Zx*np.conj(Y)) if pol == 'Ez' else 0.5*np.real(Y*np.conj(Zx))
                return dl*np.sum(S[cp[0], int(cp[1] - width/2):int(cp[1] + width/2)])
            Zy = ref.edge_avg(Z, 1)
            S = 0.5*np.real(Zy*np.conj(X)) if pol == 'Ez' else -0.5*np.real(X*np.conj(Zy))
            return dl*np.sum(S[int(cp[0] - width/2):int(cp[0] + width/2), cp[1]])
        want = [flux(N), np.sum(wts*np.abs(N[2])**2), flux(L), 1.0]
        amp = 0.5*dl*width*np.max(np.abs(N[2]))*max(np.max(np.abs(N[0])), np.max(np.abs(N[1])))
        for j in range(k):
            tol = [1e-7*amp, 1e-7*want[1], 1e-7*amp, 1e-9][j]
            ctx.check(abs(T[j][i]*P[i] - want[j]) <= tol, lambda: 'transmission of probe %d at amplitude %.6g is %.9g, not %.9g: %s' % (j, s, T[j][i], want[j]/P[i], case))
        ctx.state(*[str(v) for v in case.values()], i)
    now = [sim.eps_r.copy(), sim.src.copy(), sim.W_in, sim.modes[0].scale, len(sim.modes), len(sim.nonlinearity)]
    ctx.check(all(np.array_equal(x, y) for x, y in zip(keep, now)), 'the scan changed the simulation: %s' % case)
    ctx.check(compared > 0, 'internal: nothing compared in %s' % case)
    ctx.trace_ok()
