"""C07 nonlinear solutions solve the nonlinear equation, whichever solver is used"""
import itertools

import numpy as np

from mc import ref
from mc.util import *

RULE = ('every grid x material x Kerr region set x strength x source; in each, every solver x start x threshold x '
        'iteration limit is run on one simulation, and fields, stored state and convergence history are compared with '
        'the reference iteration')
BOUND = {'quick': '13 grids, 4 materials (7 on the extra grids), 8 region sets, strengths 0..2 (nonlinear shift of the permittivity)',
         'thorough': '8 grids, 8 materials, 7 region sets, 8 strengths'}
ASSUMPTIONS = ['solutions of different solvers are compared where the fixed-point iteration contracts (a unique solution is near)']


def regions(kind, shape, chi, emax):
    r = np.zeros(shape)
    r[shape[0]//3:2*shape[0]//3 + 1, shape[1]//3:2*shape[1]//3 + 1] = 1
    g = gen(shape, 7)
    return {'all': [(chi, np.ones(shape), None)],
            'block': [(chi, r, None)],
            'grade': [(chi, g, None)],
            'scaled': [(chi, r, emax)],
            'two': [(chi, r, None), (0.5*chi, 1 - r, emax)],
            'neg': [(-chi, g, None)],
            'cplx': [(chi*(0.8 - 0.5j), g, None)],           # two-photon absorption
            'cplx2': [(-0.6j*chi, r, emax), (0.5*chi, 1 - r, None)],
            'four': [(chi, r, None), (0.3*chi, g, emax), (-0.4*chi, 1 - r, None), (0.2*chi, r*g, emax + 2)],
            'scaled2': [(chi, g, emax), (0.6*chi, 1 - 0.5*r, emax + 3)],
            'order': [(chi, r, emax), (0.7*chi, g, emax), (0.4*chi, 1 - r, None)],
            'bool': [(chi, r.astype(bool), None), (chi/3, g, emax)]}[kind]


def cases(tier):
    q = tier == 'quick'
    shapes = [((6, 5), (0, 0)), ((10, 9), (2, 2)), ((9, 12), (0, 3)), ((10, 10), (3, 2)), ((14, 1), (3, 0))]
    kinds = ['gen', 'slabx', 'lossy', 'metal']
    regs = ['all', 'scaled', 'two', 'neg', 'scaled2', 'cplx', 'cplx2', 'four']
    strengths = [0, 1e-7, 1e-3, 0.05, 1.0]
    if not q:
        shapes += [((16, 15), (3, 2)), ((1, 15), (0, 3)), ((20, 18), (4, 1))]
        kinds += ['pt', 'T', 'F', 'int']
        regs += ['block', 'grade', 'bool', 'order']
        strengths += [1e-5, 0.2, 3.0]
    out = []
    for (s, n), k, r, x in itertools.product(shapes, kinds, regs, strengths):
        out.append(dict(shape=s, npml=n, eps=k, reg=r, strength=x))
    for ph, (s, n), k, r, x in itertools.product(range(1, 7), shapes[1:3], ['gen', 'gain', 'high', 'view', 'int'], ['two', 'cplx'] if q else regs, [1e-3, 0.05]):
        out.append(dict(shape=s, npml=n, eps=k, reg=r, strength=x, phys=ph))
    for (s, n), k, r, x in itertools.product(shapes[:3], kinds[:2], ['all', 'scaled'], [0.02]):
        for sk in ['real', 'int', 'imag', 'line', 'view']:
            out.append(dict(shape=s, npml=n, eps=k, reg=r, strength=x, src=sk))
    doms = [((9, 10), (1, 3)), ((7, 8), (2, 3)), ((11, 7), (1, 1)), ((1, 9), (0, 2)), ((8, 8), (0, 0)), ((12, 9), (3, 0)), ((9, 11), (2, 0)), ((5, 1), (0, 0))]
    for i, ((s, n), r, x) in enumerate(itertools.product(doms, regs, [1e-3, 0.05, 0.5])):       # rotating materials, sources and units
        out.append(dict(shape=s, npml=n, eps=('gen', 'slaby', 'lossy', 'pt', 'gain', 'view', 'high')[i % 7], reg=r, strength=x, phys=i % 5 and (i//5) % 7,
                        src=('gen', 'real', 'huge', 'tiny', 'cell0', 'line')[i % 6]))
    for (s, n), k, x in itertools.product([((30, 26), (6, 5)), ((3, 60), (0, 12))], ['gen', 'lossy'], [1e-3, 0.05, 0.5]):
        out.append(dict(shape=s, npml=n, eps=k, reg='four', strength=x))
    for (s, n), k, zero in itertools.product(shapes[:3], kinds[:3], (False, True)):
        out.append(dict(shape=s, npml=n, eps=k, Hz=True, zero=zero))
    for (s, n), k, r in itertools.product(shapes[:3 if q else 6], kinds[:2], ('all', 'scaled', 'neg')):
        out.append(dict(shape=s, npml=n, eps=k, reg=r, hybrid=True))
    return out


def run(case, ctx):
    shape, npml = tuple(case['shape']), tuple(case['npml'])
    eps = eps_of(case['eps'], shape)
    if npml == (0, 0):
        eps = eps - 0.3j
    if case.get('Hz'):
        return run_hz(case, ctx, shape, npml, eps)
    if case.get('hybrid'):
        return run_hybrid(case, ctx, shape, npml, eps)
    om, dl, L0 = PHYS[case.get('phys', 0)]
    m = ref.Model(om, eps, dl, npml, 'Ez', L0)
    srcs = (src_of('mid', shape)*40, src_of('gen', shape)*1e-3)[:1 if ctx.tier == 'quick' and case['reg'] != 'two' else 2]
    if 'src' in case:
        srcs = (src_of(case['src'], shape),)
    for src in srcs:
        E0 = m.solve_sparse(src)[2]
        chi = (case['strength'] or 1.0)*L0**2/3/np.max(np.abs(E0))**2
        regs = regions(case['reg'], shape, chi if case['strength'] else 0.0, 6.0)
        kerr = ref.Kerr(regs, L0)
        rE, rok, rsteps, rpath = ref.newton(m, kerr, src, history=True)
        bE, bok, bsteps, bpath = ref.born(m, kerr, src, itmax=40)
        near = bok and rok and bsteps[0] < 0.5 and len(bsteps) < 30 and rel(bE, rE) < 1e-7

        def new():
            s = sim_of(om, eps, dl, npml, 'Ez', L0)
            s.src = src
            for c, g, e in regs:
                s.add_nl(c, g, eps_scale=e is not None, eps_max=e)
            return s
        sim = new()
        half = 0.8*E0 + 0.02*np.max(np.abs(E0))
        starts = {'half': half, 'real': 0.9*np.abs(E0), 'F': np.asfortranarray(0.9*E0), 'lin': E0.copy()}
        plan = [(sol, start, thr, it) for sol in ('born', 'newton', 'hybrid')
                for start, thr, it in ((None, 1e-10, 50), ('half', 1e-10, 50), ('real', 1e-10, 50), ('F', 1e-9, 50), ('lin', 1e-10, 40), (None, 1e-4, 50), (None, 1e-10, 1),
                                       (None, 1e-10, 2), ('half', 1e-8, 3), (None, 1e-10, 5))
                if not (sol == 'hybrid' and it not in (40, 50))]
        for sol, start, thr, it in plan:
            if start is None and it == 1 and sol == 'born':
                sim = new()         # once from a simulation that has not solved anything
            st = None if start is None else starts[start].copy(order='A')
            where = '%s solver=%s start=%s threshold=%g max_num_iter=%d' % (case, sol, start, thr, it)
            out = sim.solve_fields_nl(Estart=st, solver_nl=sol, conv_threshold=thr, max_num_iter=it)
            ctx.op('%s %s %g %d' % (sol, start, thr, it))
            ctx.state(shape, npml, case['eps'], case['reg'], case['strength'], sol, start, thr, it)
            ctx.check(len(out) == 4, 'four results: ' + where)
            conv = np.asarray(out[3], float).ravel()
            ctx.check(st is None or np.array_equal(st, starts[start]), 'the starting field was modified: ' + where)
            for nm, f in zip(('Hx', 'Hy', 'Ez'), out[:3]):
                ctx.check(np.shape(f) == shape and np.array_equal(f, sim.fields_nl[nm]), 'stored fields_nl differ: ' + where)
            ctx.check(rel(sim.fields['Ez'], E0) < 1e-8 if start is None or sim.fields['Ez'] is not None else True,
                      lambda: 'the linear fields changed: ' + where)
            check_honest(ctx, conv, thr, it if sol != 'hybrid' else 20, where, case['strength'])
            E = np.asarray(out[2])
            rep = conv[-1] <= thr       # reported as converged
            if rep:
                check_solution(ctx, m, kerr, src, out, 10*max(thr, 1e-11), where)
                if near and thr <= 1e-8:
                    ctx.check(rel(E, rE) < 1e-6, lambda: 'the %s solver found another solution (relative difference %.2g): %s'
                              % (sol, rel(E, rE), where))
            if near and it == 50 and len(bsteps) < 19:
                ctx.check(rep, lambda: 'did not converge, last change %.3g: %s' % (conv[-1], where))
            if case['strength'] == 0 and it > 1:
                ctx.check(rep and rel(E, E0) < 1e-8, lambda: 'without nonlinearity the fields are not the linear ones: ' + where)
            # the recorded history is the relative change of the fields in each step
            if start is None and sol == 'born':
                n = min(len(bsteps), it, 4)
                for i in range(n):
                    if bsteps[i] > 1e-9 and (i == 0 or conv[i-1] >= thr) and bsteps[i] < 2:
                        ctx.check(abs(conv[i] - bsteps[i]) < 1e-4*bsteps[i], lambda: 'recorded change of step %d is %.6g, '
                                  'the fields changed by %.6g: %s' % (i, conv[i], bsteps[i], where))
                if it <= 2 and len(bpath) >= it and bsteps[0] < 0.5 and bsteps[0] >= thr:
                    ctx.check(rel(E, bpath[it-1]) < 1e-6, 'the field is not that of step %d: %s' % (it, where))
            if start is None and sol == 'newton' and rok and len(rsteps) < 12:
                n = min(len(rsteps), it, 3)
                for i in range(n):
                    if rsteps[i] > 1e-8 and (i == 0 or conv[i-1] >= thr):
                        ctx.check(abs(conv[i] - rsteps[i]) < 1e-3*rsteps[i], lambda: 'recorded change of step %d is %.6g, '
                                  'the fields changed by %.6g: %s' % (i, conv[i], rsteps[i], where))
            ctx.trace_ok()


def check_honest(ctx, conv, thr, it, where, strength):
    n = np.flatnonzero(conv > 0)
    ctx.check(conv.size == it and np.all(np.isfinite(conv)), lambda: 'the convergence history has %d entries: %s' % (conv.size, where))
    if conv[-1] > thr:
        # stopped by the limit: every entry is above the threshold
        ctx.check(np.all(conv >= thr), lambda: 'unconverged, but the history %s has entries below the threshold: %s' % (conv, where))
    elif n.size:
        last = n[-1]
        ctx.check(np.all(conv[:last] >= thr) and (conv[last] <= thr or (strength*conv[last] < 1e-13 and last + 1 < it)),
                  lambda: 'the history %s does not end with the first change below the threshold: %s' % (conv, where))


def check_solution(ctx, m, kerr, src, out, tol, where):
    E = np.asarray(out[2]).astype(complex)
    nl = kerr.eps_nl(E, m.eps)
    r = m.apply(E, m.eps + nl) - 1j*m.omega*np.asarray(src).astype(complex)
    sc = np.max(np.abs(E))*max(8/(m.dl**2*m.m0), m.omega**2*m.e0*np.max(np.abs(m.eps + nl)))
    err = np.max(np.abs(r))/sc
    ctx.check(err < max(tol, 1e-9), lambda: 'reported as converged, but the residual of the nonlinear equation is %.3g: %s' % (err, where))
    X, Y = m.transverse(E)
    for f, g, nm in ((out[0], X, 'Hx'), (out[1], Y, 'Hy')):
        ctx.check(np.max(np.abs(f - g)) <= 1e-8*max(np.max(np.abs(X)), np.max(np.abs(Y))),
                  lambda: 'the nonlinear %s does not belong to Ez: %s' % (nm, where))


def run_hybrid(case, ctx, shape, npml, eps):
    """the fixed-point iteration does not get there in its 20 steps, Newton has to finish: for every threshold"""
    m = ref.Model(OM, eps, 0.1, npml, 'Ez')
    src = src_of('mid', shape)*40
    E0 = m.solve_sparse(src)[2]
    for k, thr in itertools.product(range(16 if ctx.tier == 'quick' else 40), (1e-10, 1e-12, 1e-4)):
        chi = 0.03*1.2**k*1e-12/3/np.max(np.abs(E0))**2
        regs = regions(case['reg'], shape, chi, 6.0)
        kerr = ref.Kerr(regs, 1e-6)
        bE, bok, bsteps, bpath = ref.born(m, kerr, src, itmax=20, tol=1e-15)
        if len(bsteps) < 20 or not np.isfinite(bsteps[-1]) or bsteps[-1] > 1e-6:
            continue
        s = sim_of(OM, eps, 0.1, npml, 'Ez')
        s.src = src
        for c, g, e in regs:
            s.add_nl(c, g, eps_scale=e is not None, eps_max=e)
        out = s.solve_fields_nl(solver_nl='hybrid', conv_threshold=thr)
        ctx.op('hybrid')
        ctx.state(shape, case['eps'], case['reg'], k, thr)
        conv = np.asarray(out[3], float).ravel()
        where = 'step 20 of the fixed-point iteration changes the fields by %.3g, threshold %g, strength %d: %s' % (bsteps[-1], thr, k, case)
        ctx.check(conv[-1] <= thr, lambda: 'the hybrid solver stops at %.3g. %s' % (conv[-1], where))
        check_solution(ctx, m, kerr, src, out, 10*thr, where)
        ctx.trace_ok()


def run_hz(case, ctx, shape, npml, eps):
    """Hz polarization: without a nonlinearity, the linear fields; Newton is rejected; a Kerr material must be either
    rejected or solved correctly"""
    m = ref.Model(OM, eps, 0.1, npml, 'Hz')
    s = sim_of(OM, eps, 0.1, npml, 'Hz')
    src = src_of('mid', shape)
    s.src = src
    lin = m.solve_sparse(src)
    E2 = np.abs(lin[0])**2 + np.abs(lin[1])**2
    if case['zero']:
        if case['eps'] == 'slabx':
            s.add_nl(0.0, np.ones(shape))
        out = s.solve_fields_nl(solver_nl='born')
        ctx.op('born')
        for a, b, nm in zip(out, lin, ('Ex', 'Ey', 'Hz')):
            ctx.check(rel(a, b) < 1e-7 and np.array_equal(a, s.fields_nl[nm]),
                      'Hz without nonlinearity: %s differs from the linear field, %s' % (nm, case))
        ctx.check(out[3].ravel()[-1] <= 1e-10, 'Hz without nonlinearity did not converge')
    else:
        s.add_nl(1e-2*1e-12/3/np.max(E2), np.ones(shape))
        try:
            out = s.solve_fields_nl(solver_nl='born')
        except (ValueError, NotImplementedError, AssertionError):
            ctx.trace_ok()
            return
        finally:
            ctx.op('born')
        X, Y = ref.Model(OM, np.asarray(eps) + s.eps_nl, 0.1, npml, 'Hz').transverse(out[2])
        ctx.check(max(rel(out[0], X), rel(out[1], Y)) < 1e-8, lambda: 'Kerr material in Hz polarization: Ex, Ey do not belong to Hz in the '
                  'permittivity of the solution, %s' % case)
        nl = 1e-2*(np.abs(out[0])**2 + np.abs(out[1])**2)/np.max(E2)
        A = ref.Model(OM, np.asarray(eps) + nl, 0.1, npml, 'Hz')
        good = A.solve_sparse(src)
        ctx.check(rel(out[2], good[2]) < 1e-4, lambda: 'Kerr material in Hz polarization: the fields differ by %.3g from the '
                  'solution of the nonlinear equation, %s' % (rel(out[2], good[2]), case), key='kerr-Hz-born')
    ctx.state(shape, npml, 'Hz', case['eps'], case['zero'])
    ctx.trace_ok()
