"""C22 the index-shift limit is respected"""
import itertools

import numpy as np

from mc import ref
from mc.util import *
from mc.opt import Prob
from mc.checks.c14 import FILT
from mc.checks.c18 import scales

RULE = ('every limit x initial amplitude (relative to the limit and absolute) x method x number of steps x problem x Kerr region (scaled or not) x background; after every prefix of the run the source, the recorded '
        'amplitudes and the shift of the reference problem, and for GD the density (whose gradient belongs to the rescaled source)')
BOUND = {'quick': '10 domains, 7 sources; 1..2 steps (GD, ADAM), 1..3 (L-BFGS); 3 limits x 5 relative x 4 absolute amplitudes', 'thorough': '1..4 steps; 5 limits x 7 relative x 6 absolute amplitudes'}
ASSUMPTIONS = ['the final shift is compared with the limit for shifts up to 2e-3 (weak nonlinearity), the rescaling rule up to 9e-2']


def cases(tier):
    q = tier == 'quick'
    out = []
    n = 0
    lims = [1e-3, 1e-5, 1e-2] + ([] if q else [1e-4, 3e-3])
    rels = [0.5, 1.0, 3.0, 1e-2, 1e-3] + ([] if q else [1e-4, 0.1])
    amps = [1.0, 1e4, 1e-4, 30.0] + ([] if q else [1e8, 1e-2])
    for m, l, r, a in itertools.product(['GD', 'ADAM', 'LBFGS'], lims, rels, amps):
        for p in ['kerr', 'Ez', 'mixed']:
            n += 1
            if q and n % 2 and m != 'GD':
                continue
            if l*r*r < 1e-11:
                continue
            out.append(dict(method=m, limit=l, rel=r, amp=a, problem=p, N=(1 + n % (2 if m != 'LBFGS' else 3)) if q else 1 + n % 4, filt=FILT[n % 5],
                            back=['gen', 'ones', 'lossy', 'metal'][(n//3) % 4], scaled=bool((n//2) % 2), sign=-1 if n % 5 == 0 else 1, region=['block', 'bool', 'edge'][(n//5) % 3]))
    for m, p, lim, k in itertools.product(['GD', 'ADAM', 'LBFGS'], ['Ez', 'Hz', 'Ey', 'kerr', 'mixed'], [1e-3, None], [1, 2]):
        for b in ['gen', 'neg' if p == 'Ez' else 'metal'] if lim else ['gen']:
            out.append(dict(method=m, limit=lim, rel=1.0, amp=30.0, problem=p, N=k, filt=FILT[2], back=b, scaled=True, region='block', off=True))
    return scales(out)


def shift(pr, rho, src, kerr):
    eps = pr.eps(rho)
    m = pr.model(eps)
    E, ok, _ = ref.newton(m, kerr, src)
    assert ok
    n = np.sqrt(np.real(eps + kerr.eps_nl(E, eps)).astype(complex)).real
    # |sqrt(a+b) - sqrt(a)| without cancellation
    b = np.real(kerr.eps_nl(E, eps))
    return np.max(np.where(np.real(eps) > 0, np.abs(b)/(n + np.sqrt(np.abs(np.real(eps)))), 0))      # not in a metal


def build(case):
    """the problem, with a Kerr strength for which the source has rel times the amplitude allowed by the limit"""
    off = case.get('off')
    pr = Prob(case['problem'], case['region'], case['filt'], 'gen', back=case['back'], amp=case['amp'], strength=1e-3, gscale=0.2, max_ind_shift=case['limit'], phys=case.get('phys', 0), em=case.get('em', 5.0), geo=case.get('geo', 0), sk=case.get('sk', 0))
    if off:
        if case['limit'] is not None:
            pr.sim.nonlinearity.clear()      # no shift to limit
            pr.regs = []
            pr.nl_off = True
        return pr, None
    pr.sim.nonlinearity.clear()
    reg = np.ones(pr.shape) if case['scaled'] else pr.inside*1.0
    F = pr.f0[2]
    eps = pr.eps(pr.rho0)
    k = ref.Kerr([(1.0, reg, pr.em if case['scaled'] else None)], pr.L0)
    b = np.max(np.where(np.real(eps) > 0, np.abs(np.real(k.eps_nl(F, eps)))/(2*np.sqrt(np.abs(np.real(eps)))), 0))
    chi = case['sign']*case['limit']*case['rel']**2/b
    pr.sim.add_nl(chi, reg, eps_scale=case['scaled'], eps_max=pr.em if case['scaled'] else None)
    pr.regs = [(chi, reg, pr.em if case['scaled'] else None)]
    return pr, ref.Kerr(pr.regs, pr.L0)


def run(case, ctx):
    lim = case['limit']
    pr, kerr = build(case)
    if case.get('off'):
        o, sim = pr.opt, pr.sim
        src = sim.src.copy()
        o.run(method=case['method'], Nsteps=case['N'], step_size=0.1, verbose=False)
        ctx.op('run', case['N'])
        ctx.check(np.array_equal(sim.src, src), 'the source was changed without %s: %s' % ('a limit' if lim is None else 'any index shift', case))
        steps = len(o.objfn_list)
        ctx.check(len(o.src_amplitudes) == steps and np.allclose(o.src_amplitudes, np.max(np.abs(src)), rtol=1e-12, atol=0),
                  lambda: 'recorded amplitudes %s in %d steps: %s' % (o.src_amplitudes, steps, case))
        ctx.state(*[str(v) for v in case.values()])
        ctx.trace_ok()
        return
    path = [(pr.rho0, pr.src.copy())]
    margin = (0.97*0.98, 1) if not case.get('geo') and lim*case['rel']**2 < 5e-3 else (0.88, 1.03)     # a strong shift to start from, and sharp resonances enhance the shift
    for k in range(1, case['N'] + 1):
        q, _ = build(case)
        o, sim = q.opt, q.sim
        o.run(method=case['method'], Nsteps=k, step_size=0.5, verbose=False)
        ctx.op('run', k)
        path.append((np.array(sim.rho), np.array(sim.src)))
        ctx.check(np.all(np.isfinite(sim.src)), 'the source is not finite: %s' % case)
        amps = list(o.src_amplitudes)
        ctx.check(len(amps) == len(o.objfn_list), lambda: '%d amplitudes for %d steps: %s' % (len(amps), len(o.objfn_list), case))
        c = np.vdot(pr.src, sim.src)/np.vdot(pr.src, pr.src)
        ctx.check(np.max(np.abs(sim.src - c*pr.src)) <= 1e-12*np.max(np.abs(sim.src)) and abs(c.imag) < 1e-12*abs(c) and c.real > 0, 'the source was not just rescaled: %s' % case)
        if case['method'] == 'LBFGS':
            if not amps:
                continue
            dn = shift(q, np.array(sim.rho), np.array(sim.src), kerr)
            if not dn and case['scaled'] and not np.any(pr.eps(np.array(sim.rho)) - 1):
                continue        # nothing of the scaled Kerr material is left
            ctx.check(lim > 2e-3 or margin[0]*lim < dn < margin[1]*lim, lambda: 'the index shift ends at %.6g, the limit is %.6g: %s' % (dn, lim, case))
            ctx.check(abs(amps[0] - np.max(np.abs(pr.src))) <= 1e-9*amps[0], lambda: 'first recorded amplitude %.6g: %s' % (amps[0], case))
            ctx.state(*[str(v) for v in case.values()], k)
            ctx.trace_ok()
            continue
        rho, src = path[k - 1]
        dn = shift(pr, rho, src, kerr)
        want = src*np.sqrt(lim/dn)*0.99 if dn > 0 else src      # no shift, nothing to limit
        cancel = 1e-15/dn*2 if dn > 0 else 0
        tol = 1e-7 + 10*cancel
        got = path[k][1]
        ctx.check(np.max(np.abs(got - want)) <= tol*np.max(np.abs(want)), lambda: 'step %d rescales the source to %.9g, it should be %.9g (shift %.6g, limit %.6g): %s'
                  % (k, np.max(np.abs(got)), np.max(np.abs(want)), dn, lim, case))
        d2 = shift(pr, rho, got, kerr)
        ctx.check(dn == 0 or lim*max(1, case['rel']**2) > 2e-3 or margin[0]*lim < d2 < margin[1]*lim, lambda: 'after step %d the index shift is %.6g, the limit is %.6g: %s' % (k, d2, lim, case))
        ctx.check(len(amps) == k and abs(amps[-1] - np.max(np.abs(src))) <= 1e-9*amps[-1], lambda: 'recorded amplitudes %s: %s' % (amps, case))
        J = pr.value(rho, src)
        ctx.check(abs(o.objfn_list[-1] - J) <= (1e-6 + 10*cancel)*abs(J), lambda: 'the recorded objective of step %d is %.9g, that at its start was %.9g: %s' % (k, o.objfn_list[-1], J, case))
        if case['method'] == 'GD':
            g, _ = pr.grad(rho, got)
            w = np.clip(rho.real + 0.5*g, 0, 1)
            e = np.abs(path[k][0].real - w)[pr.inside]
            ctx.check(e.max() <= (1e-5 + 10*cancel)*0.5*np.max(np.abs(g)) + 1e-12, lambda: 'step %d does not follow the gradient of the rescaled problem (off by %.3g of %.3g): %s'
                      % (k, e.max(), 0.5*np.max(np.abs(g)), case))
        ctx.state(*[str(v) for v in case.values()], k)
        ctx.trace_ok()
