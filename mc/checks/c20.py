"""C20 frequency scans evaluate the objective at each frequency"""
import itertools

import numpy as np

from mc import ref, grads
from mc.util import *
from mc.opt import Prob

RULE = ('every number of samples x span x problem x structure (with resonances in and out of the span, losses) x history of the simulation before the scan; each frequency, each objective (reference '
        'model at that frequency) and the width; the simulation before and after, and a second scan')
BOUND = {'quick': '11 domains, 7 sources, 7 units, 5 filters, 5 design regions, 5 starts; 2..7 samples, 4 spans, 6 problems, 4 backgrounds; 33..64 samples and the default call for 2 problems', 'thorough': '2..12 samples, 7 spans, 6 problems, 4 backgrounds, 2 grids; up to 128 samples'}
ASSUMPTIONS = ['the width is compared where no objective lies within 1e-6 of the half maximum']

FILTS = [(1, 0.5, 2.0), (None, 0.5, 1e-9), (2, 0.4, 8.0), (None, 0.5, 60.0), (None, 0.6, 5.0)]


def cases(tier):
    q = tier == 'quick'
    out = []
    n = 0
    for nf, df, p, b in itertools.product(range(2, 8 if q else 13), [0.05, 0.2, 0.6, 1.2] + ([] if q else [1e-3, 0.4, 0.9]), ['Ez', 'Hx', 'Hz', 'Ey', 'kerr', 'mixed'],
                                          ['gen', 'ones', 'lossy', 'high']):
        if b == 'ones' and p in ('Ez', 'Hx') and nf % 2:
            b = 'neg'
        if b == 'high' and p in ('kerr', 'mixed'):
            continue
        n += 1
        for g in ([n % 2] if q else [0, 1]):
            out.append(dict(Nf=nf, df=df, problem=p, back=b, grid=g, before=['', 'J', 'dJ', 'run', 'solve'][n % 5], pbar=bool(n % 2), phys=n % 7 if b != 'high' else 0, geo=[0, n//4][n//2 % 2], sk=[0, n//3][n//3 % 2], em=[5.0, 12.1, 2.2, 0.4, [5, -0.3]][n % 5], filt=FILTS[n//2 % 5], region=['block', 'edge', 'bool', 'full', 'checker'][n//3 % 5],
                            start=['gen', 'one', 'mixed', 'gen', 'zero', 'half'][n//5 % 6], max_ind_shift=[None, 1e-4][n//2 % 2]))
    for k, (nf, df) in enumerate([(50, 0.05), (51, 0.05), (33, 1.4), (64, 0.3)] if q else itertools.product([33, 50, 51, 64, 128], [0.05, 0.3, 1.4])):
        for p in ['Ez', 'Hz']:
            out.append(dict(Nf=nf, df=df, problem=p, back=['gen', 'high'][k % 2], grid=k % 2, before='', pbar=True, default=(nf, df) == (50, 0.05)))
    for nf, df, p, b, f in itertools.product([3, 6, 7] if q else range(2, 13), [0.2, 1.2], ['Ez', 'Hz', 'Hx'], ['gen', 'high'], [0.55, 0.8, 0.95]):
        out.append(dict(Nf=nf, df=df, problem=p, back=b, grid=len(out) % 2, before=['', 'J'][len(out) % 2], pbar=False, offset=f))
    return out


def run(case, ctx):
    shape, npml = [((9, 8), (2, 2)), ((11, 10), (2, 0))][case['grid']] if not case.get('geo') else (None, None)
    pr = Prob(case['problem'], case.get('region', 'block'), case.get('filt', (1, 0.5, 2.0)), case.get('start', 'gen'), max_ind_shift=case.get('max_ind_shift'), back=case['back'], shape=shape, npml=npml, strength=0.01, phys=case.get('phys', 0), geo=case.get('geo', 0), sk=case.get('sk', 0), em=case.get('em', 5.0))
    om0 = pr.om
    shift = 0
    o, sim = pr.opt, pr.sim
    if case['before'] == 'J':
        o.compute_J(sim)
    elif case['before'] == 'dJ':
        o.compute_dJ(sim, pr.des)
    elif case['before'] == 'run':
        o.run(method='GD', Nsteps=1, step_size=0.1, verbose=False)
        pr.src = np.array(sim.src)      # a limit of the index shift reduces it
    elif case['before'] == 'solve':
        sim.solve_fields()
    rho = np.array(sim.rho)
    keep = [np.array(sim.eps_r), np.array(sim.src), sim.omega, list(sim.NPML), rho.copy(), sim.L0, sim.dl, sim.pol, len(sim.nonlinearity), len(o.objfn_list)]
    if case.get('offset'):      # an objective of both signs
        import autograd.numpy as npa
        top = -np.inf
        for x in np.linspace(om0*(1 - case['df']/2), om0*(1 + case['df']/2), case['Nf']):
            pr.om = x
            p = pr.prob(rho)
            top = max(top, grads.value(pr.form, [p.field(c, nl) for c, nl in pr.args], pr.P))
        pr.om = om0
        shift = case['offset']*top
        J0 = o.objective.J
        o.objective.J = {1: lambda a: J0(a) - shift, 2: lambda a, b: J0(a, b) - shift}[len(pr.args)]
    fk = {k: None if v is None else v.copy() for k, v in sim.fields.items()}
    Ak = sim.A.copy()
    for rep in range(2):
        f, J, w = o.scan_frequency() if case.get('default') else o.scan_frequency(Nf=case['Nf'], df=case['df'], pbar=case['pbar'])
        ctx.op('scan', case['Nf'])
        f0 = om0/2/np.pi
        want_f = np.linspace(f0*(1 - case['df']/2), f0*(1 + case['df']/2), case['Nf'])
        f = np.asarray(f)
        ctx.check(f.shape == want_f.shape and np.max(np.abs(f - want_f)) < 1e-9*f0, lambda: 'frequencies %s, not %s: %s' % (f, want_f, case))
        ctx.check(len(J) == case['Nf'], 'number of objectives: %s' % case)
        want = []
        for x in want_f:
            pr.om = 2*np.pi*x
            p = pr.prob(rho)
            if pr.nl:
                _, ok, _, _ = ref.born(p.m, p.kerr, pr.src, itmax=18, tol=1e-11)
                if not (ok and p.ok):       # another frequency may be too close to a resonance for the default solver
                    want.append(np.nan)
                    continue
            want.append(grads.value(pr.form, [p.field(c, nl) for c, nl in pr.args], pr.P) - shift)
        want = np.array(want)
        sc = np.nanmax(np.abs(want))
        used = np.isfinite(want)
        ctx.check(2*used.sum() >= used.size, 'internal: most frequencies do not converge: %s' % case)
        err = np.where(used, np.abs(np.asarray(J, float) - want), 0)
        k = int(np.nanargmax(err/np.abs(want)))
        ctx.check(err[k] <= 1e-6*max(abs(want[k]), 1e-3*sc), lambda: 'objective at the %d. frequency is %.9g, not %.9g: %s' % (k + 1, J[k], want[k], case))
        hm = np.nanmax(want)/2
        if used.all() and np.min(np.abs(want - hm)) > 1e-6*abs(hm):
            above = want > hm
            n, i = 0, case['Nf']//2
            while i < case['Nf'] and above[i]:
                n, i = n + 1, i + 1
            i = case['Nf']//2 - 1
            while i >= 0 and above[i]:
                n, i = n + 1, i - 1
            ww = n*(want_f[1] - want_f[0])
            ctx.check(abs(w - ww) <= 1e-9*f0, lambda: 'width %.6g, %d samples of %.6g are above half maximum: %s' % (w, n, want_f[1] - want_f[0], case))
            ctx.state(case['Nf'], n, tuple(above))
        now = [np.array(sim.eps_r), np.array(sim.src), sim.omega, list(sim.NPML), np.array(sim.rho), sim.L0, sim.dl, sim.pol, len(sim.nonlinearity), len(o.objfn_list)]
        ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, now)), 'the scan changed the simulation: %s' % case)
        ctx.check(abs(sim.A - Ak).max() == 0, 'the scan changed the system matrix: %s' % case)
        for kk, v in fk.items():
            if v is not None:
                ctx.check(sim.fields[kk] is not None and np.array_equal(sim.fields[kk], v), 'the scan changed the fields: %s' % case)
    pr.om = om0
    ctx.state(*[str(v) for v in case.values()])
    ctx.trace_ok()
