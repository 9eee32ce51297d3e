"""C19 optimization respects the design constraints"""
import itertools

import numpy as np

from mc import grads
from mc.util import *
from mc.opt import Prob
from mc.checks.c14 import FILT

RULE = ('every method x step size (tiny to huge) x region x background x start density x filter/projection x problem; the structure is read at EVERY evaluation of the objective '
        'during the run and at its end: densities in [0,1], everything outside bit-identical, permittivity = reference map of the density; runs of zero steps, continued runs with another method, '
        'simulations without a density or initialized by style')
BOUND = {'quick': '10 domains, 7 sources, 6 units; 8 methods and step sizes x 8 regions x 6 backgrounds x 5 starts (every pair of a method and each other axis), up to 3 steps', 'thorough': 'method x region x background x start fully, up to 5 steps'}
ASSUMPTIONS = []
REGIONS = ['block', 'edge', 'corner', 'bool', 'int', 'checker', 'one', 'full', 'F', 'line']
BACKS = ['gen', 'ones', 'lossy', 'low', 'high', 'neg']
STARTS = ['gen', 'mixed', 'zero', 'one', 'half']
METHODS = [('GD', 1e6), ('GD', 1e-12), ('GD', 0.4), ('ADAM', 1e3), ('ADAM', 0.3), ('ADAM', 1e-9), ('LBFGS', 1), ('GD', -0.7)]


def cases(tier):
    q = tier == 'quick'
    out = []
    n = 0
    probs = ['Ez', 'kerr', 'Hz', 'Ey', 'Hx', 'mixed']

    def add(**kw):
        nonlocal n
        n += 1
        d = dict(method=METHODS[n % 8], region=REGIONS[n % 8], back=BACKS[n % 6], start=STARTS[n % 5], filt=FILT[(n + n//5) % 5], problem=probs[(n + n//6) % 6],
                 em=[5.0, 2.0, 12.0][n % 3], N=[2, 3][n % 2] if q else [3, 5][n % 2], init=['rho', 'none'][(n + n//2) % 2], geo=[0, n//3][n % 2], sk=[0, n//5][n//2 % 2], phys=[0, 1, 2, 3, 5, 6][n//4 % 6])
        d.update(kw)
        if d['problem'] in ('kerr', 'mixed') and d['back'] in ('neg', 'high'):
            d['back'] = 'gen'       # the Kerr iteration need not converge there
        if d['problem'] in ('Hz', 'Ey') and d['back'] == 'neg':
            d['back'] = 'low'       # the averaged permittivity of neighbours crosses zero
        out.append(d)
    for m in METHODS:
        for ax, vals in (('region', REGIONS), ('back', BACKS), ('start', STARTS), ('filt', FILT), ('problem', probs)):
            for a in vals:
                for r in range(2):
                    add(method=m, **{ax: a})
    for m, r, b, s in itertools.product(METHODS, REGIONS, BACKS, STARTS) if not q else []:
        add(method=m, region=r, back=b, start=s)
    for m, r, b, f in itertools.product(['GD', 'ADAM'], REGIONS, BACKS, FILT):
        add(method=(m, 1.0), N=0, region=r, back=b, filt=f)
    for m, m2, s in itertools.product(METHODS, METHODS, STARTS):
        add(method=m, then=m2, N=1, start=s)
    for m, st, r in itertools.product(METHODS, ['full', 'empty', 'halfway', 'random', 'random_sym'], REGIONS[:4]):
        add(method=m, init=st, N=1, region=r)
    return out


def run(case, ctx):
    pr = Prob(case['problem'], case['region'], case['filt'], case['start'], back=case['back'], em=case['em'], geo=case.get('geo', 0), sk=case.get('sk', 0), phys=case.get('phys', 0))
    o, sim, des = pr.opt, pr.sim, pr.inside
    if case['init'] != 'rho':
        # the simulation starts from a permittivity; its density follows from it
        e = pr.eps0.copy()
        e[des] = 1 + (pr.em - 1)*pr.rho0[des]
        sim.eps_r = e.copy()
        sim.rho = None
        if case['init'] != 'none':
            sim.init_design_region(pr.des, pr.em, style=case['init'])
            ctx.op('init')
    rho_out = pr.rho0[~des]
    eps_out = pr.eps0[~des]
    src = sim.src.copy()
    lo, hi = min(1, pr.em), max(1, pr.em)
    # the exact densities inside at the start
    J = grads.make_J(pr.form, len(pr.args), pr.P)
    when = ['start']

    def look():
        r, e = np.asarray(sim.rho), np.asarray(sim.eps_r)
        ctx.check(r.shape == pr.shape and e.shape == pr.shape, 'the shape of the structure changed: %s' % case)
        x = r[des]
        ctx.check(np.all(np.isfinite(x)) and not np.any(np.imag(x)) and np.all(np.real(x) >= 0) and np.all(np.real(x) <= 1),
                  lambda: 'densities from %.17g to %.17g at %s: %s' % (np.min(np.real(x)), np.max(np.real(x)), when[0], case))
        ctx.check(np.max(np.abs(r[~des] - rho_out), initial=0) <= 1e-12*max(1, np.max(np.abs(rho_out), initial=0)),
                  lambda: 'the density outside of the design region changed by %.3g at %s: %s' % (np.max(np.abs(r[~des] - rho_out)), when[0], case))
        ctx.check(np.max(np.abs(e[~des] - eps_out), initial=0) <= 1e-12*max(1, np.max(np.abs(eps_out), initial=0)),
                  lambda: 'the permittivity outside of the design region changed by %.3g at %s: %s' % (np.max(np.abs(e[~des] - eps_out)), when[0], case))
        want = pr.eps(r)
        err = np.abs(e - want)[des]
        ctx.check(np.max(err, initial=0) <= 1e-7*abs(pr.em), lambda: 'the permittivity is not that of the density (off by %.3g) at %s: %s' % (err.max(), when[0], case))
        rc = (pr.W @ r.ravel()).reshape(pr.shape)[des]
        rt = np.real(rc)
        if rt.size and rt.min() >= 0 and rt.max() <= 1 and not np.any(np.imag(rc)):     # the filter may mix in other materials from outside
            ctx.check(np.min(np.real(e[des])) >= lo - 1e-6 and np.max(np.real(e[des])) <= hi + 1e-6,
                      lambda: 'permittivity from %.6g to %.6g inside the design region at %s: %s' % (np.min(np.real(e[des])), np.max(np.real(e[des])), when[0], case))

    def Jw(a):
        look()
        return J(a)

    def Jw2(a, b):
        look()
        return J(a, b)
    pr.objective.J = Jw if len(pr.args) == 1 else Jw2
    r0 = pr.rho0 if case['init'] in ('rho', 'none') else np.array(sim.rho)
    for m in [case['method']] + ([case['then']] if 'then' in case else []):
        when[0] = m[0]
        keep = [a.copy() for a in (pr.des,)]
        o.run(method=m[0], Nsteps=case['N'], step_size=m[1], verbose=False)
        ctx.op('run %s' % m[0])
        ctx.check(np.array_equal(pr.des, keep[0]), 'the design region was modified')
        when[0] = 'end'
        look()
        ctx.check(np.array_equal(sim.src, src), 'the source changed: %s' % case)
        ctx.state(*[str(v) for v in case.values()], m)
    if case['N'] == 0:
        ctx.check(np.max(np.abs(np.asarray(sim.rho) - r0)) <= 1e-12*max(1, np.max(np.abs(r0))), 'no step was made but the density changed: %s' % case)
        ctx.check(len(o.objfn_list) == 0, 'no step was made but objectives were recorded: %s' % case)
    ctx.trace_ok()
