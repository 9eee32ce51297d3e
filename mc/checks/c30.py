"""C30 derivative checks compare the gradient with the difference quotient in the same design cell"""
import itertools

import numpy as np

from mc.util import *
from mc.opt import Prob
from mc.checks.c14 import FILT, STEEP
from mc.checks.c18 import scales

RULE = ('every problem x filter/projection x design region x start density x density step; the pairs that a derivative check returns for many points are looked up in the table of '
        '(exact derivative, difference quotient of the reference objective) of ALL design cells; repeated checks, and checks after a step of an optimization')
BOUND = {'quick': '10 domains, 7 sources, 6 problems, 5 filters, 7 regions, 4 starts, 4 steps (pairwise)', 'thorough': '6 problems x 5 filters x 7 regions x 4 starts x 4 steps'}
ASSUMPTIONS = ['the cells are drawn at random by the code; every returned pair is decided against all cells']
PROBS = ['Ez', 'Hx', 'Hz', 'Ey', 'kerr', 'mixed']
REGIONS = ['one', 'block', 'edge', 'corner', 'bool', 'int', 'line']
STARTS = ['gen', 'one', 'mixed', 'half']
STEPS = [1e-3, 0.05, -1e-2, 0.3]


def cases(tier):
    out = []
    axes = [PROBS, FILT, REGIONS, STARTS, STEPS]
    if tier != 'quick':
        combos = itertools.product(*axes)
    else:
        combos = []
        n = 0
        for i, j in itertools.combinations(range(5), 2):
            for a, b in itertools.product(axes[i], axes[j]):
                n += 1
                c = [ax[(n*(k + 1) + n//7) % len(ax)] for k, ax in enumerate(axes)]
                c[i], c[j] = a, b
                combos.append(c)
    for n, (p, f, r, s, d) in enumerate(combos):
        out.append(dict(problem=p, filt=f, region=r, start=s, step=d, pre=['none', 'gd', 'norho', 'again'][n % 4]))
    for n, (p, f, s) in enumerate(itertools.product(['Ez', 'Hx', 'kerr', 'mixed'], FILT, ['ints', 'bools'])):      # a binary design given as integers
        out.append(dict(problem=p, filt=f, region=REGIONS[n % 7], start=s, step=STEPS[n % 4], pre=['none', 'gd', 'again'][n % 3]))
    for n, (p, f, r) in enumerate(itertools.product(PROBS, STEEP + FILT[:1], ['full', 'checker', 'edge'])):      # steep projections; a limit of the index shift has no influence here
        out.append(dict(problem=p, filt=f, region=r, start='gen', step=STEPS[n % 2], pre=['none', 'norho', 'again'][n % 3], limit=[1e-3, None][n % 2]))
    for p, r in itertools.product(PROBS, ['block', 'edge']):       # the default call
        out.append(dict(problem=p, filt=FILT[1], region=r, start='gen', step=1e-3, pre='none', default=True))
    return scales(out)


def run(case, ctx):
    pr = Prob(case['problem'], case['region'], case['filt'], case['start'], back=case.get('back', 'gen'), gscale=1.0, phys=case.get('phys', 0), em=case.get('em', 5.0), geo=case.get('geo', 0), sk=case.get('sk', 0), max_ind_shift=case.get('limit'))
    o, sim = pr.opt, pr.sim
    rho = pr.rho0
    d = case['step']
    if case['pre'] == 'gd':
        o.run(method='GD', Nsteps=1, step_size=0.05, verbose=False)
        rho = np.array(sim.rho)
        ctx.op('gd')
    elif case['pre'] == 'norho':        # the density follows from the permittivity
        e = pr.eps0.astype(np.result_type(pr.eps0, pr.em))
        e[pr.inside] = 1 + (pr.em - 1)*rho[pr.inside]
        sim.eps_r = e
        sim.rho = None
    elif case['pre'] == 'again':
        o.check_deriv(Npts=1, d_rho=2*d)
        ctx.op('check')
    g, J0 = pr.grad(rho)
    cells = np.argwhere(pr.inside)
    want = []
    for i, j in cells:
        r = rho.copy()
        r[i, j] += d
        want.append((g[i, j], (pr.value(r) - J0)/d))
    want = np.array(want)
    scale = np.max(np.abs(want))
    n = 1 if len(cells) == 1 else 6
    if case.get('default'):
        n = 5
        a, b = o.check_deriv()
    else:
        a, b = o.check_deriv(Npts=n, d_rho=d)
    ctx.op('check', n)
    ctx.check(len(a) == n and len(b) == n, lambda: '%d and %d derivatives for %d points: %s' % (len(a), len(b), n, case))
    tol = 1e-6*scale + 1e-9*abs(J0)/abs(d)
    for x, y in zip(np.real(a), np.real(b)):
        e = np.max(np.abs(want - np.array([x, y])), axis=1)
        ctx.check(e.min() <= tol, lambda: 'the derivatives %.9g and %.9g (step %g) are not those of any design cell; the closest are %s: %s' % (x, y, d, want[e.argmin()], case))
    ctx.check(np.max(np.abs(np.asarray(sim.rho) - rho)) <= 1e-12*max(1, np.max(np.abs(rho))), 'the derivative check changed the density: %s' % case)
    ctx.check(np.max(np.abs(np.asarray(sim.eps_r) - pr.eps(rho))) <= 1e-7*np.max(np.abs(sim.eps_r)), 'the permittivity is not that of the density after a derivative check: %s' % case)
    ctx.check(np.array_equal(sim.src, pr.src), 'the derivative check changed the source: %s' % case)
    ctx.state(*[str(v) for v in case.values()])
    ctx.trace_ok()
