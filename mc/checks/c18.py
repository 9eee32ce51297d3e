"""C18 optimizers follow their update rules uphill"""
import contextlib
import itertools
import os

import numpy as np

from mc.util import *
from mc.opt import Prob
from mc.checks.c14 import FILT

RULE = ('every method x number of steps x step size x decay pair x problem x start x filter/projection x design region; the density after every '
        'prefix of the run is compared with one step of the reference optimizer from the density before it, and the recorded objectives with the reference objective there; '
        'runs continued with a second call; L-BFGS for ascent, a stationary end point, and its record')
BOUND = {'quick': '10 domains, 7 sources, 5 units and materials; up to 3 steps (GD, ADAM), 1..4 and 40 steps (L-BFGS)', 'thorough': 'up to 6 steps (GD, ADAM), 1..8 and 60 steps (L-BFGS)'}
ASSUMPTIONS = ['cells whose derivative is below 1e-5 of the largest are not compared for ADAM, which normalizes by it']
STEPS = [1e-3, 0.3, 100.0]
DECAY = [(0.9, 0.999), (0.5, 0.9), (0.0, 0.3)]


def cases(tier):
    q = tier == 'quick'
    out = []
    probs = ['Ez', 'Hx', 'Hz', 'Ey', 'kerr', 'mixed']
    regs = ['block', 'edge', 'bool', 'checker', 'one', 'int']
    starts = ['gen', 'mixed', 'zero', 'one', 'half']
    n = 0
    N = 3 if q else 6
    for p, s, f in itertools.product(probs, starts, FILT):
        for st in [STEPS[n % 3]] if q else STEPS:
            n += 1
            for g in [[1.0, -1.0][n//3 % 2]] if q else [1.0, -1.0]:
                out.append(dict(method='GD', problem=p, start=s, filt=f, region=regs[n % 6], step=st, N=N, g=g))
        for d in [DECAY[n//2 % 3]] if q else DECAY:
            n += 1
            for st in [STEPS[n % 2]] if q else STEPS[:2] + [1.0]:
                out.append(dict(method='ADAM', problem=p, start=s, filt=f, region=regs[n % 6], step=st, decay=d, N=N, g=[1.0, -1.0, 1e-6, 1e4][n % 4]))
        for k in [[1, 2, 4][n % 3]] if q else [1, 2, 4, 6, 8]:
            n += 1
            out.append(dict(method='LBFGS', problem=p, start=s, filt=f, region=regs[n % 6], N=k, g=[1.0, -1.0, 1e3][n % 3]))
        n += 1
        out.append(dict(method='LBFGS', problem=p, start=s, filt=f, region=['one', 'corner', 'block'][n % 3], N=40 if q else 60, g=[1.0, -1.0][n % 2]))
    for p, m, nn in itertools.product(probs, ['gd', 'Adam', 'lbfgs'], [1, 2]):
        out.append(dict(method=m, problem=p, start='gen', filt=FILT[2], region='block', step=0.1, decay=DECAY[0], N=nn, g=1.0, twice=True))
    for k, (p, m) in enumerate(itertools.product(probs, ['GD', 'ADAM'])):       # longer runs
        out.append(dict(method=m, problem=p, start=['gen', 'half'][k//2 % 2], filt=FILT[k % 5], region=['block', 'checker', 'edge'][k % 3], step=[0.02, 0.05][k//4 % 2], decay=DECAY[k//2 % 2], N=12 if q else 30, g=1.0))
    for k, (p, m) in enumerate(itertools.product(['Ez', 'Hz', 'kerr'], ['', 'GD', 'ADAM'])):      # what is not given has its documented default
        out.append(dict(method=m or 'LBFGS', problem=p, start='gen', filt=FILT[k % 2], region='block', step=0.1, decay=DECAY[0], N=100 if k == 1 else 4 if m else 100, g=1.0, default=m or 'all'))
    for k, (p, m, f, s) in enumerate(itertools.product(['Ez', 'Hx', 'kerr'], ['GD', 'ADAM', 'LBFGS'], FILT, ['ints', 'bools'])):       # a binary design given as integers
        out.append(dict(method=m, problem=p, start=s, filt=f, region=regs[k % 6], step=STEPS[k % 2], decay=DECAY[k % 3], N=[3, 2][k % 2], g=1.0))
    for k, (p, f, d) in enumerate(itertools.product(probs, FILT, DECAY[:2] if q else DECAY)):     # a second run starts over
        out.append(dict(method='ADAM', problem=p, start=starts[k % 5], filt=f, region=regs[k % 6], step=STEPS[k % 2], decay=d, N=[2, 1, 3][k % 3], g=[1.0, -1.0][k//2 % 2], again=['ADAM', 'GD', 'LBFGS'][k % 3 if not q else [0, 0, 1, 0, 2][k % 5]]))
    # objectives with a kink, on which line searches fail
    for p, f, c, n in itertools.product(['Ez', 'Hz', 'Hx', 'kerr'], FILT if not q else FILT[:3], [0.7, 0.98, 1.03, 1.3], [3, 30]):
        out.append(dict(method='LBFGS', problem=p, start='gen', filt=f, region='block', N=n, kink=c, g=1.0))
        if c > 1:
            out.append(dict(method='LBFGS', problem=p, start='gen', filt=f, region='block', N=n, kink=c, cliff=True, g=1.0))
    return scales(out)


BACKS = ['gen', 'ones', 'gen', 'lossy', 'gen', 'low', 'neg']
NOT = {'low': ('kerr', 'mixed'), 'neg': ('kerr', 'mixed', 'Hz', 'Ey')}      # strong resonances of the Kerr problem; the averaged permittivity of neighbours crosses zero


def scales(out):
    """rotate through the length scales and materials"""
    return [dict(c, phys=[0, 1, 2, 3, 5, 6][n % 6], em=[5.0, 12.1, 5.0, 2.2, 0.4, [6.0, -0.5]][n//5 % 6], geo=[0, n//3][n % 2] if c.get('N', 1) < 10 else 0, sk=[0, n//5][n//2 % 2], back=c.get('back') or BACKS[n//2 % 7] if c['problem'] not in NOT.get(BACKS[n//2 % 7], ()) and c.get('N', 1) < 10 else 'gen') for n, c in enumerate(out)]


def call(o, case, n, **kw):
    if not case.get('default'):
        return o.run(method=case['method'], Nsteps=n, verbose=False, **kw)
    with open(os.devnull, 'w') as f, contextlib.redirect_stdout(f), contextlib.redirect_stderr(f):
        if case['default'] == 'all':
            o.run()
        elif n == 100:
            o.run(method=case['method'])
        else:
            o.run(case['method'], n)


def run(case, ctx):
    method = case['method'].upper()
    pr = Prob(case['problem'], case['region'], case['filt'], case['start'], back=case.get('back', 'gen'), gscale=abs(case['g']), phys=case.get('phys', 0), em=case.get('em', 5.0), geo=case.get('geo', 0), sk=case.get('sk', 0))
    if case['g'] < 0:           # go down instead of up
        pr.P = [-p for p in pr.P]
        from mc import grads
        pr.objective.J = grads.make_J(pr.form, len(pr.args), pr.P)
    o, sim = pr.opt, pr.sim
    if case['region'] == 'empty':
        return
    des = pr.inside
    ctx.state(*[str(v) for v in case.values()])
    if case.get('kink'):
        return kink(case, ctx, pr)
    if method == 'LBFGS':
        return lbfgs(case, ctx, pr)
    if case.get('again'):
        return again(case, ctx, pr)
    path, J = [pr.rho0], []
    if case['N'] == 100:        # only the last step of a long run
        path, J = [None]*99, [None]*99
        todo = [98, 99]
    else:
        todo = range(case['N'])
    for k in todo:
        # prefix of length k+1 as a run of its own from the start (or, for GD, a continued run)
        q = pr if (case.get('twice') and method == 'GD' and k > 0) else fresh(case)
        n = 1 if q is pr and k > 0 else k + 1
        before = len(q.opt.objfn_list)
        kw = {} if method == 'GD' else dict(beta1=case['decay'][0], beta2=case['decay'][1])
        call(q.opt, case, n, step_size=case['step'], **kw)
        ctx.op('run %s %d' % (method, n))
        rec = list(q.opt.objfn_list[before:])
        ctx.check(len(rec) == n, lambda: '%d objectives recorded for %d steps: %s' % (len(rec), n, case))
        J = rec if n == k + 1 else J + rec
        path.append(np.array(q.sim.rho))
        ctx.check(np.array_equal(q.sim.src, pr.src), 'the optimization changed the source: %s' % case)
        if case.get('twice') and k == 0:
            pr = q          # go on with this one
    m = v = 0
    for k in todo[1:] if case['N'] == 100 else todo:
        if pr.nl and k:
            p = pr.prob(path[k])
            if not ref.born(p.m, p.kerr, pr.src, itmax=18, tol=1e-11)[1]:
                ctx.op('multistable')       # from here on the Kerr problem may have several solutions
                break
        g, j = pr.grad(path[k])
        ctx.check(abs(J[k] - j) <= 1e-6*abs(j),
                  lambda: 'objective %d recorded as %.10g, it was %.10g: %s' % (k, J[k], j, case))
        if method == 'GD':
            base = path[k].real
            want = np.clip(base + case['step']*g, 0, 1)
            tol = 2e-6*case['step']*np.max(np.abs(g)) + 1e-12
            err = np.abs(path[k + 1].real - want)[des]
        else:
            b1, b2 = case['decay']
            m, v = b1*m + (1 - b1)*g, b2*v + (1 - b2)*g**2
            d = (m/(1 - b1**(k + 1)))/(np.sqrt(v/(1 - b2**(k + 1))) + 1e-8)
            want = np.clip(path[k].real + case['step']*d, 0, 1)
            tol = 2e-3*case['step'] + 1e-12
            err = np.abs(path[k + 1].real - want)[des & (np.abs(g) > 1e-5*np.max(np.abs(g))) & (np.abs(g) > 1e-9*abs(j))]      # more than rounding
        ctx.check(err.size == 0 or err.max() <= tol, lambda: 'after step %d the density differs by %.3g from the %s rule: %s' % (k + 1, err.max(), method, case))
        ctx.check(np.array_equal(path[k + 1][~des], pr.rho0[~des]), 'the density outside of the design region changed: %s' % case)
        ctx.trace_ok()


def fresh(case):
    pr = Prob(case['problem'], case['region'], case['filt'], case['start'], back=case.get('back', 'gen'), gscale=abs(case['g']), phys=case.get('phys', 0), em=case.get('em', 5.0), geo=case.get('geo', 0), sk=case.get('sk', 0))
    if case['g'] < 0:
        from mc import grads
        pr.P = [-p for p in pr.P]
        pr.objective.J = grads.make_J(pr.form, len(pr.args), pr.P)
    return pr


def lbfgs(case, ctx, pr):
    o, sim, des = pr.opt, pr.sim, pr.inside
    j0 = pr.value(pr.rho0)
    total = []
    for rep in range(2 if case.get('twice') else 1):
        n0 = len(o.objfn_list)
        start = np.array(sim.rho)
        js = pr.value(start)
        call(o, case, case['N'])
        ctx.op('run LBFGS %d' % case['N'])
        rec = list(o.objfn_list[n0:])
        end = np.array(sim.rho)
        je = pr.value(end)
        t = 1e-9*max(abs(js), abs(je))
        ctx.check(je >= js - t, lambda: 'L-BFGS went from %.10g down to %.10g: %s' % (js, je, case))
        ctx.check(len(rec) <= case['N'], lambda: '%d objectives recorded for at most %d steps: %s' % (len(rec), case['N'], case))
        ctx.check(all(b >= a - t for a, b in zip([js] + rec, rec)), lambda: 'the recorded objectives decrease: %s (from %.10g), %s' % (rec, js, case))
        if rec:
            ctx.check(abs(rec[-1] - je) <= 1e-6*abs(je), lambda: 'the last recorded objective is %.10g, the structure it ends on has %.10g: %s' % (rec[-1], je, case))
        ctx.check(np.array_equal(end[~des], start[~des]), 'the density outside of the design region changed: %s' % case)
        g, _ = pr.grad(start)
        r = start.real
        proj0 = np.max(np.abs(np.clip(r + g, 0, 1) - r)[des])
        if case['N'] == 0:
            pass
        elif proj0 > 1e-6*np.max(np.abs(g)) and proj0 > 1e-9 and np.sum(g*(np.clip(r + g, 0, 1) - r)*des) > 1e-9*abs(js):      # more than rounding
            ctx.check(je > js and len(rec) > 0, lambda: 'L-BFGS made no progress from a point that is not stationary (%.3g): %s' % (proj0, case))
        if case['N'] >= 40 and len(rec) < case['N']:
            ge, _ = pr.grad(end)
            r = end.real
            s = np.max(np.abs(ge))
            free = np.abs(np.clip(r + ge/max(s, 1e-300)*0.01, 0, 1) - r)[des]*100*s      # the projected gradient
            ctx.check(free.max() <= 2e-2*np.max(np.abs(g)), lambda: 'L-BFGS stopped at a point with projected gradient %.3g (%.3g at the start): %s' % (free.max(), np.max(np.abs(g)), case))
        ctx.trace_ok()


def kink(case, ctx, pr):
    """a distance to a target value of the objective: not differentiable where it is best"""
    import autograd.numpy as npa
    P, t0 = pr.P[0], pr.value(pr.rho0)
    goal = case['kink']*t0
    form = pr.objective.J
    pr.objective.J = lambda e: -npa.abs(form(e) - goal)/abs(t0)
    val = lambda rho: -abs(pr.value(rho) - goal)/abs(t0)
    if case.get('cliff'):           # the objective grows, and drops at the goal
        pr.objective.J = lambda e: npa.where(form(e) > goal, form(e)/abs(t0) - 5, form(e)/abs(t0))
        val = lambda rho: pr.value(rho)/abs(t0) - 5*(pr.value(rho) > goal)
    best = js = val(pr.rho0)
    for rep in range(1 if case.get('cliff') else 2):
        n0 = len(pr.opt.objfn_list)
        call(pr.opt, case, case['N'])
        ctx.op('run LBFGS %d' % case['N'])
        rec = list(pr.opt.objfn_list[n0:])
        je = val(np.array(pr.sim.rho))
        if case.get('cliff') and abs(pr.value(np.array(pr.sim.rho)) - goal) < 1e-8*abs(goal):
            return      # rounding decides on which side of the cliff this is
        ctx.check(je >= js - 1e-7, lambda: 'L-BFGS went from %.10g down to %.10g: %s' % (js, je, case))
        ctx.check(all(b >= a - 1e-7 for a, b in zip([js] + rec, rec)), lambda: 'the recorded objectives decrease: %s (from %.10g), %s' % (rec, js, case))
        ctx.check(not rec or abs(rec[-1] - je) <= 1e-7, lambda: 'the last recorded objective is %.10g, the structure it ends on has %.10g: %s' % (rec[-1], je, case))
        ctx.check(rel(np.array(pr.sim.eps_r), pr.eps(np.array(pr.sim.rho))) < 1e-9, lambda: 'the permittivity is not that of the density: %s' % case)
        ctx.state(*[str(v) for v in case.values()], rep)
        js = je
    ctx.trace_ok()


def again(case, ctx, pr):
    """a run after another run follows the rule from its start"""
    b1, b2 = case['decay']
    kw = dict(step_size=case['step'], beta1=b1, beta2=b2)
    path = []
    for n in (0, 1, 2):
        q = fresh(case)
        call(q.opt, case, case['N'], **kw)
        if case['again'] != 'ADAM':
            q.opt.run(method=case['again'], Nsteps=1, step_size=case['step'], verbose=False)
        if n:
            call(q.opt, case, n, **kw)
        ctx.op('run ADAM %d, %s, ADAM %d' % (case['N'], case['again'], n))
        ctx.check(len(q.opt.objfn_list) == case['N'] + n or case['again'] != 'ADAM', lambda: '%d objectives recorded for %d steps: %s' % (len(q.opt.objfn_list), case['N'] + n, case))
        path.append(np.array(q.sim.rho))
    m = v = 0
    for k in (0, 1):
        g, j = pr.grad(path[k])
        m, v = b1*m + (1 - b1)*g, b2*v + (1 - b2)*g**2
        d = (m/(1 - b1**(k + 1)))/(np.sqrt(v/(1 - b2**(k + 1))) + 1e-8)
        want = np.clip(path[k].real + case['step']*d, 0, 1)
        err = np.abs(path[k + 1].real - want)[pr.inside & (np.abs(g) > 1e-4*np.max(np.abs(g))) & (np.abs(g) > 1e-6)]
        ctx.check(err.size == 0 or err.max() <= 2e-3*case['step'] + 1e-12, lambda: 'after step %d of the second run the density differs by %.3g from the ADAM rule: %s' % (k + 1, err.max(), case))
    ctx.trace_ok()
