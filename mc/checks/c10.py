"""C10 results never depend on what a simulation was used for before"""
import itertools

import numpy as np

from mc import ref
from mc.util import *

RULE = ('every sequence of operations up to the depth over the alphabet, for each polarization and PML; after every operation the '
        'visible state (no stale fields) and after the last one all results (linear fields, flux, nonlinear fields, index shift, mode '
        'power) are compared with the reference model and with a new simulation built in that state')
BOUND = {'quick': 'depth 2 over 19 operations, depth 3 over 9', 'thorough': 'depth 3 over 19 operations, depth 4 over 9'}
ASSUMPTIONS = ['nonlinear fields are compared where the reference iteration from the same start converges to the solution that continues the linear one',
               'the frequency is changed as angler itself does it: set omega, then assign the permittivity again']

OPS = ['eps', 'tiny', 'inplace', 'shape', 'complex', 'weakloss', 'int', 'src', 'srcin', 'omega', 'addnl', 'clear', 'mode', 'lin', 'born',
       'newton', 'shift', 'style', 'roll']
CORE = ['eps', 'tiny', 'src', 'srcin', 'omega', 'addnl', 'lin', 'newton', 'shape']


def cases(tier):
    q = tier == 'quick'
    seqs = []
    for n in range(0, 3 if q else 4):
        seqs += list(itertools.product(OPS, repeat=n))
    seqs += list(itertools.product(CORE, repeat=3 if q else 4))
    out = []
    for s in seqs:
        for pol, npml in (('Ez', (2, 0)), ('Hz', (0, 2))) if len(s) > 1 else itertools.product(('Ez', 'Hz'), ((2, 0), (0, 2), (2, 2))):
            if pol == 'Hz' and any(o in ('addnl', 'clear', 'newton', 'shift', 'born') for o in s):
                continue
            orders = ['nl', 'shift', 'lin']
            if pol == 'Hz' or len(s) > 2 or 'addnl' not in s:
                orders = [orders[len(out) % 3]]
            for f in orders:
                out.append(dict(pol=pol, npml=npml, ops=s, first=f, phys=[0, 2, 0, 3, 5][len(out) % 5]))
    for pol, pre, n in itertools.product(('Ez', 'Hz'), ([], ['lin'], ['omega'], ['shape'], ['line']), range(0, 2 if q else 3)):
        for post in itertools.product(['eps', 'tiny', 'src', 'lin', 'omega', 'complex', 'line', 'int'], repeat=n):
            out.append(dict(pol=pol, npml=(2, 0), ops=pre + ['line'] + list(post), first='nl', phys=[0, 2, 0, 3, 5][len(out) % 5]))
    return out


class State:
    def __init__(self, pol, npml, phys=0):
        self.pol, self.npml = pol, npml
        self.omega, self.dl, self.L0 = PHYS[phys]
        self.eps = eps_of('gen', (9, 8)) - 0.05j
        self.eps = self.eps.real.copy() if pol == 'Ez' else self.eps
        self.src = src_of('mid', (9, 8))*20
        self.regs = []
        self.sc = 1.0       # scale of the Kerr coefficients: the same index shifts in every case
        if phys:
            E0, E = (np.max(np.abs(ref.Model(*(a[0], self.eps, a[1], npml, pol, a[2])).solve_sparse(self.src)[2])) for a in (PHYS[0], PHYS[phys]))
            self.sc = (E0/1e-6*self.L0/E)**2

    def model(self):
        return ref.Model(self.omega, self.eps, self.dl, self.npml, self.pol, self.L0)


def run(case, ctx):
    from angler import Simulation
    pol, npml = case['pol'], tuple(case['npml'])
    st = State(pol, npml, case.get('phys', 0))
    OM = st.omega
    sim = Simulation(st.omega, st.eps.copy(), st.dl, list(npml), pol, L0=st.L0)
    sim.src = st.src.copy()
    hist = []
    solved = False
    for op in case['ops']:
        hist.append(op)
        cur = sim.eps_r
        assigned = True
        if op == 'eps':
            st.eps = st.eps + 0.9*gen(st.eps.shape, 11 + len(hist))
            sim.eps_r = st.eps.copy()
        elif op == 'tiny':
            st.eps = st.eps.copy()
            st.eps[st.eps.shape[0]//2, st.eps.shape[1]//2] += 1e-7
            sim.eps_r = st.eps.copy()
        elif op == 'roll':              # the same material values in other places
            st.eps = np.roll(st.eps, 1, axis=1 if npml[1] == 0 else 0).copy()
            sim.eps_r = st.eps.copy()
        elif op == 'inplace':
            cur[4, 3] += 0.5            # modify the array of the simulation, then assign it
            st.eps = cur.copy()
            sim.eps_r = cur
        elif op == 'shape':
            st.eps = 1 + 5*gen((st.eps.shape[1] + 2, st.eps.shape[0] - 1), 12)     # (9, 8) -> (10, 8) -> (10, 9) -> (11, 9)
            st.src = src_of('mid', st.eps.shape)*20
            st.regs = []
            sim.nonlinearity = []
            sim.modes = []
            sim.eps_r = st.eps.copy()
            sim.src = st.src.copy()
        elif op == 'line':              # a one-dimensional permittivity
            e = 1 + 5*gen((11 + len(hist), 1), 13)[:, 0]
            st.eps = e.reshape(-1, 1).copy()
            st.src = src_of('mid', st.eps.shape)*20
            st.regs, sim.nonlinearity, sim.modes = [], [], []
            sim.eps_r = e
            sim.src = st.src.copy()
        elif op == 'complex':
            st.eps = st.eps - 0.3j*gen(st.eps.shape, 2)
            sim.eps_r = st.eps.copy()
        elif op == 'weakloss':
            st.eps = st.eps - 3e-4j*gen(st.eps.shape, 2)
            sim.eps_r = st.eps.copy()
        elif op == 'int':
            st.eps = np.ones(st.eps.shape, int) + (np.add.outer(np.arange(st.eps.shape[0]), np.arange(st.eps.shape[1])) % 3)
            sim.eps_r = st.eps.copy()
        elif op == 'src':
            st.src = 0.3*src_of('gen', st.eps.shape)
            sim.src = st.src.copy()
            assigned = False
        elif op == 'srcin':
            k = tuple(n//2 - 1 for n in st.eps.shape)
            st.src = st.src.astype(complex)
            st.src[k] = 33j
            sim.src[k] = 33j
            assigned = False
        elif op == 'omega':
            st.omega = OM*1.4 if st.omega == OM else OM
            sim.omega = st.omega
            sim.eps_r = sim.eps_r
        elif op == 'addnl':
            st.regs.append((4e-18*st.sc, gen(st.eps.shape, 3), None) if not st.regs else (1e-18*st.sc, 1 - 0.5*gen(st.eps.shape, 4), 6.0))
            c, r, e = st.regs[-1]
            sim.add_nl(c, r.copy(), eps_scale=e is not None, eps_max=e)
            assigned = False
        elif op == 'clear':
            st.regs = []
            sim.nonlinearity = []
            assigned = False
        elif op == 'mode':
            sim.add_mode(1.6, 'x', [st.eps.shape[0]//2, st.eps.shape[1]//2], 4, scale=5)
            sim.setup_modes()
            st.src = np.array(sim.src)      # what a mode writes is decided by C09
            assigned = False
        elif op == 'lin':
            sim.solve_fields()
            assigned = False
        elif op in ('born', 'newton'):
            was = {k: (v, np.array(v)) for k, v in sim.fields.items() if v is not None}
            sim.solve_fields_nl(solver_nl=op)
            kept = all(sim.fields[k] is not None and np.array_equal(sim.fields[k], v) for k, (_, v) in was.items())
            ctx.check(kept or all(rel(sim.fields[k], v) < 1e-7 for k, v in zip(NAMES[pol], st.model().solve_sparse(st.src))), 'solving the nonlinear fields changed the linear ones: %s' % case)
            assigned = False
        elif op == 'shift':
            sim.compute_index_shift()
            assigned = False
        elif op == 'style':
            des = np.zeros(st.eps.shape)
            des[2:5, 3:6] = 1
            if st.eps.dtype.kind == 'i':
                st.eps = st.eps*1.0
                sim.eps_r = st.eps.copy()
            st.eps = st.eps.copy()
            st.eps[des == 1] = 3.5
            sim.init_design_region(des, 6.0, style='halfway')
        ctx.op(op)
        where = 'after %s: %s' % (hist, case)
        if assigned:
            ctx.check(all(v is None for v in list(sim.fields.values()) + list(sim.fields_nl.values())),
                      'fields of an earlier permittivity are still there ' + where)
            ctx.check((sim.Nx, sim.Ny) == st.eps.shape and abs(sim.dl - st.dl) < 1e-15, 'grid ' + where)
        ctx.check(np.array_equal(sim.eps_r, st.eps), 'wrong permittivity ' + where)
        ctx.check(np.array_equal(sim.src, st.src), 'wrong source ' + where)
        ctx.state(pol, npml, tuple(hist))
    observe(ctx, sim, st, case)


def observe(ctx, sim, st, case):
    where = 'after %s: %s' % (case['ops'], case)
    pol = st.pol
    m = st.model()
    lin = m.solve_sparse(st.src)
    fresh = sim_of(st.omega, st.eps.copy(), st.dl, st.npml, pol, st.L0)
    fresh.src = st.src.copy()
    for c, r, e in st.regs:
        fresh.add_nl(c, r.copy(), eps_scale=e is not None, eps_max=e)
    if case['first'] == 'lin':          # the results are asked for in different orders
        out = sim.solve_fields()
        ctx.check(all(rel(a, b) < 1e-7 for a, b in zip(out, lin)), 'the first fields differ from those of a new simulation ' + where)
    if pol == 'Ez':
        # first the nonlinear fields, started from whatever is stored
        kerr = ref.Kerr(st.regs, st.L0)
        E, ok, steps = ref.newton(m, kerr, st.src)
        bE, bok, bsteps, _ = ref.born(m, kerr, st.src, itmax=18)
        if ok and bok and rel(bE, E) < 1e-6 and bsteps[0] < 0.5:
            want = np.abs(ref.index(st.eps + kerr.eps_nl(E, st.eps)) - ref.index(st.eps))
            if case['first'] == 'shift':      # the index shift first, then the nonlinear fields
                got = sim.compute_index_shift()
                ctx.check(np.max(np.abs(got - want)) <= 1e-5*np.max(want) + 1e-13, lambda: 'the first index shift differs ' + where)
            for solver in ('newton', 'born'):
                start = sim.fields[pol]     # the solver starts from the stored linear field, even if it belongs to an older source
                if start is not None and rel(start, lin[2]) > 1e-9:
                    q = (ref.newton if solver == 'newton' else ref.born)(m, kerr, st.src, E0=np.array(start), itmax=18)
                    if not q[1] or rel(q[0], E) > 1e-6:
                        ctx.op('not comparable')
                        continue
                out = sim.solve_fields_nl(solver_nl=solver)
                ctx.op('nl')
                ctx.check(rel(out[2], E) < 1e-6, lambda: 'nonlinear fields (%s) differ by %.3g from those of a new simulation %s'
                          % (solver, rel(out[2], E), where))
            got = sim.compute_index_shift()
            ctx.check(np.max(np.abs(got - want)) <= 1e-5*np.max(want) + 1e-13, lambda: 'index shift differs ' + where)
    out = sim.solve_fields()
    ctx.op('lin')
    tol = 1e-7
    for nm, a, b in zip(NAMES[pol], out, lin):
        ctx.check(rel(a, b) < tol, lambda: '%s differs by %.3g from the field of a new simulation %s' % (nm, rel(a, b), where))
        ctx.check(np.array_equal(sim.fields[nm], a), 'stored fields ' + where)
    fout = fresh.solve_fields()
    ctx.check(all(rel(a, b) < 1e-9 for a, b in zip(out, fout)), 'fields differ from those of a new simulation ' + where)
    c = [st.eps.shape[0]//2, st.eps.shape[1]//2]
    for d in 'xy':
        a, b = sim.flux_probe(d, c, 3), fresh.flux_probe(d, c, 3)
        s = np.max(np.abs(lin[2]))*max(np.max(np.abs(lin[0])), np.max(np.abs(lin[1])))*st.dl
        ctx.check(abs(a - b) < 1e-8*s, 'flux differs from that of a new simulation ' + where)
    if sim.modes:
        fresh.modes = []
        mo = sim.modes[-1]
        sim.modes = []
        for x in (sim, fresh):
            x.add_mode(mo.neff, mo.direction_normal, list(mo.center), mo.width, scale=mo.scale)
            x.setup_modes()
        ctx.check(abs(sim.W_in - fresh.W_in) <= 1e-5*abs(fresh.W_in), 'mode power differs ' + where)
        sim.src = st.src.copy()
    ctx.trace_ok()
