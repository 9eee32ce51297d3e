"""C31 a stored device describes the structure it was made from"""
import contextlib
import copy
import importlib.util
import itertools
import os
import sys
import tempfile
import types
import warnings

import autograd.numpy as npa
import numpy as np

from mc import ref
from mc.util import *

RULE = ('every order of the operations on a device (parameters, geometry, index shift, transmissions, frequency scan, power scan, changes of the originals, save and load) up to the depth, for every '
        'structure type; all that is stored is compared with the reference model and with scans of the originals; every kind of structure x strength for the complete sequence')
BOUND = {'quick': 'depth 3 after parameters and geometry, 3 structure types', 'thorough': 'depth 4 over 7 operations, 3 structure types, 3 strengths'}
ASSUMPTIONS = ['dill is not installed: its dump and load are stand-ins that keep a deep copy', 'the probes of a device are those documented in its source: in the middle of each outgoing waveguide']
TYPES = {'two_port': (1.0, 1.2, 0.4, 1.0, 0.6, 0.1, [4, 4], 4.0), 'three_port': (1.0, 1.6, 0.4, 0.9, 1.0, 0.6, 0.1, [4, 4], 4.0),
         'ortho_port': (1.2, 1.0, 1.2, 1.0, 0.4, 0.9, 0.1, [4, 5], 4.0)}
OPS = ['index', 'trans', 'freq', 'power', 'touch', 'saveload', 'again']


def cases(tier):
    q = tier == 'quick'
    out = []
    for t, x in itertools.product(TYPES, [0.0, 0.02] if q else [0.0, 1e-4, 0.02]):
        out.append(dict(type=t, strength=x, ops=['generate', 'saveload']))
        out.append(dict(type=t, strength=x, ops=['touch', 'generate', 'touch', 'saveload']))
    for d in range(0, 4 if q else 5):
        for k, s in enumerate(itertools.product(OPS, repeat=d)):
            for i, t in enumerate(TYPES):
                if q and d == 3 and (k + i) % 3:
                    continue
                out.append(dict(type=t, strength=[0.02, 0.0][(k + i) % 2], ops=list(s)))
    out += [dict(type=t, strength=0.0, ops=['bad']) for t in TYPES]
    return out


class Store:
    """stand-in for dill: the file holds a number, the data stays here"""
    def __init__(self):
        self.kept = []

    def dump(self, obj, f):
        self.kept.append(copy.deepcopy(obj))
        f.write(b'%d' % (len(self.kept) - 1))

    def load(self, f):
        return copy.deepcopy(self.kept[int(f.read())])


def module(store):
    import angler
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(angler.__file__))), 'data', 'device_saver.py')
    d = types.ModuleType('dill')
    d.dump, d.load = store.dump, store.load
    old = sys.modules.get('dill')
    path = list(sys.path)
    sys.modules['dill'] = d
    try:
        spec = importlib.util.spec_from_file_location('device_saver', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        sys.path[:] = path
        if old is None:
            del sys.modules['dill']
        else:
            sys.modules['dill'] = old
    return m


def J(e):
    return npa.sum(npa.square(npa.abs(e[25:28, 10:14])))


def build(case):
    from angler import Optimization, structures
    from angler.objective import Objective, obj_arg
    p = TYPES[case['type']]
    eps, des = getattr(structures, case['type'])(*p)
    npml, em = p[-2], p[-1]
    sim = sim_of(OM, np.asarray(eps)*1.0, 0.1, npml, 'Ez')
    sim.src = np.zeros(sim.eps_r.shape, complex)
    Nx, Ny = sim.eps_r.shape
    sim.add_mode(1.7, 'x', [npml[0] + 3, Ny//2], 10, scale=3)
    sim.setup_modes()
    f = sim.solve_fields()[2]
    regs = []
    if case['strength']:
        regs = [(case['strength']*1e-12/3/np.max(np.abs(f))**2, des*1.0, em)]
        sim.add_nl(regs[0][0], des*1.0, eps_scale=True, eps_max=em)
    sim.init_design_region(des, em, style='halfway')
    o = Optimization(Objective(J, [obj_arg('e', component='Ez', nl=bool(case['strength']))]), sim, des, eps_m=em)
    return sim, o, p, regs


KEPT = {}


def once(case, what, f):
    k = (case['type'], case['strength'], what)
    if k not in KEPT:
        KEPT[k] = f()
    return KEPT[k]


def snap(sim):
    return [np.array(sim.eps_r), np.array(sim.src), sim.omega, sim.W_in, np.array(sim.rho), len(sim.modes), len(sim.nonlinearity)]


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


def run(case, ctx):
    import matplotlib.pyplot as plt
    store = Store()
    ds = module(store)
    sim, o, p, regs = build(case)
    eps, src, W_in = np.array(sim.eps_r), np.array(sim.src), sim.W_in
    npml = p[-2]
    Nx, Ny = eps.shape
    m = ref.Model(OM, eps, 0.1, tuple(npml), 'Ez')
    L = m.solve_sparse(src)
    kerr = ref.Kerr(regs)
    E, ok, _ = ref.newton(m, kerr, src)
    assert ok
    N = m.transverse(E) + (E,)
    s0 = snap(sim)
    quiet = open(os.devnull, 'w')
    fresh_sim, fresh_o, _, _ = build(case)
    fresh_sim.solve_fields()
    nf, np_ = 4, 2

    def wait(f, *a, **k):
        with contextlib.redirect_stdout(quiet), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = f(*a, **k)
        plt.close('all')
        return r
    with contextlib.redirect_stderr(quiet):
        D = wait(ds.Device, sim, o)
        ctx.op('Device')
        ctx.check(same(s0, snap(sim)) and o.simulation is sim, 'making a device changed the simulation: %s' % case)
        check_fields(ctx, D, L, N, case)
        if case['ops'] == ['bad']:
            for t in ('four_port', '', 'Two_port', None):
                try:
                    wait(D.set_geometry, t, *p)
                except ValueError:
                    ctx.trace_ok()
                else:
                    ctx.fail('a device of the unknown structure type %r is accepted' % (t,))
            return
        lam = 2*np.pi*3e8/OM
        wait(D.set_parameters, lam, 0.1, npml, 0.0 if not regs else regs[0][0], p[-1], 3)
        wait(D.set_geometry, case['type'], *p)
        ctx.op('set', 2)
        ctx.check((D.Nx, D.Ny, D.nx, D.ny) == (Nx, Ny, Nx//2, Ny//2) and D.structure_type == case['type'] and abs(D.omega/OM - 1) < 1e-12
                  and list(D.NPML) == list(npml) and D.dl == 0.1 and D.L0 == 1e-6 and D.eps_m == p[-1], 'parameters of the device: %s' % case)
        done = set()
        for k, op in enumerate(case['ops']):
            if op == 'index':
                wait(D.compute_index_shift)
            elif op == 'trans':
                wait(D.calc_transmissions)
            elif op == 'freq':
                wait(D.freq_scan, Nf=nf)
            elif op == 'power':
                wait(D.power_scan, Np=np_, s_min=0.3, s_max=3.0)
            elif op == 'generate':
                wait(D.generate_data, Nf=nf, Np=np_, s_min=0.3, s_max=3.0)
                done |= {'index', 'trans', 'freq', 'power'}
                ctx.check(D.is_data_generated, 'data not generated')
            elif op == 'touch':         # the originals go on living
                if k % 2:
                    sim.eps_r = sim.eps_r + 0.3
                    sim.src = sim.src*2
                else:
                    for v in [sim.src] + list(sim.fields.values()) + list(sim.fields_nl.values()):
                        if v is not None:
                            v *= 2
                sim.rho = None
                s0 = None
            elif op == 'saveload':
                with tempfile.TemporaryDirectory() as tmp:
                    fn = os.path.join(tmp, 'd.p')
                    wait(D.save, fn)
                    D2 = wait(ds.load_device, fn)
                    ctx.check(set(D2._fields) == set(D.__dict__), 'a loaded device has other data: %s' % case)
                    verify(ctx, D2, case, m, L, N, src, kerr, W_in, p, done, fresh_o, (nf, np_))
            elif op == 'again':
                wait(D.set_geometry, case['type'], *p)
            done.add(op)
            ctx.op(op)
            ctx.state(case['type'], case['strength'], *case['ops'][:k + 1])
            if s0 is not None:
                ctx.check(same(s0, snap(sim)), 'working with a device changed the original simulation: %s' % case)
            verify(ctx, D, case, m, L, N, src, kerr, W_in, p, done, fresh_o, (nf, np_))
    ctx.trace_ok()


def check_fields(ctx, D, L, N, case):
    ctx.check(rel(D.Ez, L[2]) < 1e-7, lambda: 'the stored field is not that of the device: %s' % case)
    ctx.check(rel(D.Ez_nl, N[2]) < 1e-6, lambda: 'the stored nonlinear field is not that of the device: %s' % case)


def verify(ctx, D, case, m, L, N, src, kerr, W_in, p, done, fresh, n):
    check_fields(ctx, D, L, N, case)
    npml = p[-2]
    Nx, Ny = L[2].shape
    if 'index' in done:
        want = np.abs(ref.index(D.simulation.eps_r + kerr.eps_nl(N[2], D.simulation.eps_r)) - ref.index(D.simulation.eps_r))
        ctx.check(np.max(np.abs(D.index_shift - want)) <= 1e-5*np.max(want) + 1e-13, 'index shift of the device: %s' % case)
    l = D.l

    def flux(F, d, c, w):
        X, Y, Z = F
        if d == 'x':
            S = -0.5*np.real(ref.edge_avg(Z, 0)*np.conj(Y))
            return 0.1*np.sum(S[c[0], int(c[1] - w/2):int(c[1] + w/2)])
        S = 0.5*np.real(ref.edge_avg(Z, 1)*np.conj(X))
        return 0.1*np.sum(S[int(c[0] - w/2):int(c[0] + w/2), c[1]])
    ox, oy = -npml[0] - int(l/2/0.1), -npml[1] - int(l/2/0.1)
    nx, ny = Nx//2, Ny//2
    if case['type'] == 'two_port':
        lines = [('W_out', 'x', [ox, ny], int(Ny/2)), ('W_in', 'x', [npml[0] + int(2*l/3/0.1), ny], int(Ny/2))]
        probes = lines[:1]
    elif case['type'] == 'three_port':
        d = int(D.d/2/0.1)
        lines = probes = [('W_top', 'x', [ox, ny + d], int(D.H/2/0.1)), ('W_bot', 'x', [ox, ny - d], int(D.H/2/0.1))]
    else:
        lines = probes = [('W_right', 'x', [ox, ny], int(D.H/2/0.1)), ('W_top', 'y', [nx, oy], int(D.H/2/0.1))]
    amp = np.max(np.abs(L[2]))*max(np.max(np.abs(L[0])), np.max(np.abs(L[1])))*0.1*10
    if 'trans' in done:
        ctx.check(abs(D.W_in - W_in) <= 1e-9*abs(W_in), 'input power of the device: %s' % case)
        for nm, d, c, w in lines:
            for suf, F in (('_lin', L), ('_nl', N)):
                v, x = getattr(D, nm + suf), flux(F, d, c, w)
                ctx.check(abs(v - x) <= 1e-6*amp, lambda: '%s of the device is %.9g, not %.9g: %s' % (nm + suf, v, x, case))
        f = {(nm, s): flux(F, d, c, w)/W_in for nm, d, c, w in lines for s, F in ((0, L), (1, N))}
        t = 1e-6*amp/abs(W_in)
        if case['type'] == 'two_port':
            ctx.check(abs(D.T_lin - f['W_out', 0]) <= t and abs(D.T_nl - f['W_out', 1]) <= t, 'transmission of the device: %s' % case)
        elif case['type'] == 'three_port':
            want = [[f['W_top', 0], f['W_top', 1]], [f['W_bot', 0], f['W_bot', 1]]]
            ctx.check(np.max(np.abs(np.array(D.S) - want)) <= t, 'power matrix of the device: %s' % case)
        else:
            want = [[f['W_top', 0], f['W_right', 0]], [f['W_top', 1], f['W_right', 1]]]
            ctx.check(np.max(np.abs(np.array(D.S) - want)) <= t, 'power matrix of the device: %s' % case)
    if 'freq' in done:
        f, j, w = once(case, 'freq', lambda: fresh.scan_frequency(Nf=n[0], df=1/400, pbar=False))
        ctx.check(np.allclose(D.freqs, f, rtol=1e-12) and np.allclose(D.objs, j, rtol=1e-6) and abs(D.FWHM - w) <= 1e-9*OM, 'frequency scan of the device: %s' % case)
        ctx.check((D.FWHM == 0) or abs(D.Q/(OM/2/np.pi/D.FWHM) - 1) < 1e-9, 'quality factor of the device: %s' % case)
    if 'power' in done:
        P, T = once(case, 'power', lambda: fresh.scan_power(probes=[lambda s, q=q: s.flux_probe(q[1], q[2], q[3], nl=True) for q in probes], Ns=n[1], s_min=0.3, s_max=3.0, solver='hybrid'))
        ctx.check(np.allclose(D.powers, P, rtol=1e-9) and len(D.transmissions) == len(probes)
                  and all(np.allclose(a, b, rtol=1e-6, atol=1e-6*amp/abs(W_in)) for a, b in zip(D.transmissions, T)), 'power scan of the device: %s' % case)
