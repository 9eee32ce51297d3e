"""shared pieces of the drivers: small deterministic alphabets of grids, materials and sources"""
import numpy as np

from mc import ref

OM = 2*np.pi*150e12      # wavelength 2 um
OM2 = 2*np.pi*210e12
# frequency, spacing and length unit: the usual ones; a fine grid at 1.55 um; nanometres; terahertz waves in mm; a coarse grid; metres
PHYS = {0: (OM, 0.1, 1e-6), 1: (2*np.pi*193.4e12, 0.04, 1e-6), 2: (2*np.pi*170e12, 80.0, 1e-9), 3: (2*np.pi*1e12, 0.013, 1e-3), 4: (OM, 0.27, 1e-6), 5: (2*np.pi*2.4e9, 6e-3, 1.0), 6: (2*np.pi*480e12, 0.02, 1e-6)}


def golden(n, k=0):
    """n fixed, generic (mutually unrelated) numbers in (0,1); no randomness"""
    i = np.arange(1, n + 1)
    return np.mod(i*0.6180339887498949 + (k + 1)*0.7548776662466927 + i*i*0.2360679774997897, 1.0)


def gen(shape, k=0):
    return golden(int(np.prod(shape)), k).reshape(shape)


def eps_of(kind, shape):
    Nx, Ny = shape
    e = np.ones(shape)
    if kind == 'vac':
        return e
    if kind == 'pt':
        e[Nx//2, Ny//2] = 4
        return e
    if kind == 'slabx':          # waveguide along x
        e[:, Ny//3:Ny//3 + max(1, Ny//4)] = 6
        return e
    if kind == 'slaby':
        e[Nx//3:Nx//3 + max(1, Nx//4), :] = 6
        return e
    if kind == 'check':
        return 1 + 3.0*(np.add.outer(np.arange(Nx), np.arange(Ny)) % 2)
    if kind == 'gen':
        return 1 + 5*gen(shape)
    if kind == 'lossy':
        return 1 + 5*gen(shape) - 0.6j*gen(shape, 1)
    if kind == 'weak':           # hardly any loss
        return 1 + 5*gen(shape) - 2e-4j*gen(shape, 1)
    if kind == 'metal':
        e = e.astype(complex)
        e[Nx//2:, Ny//2:] = -7 - 0.4j
        return e
    if kind == 'neg':
        e[Nx//2:, Ny//2:] = -7.3
        return e
    if kind == 'int':
        return 1 + np.floor(4*gen(shape)).astype(int)
    if kind == 'f32':
        return (1 + 5*gen(shape)).astype(np.float32)
    if kind == 'F':
        return np.asfortranarray(1 + 5*gen(shape) - 0.2j*gen(shape, 2))
    if kind == 'view':
        return (1 + 5*gen((2*Nx, 3*Ny)))[::2, ::3]
    if kind == 'T':
        return (1 + 5*gen((Ny, Nx))).T
    if kind == 'gain':
        return 1 + 5*gen(shape) + 0.1j*(gen(shape, 1) - 0.4)
    if kind == 'high':           # up to germanium and water
        return 1 + 29*gen(shape, 2)**3
    if kind == 'low':            # near zero
        return 0.2 + gen(shape, 2) - 0.05j
    if kind == 'c64':
        return (1 + 5*gen(shape) - 0.6j*gen(shape, 1)).astype(np.complex64)
    raise KeyError(kind)


def src_of(kind, shape):
    Nx, Ny = shape
    s = np.zeros(shape, complex)
    if kind == 'zero':
        return s
    if kind.startswith('cell'):
        k = int(kind[4:])
        s.ravel()[k] = 1
        return s
    if kind == 'gen':
        return gen(shape, 3) - 0.5 + 1j*(gen(shape, 4) - 0.5)
    if kind == 'mid':
        s[Nx//2, Ny//2] = 1.5 - 0.7j
        return s
    if kind == 'tiny':
        s[Nx//2, Ny//2] = 1e-18j
        return s
    if kind == 'huge':
        s[Nx//2, Ny//2] = 1e14
        return s
    if kind == 'real':
        return gen(shape, 5)
    if kind == 'int':
        return np.floor(5*gen(shape, 5)).astype(int) - 2
    if kind == 'c64':
        return src_of('gen', shape).astype(np.complex64)
    if kind == 'F':
        return np.asfortranarray(src_of('gen', shape))
    if kind == 'view':
        return src_of('gen', (2*Nx, 3*Ny))[1::2, ::3]
    if kind == 'tinyim':         # a phase close to, but not exactly zero
        return gen(shape, 5) + 1e-6j*gen(shape, 7)
    if kind == 'tinyre':
        return 1e-6*gen(shape, 5) - 1j*gen(shape, 7)
    if kind == 'spread':         # over many orders of magnitude
        return 10.0**(-6*gen(shape, 5))*np.exp(6j*gen(shape, 7))
    if kind == 'line':
        s[Nx//3, :] = 1
        return s
    if kind == 'imag':
        return 1j*gen(shape, 6)
    raise KeyError(kind)


def npml_ok(shape, npml):
    return all((n == 0) or (2*n < N) for N, n in zip(shape, npml))


def rel(a, b):
    """max |a-b| relative to max |b| (arrays)"""
    a, b = np.asarray(a), np.asarray(b)
    s = np.max(np.abs(b)) if b.size else 0
    d = np.max(np.abs(a - b)) if b.size else 0
    if not np.isfinite(d):
        return np.inf
    return d/s if s > 0 else (0.0 if d == 0 else np.inf)


def sim_of(omega, eps, dl, npml, pol, L0=1e-6):
    from angler import Simulation
    return Simulation(omega, eps, dl, list(npml), pol, L0=L0)


NAMES = {'Ez': ('Hx', 'Hy', 'Ez'), 'Hz': ('Ex', 'Ey', 'Hz')}


def warm():
    import angler                    # noqa
    import angler.simulation         # noqa
    import angler.optimization       # noqa
    import angler.objective          # noqa


def cond_scale(m, X):
    """size of the largest term that enters the wave equation, used to make residuals relative"""
    a = np.max(np.abs(X))
    if m.pol == 'Ez':
        return a*max(4/(m.dl**2*m.m0), m.omega**2*m.e0*np.max(np.abs(m.eps)))
    return a*max(4/(m.dl**2*m.e0*np.min(np.abs(m.eps))), m.omega**2*m.m0)
