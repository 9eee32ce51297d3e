"""C28 plots show the current data and change nothing"""
import itertools
import os

import numpy as np

from mc import ref
from mc.util import *

RULE = ('every plotting call x options (nonlinear, tiling, colour bar, outline, axes given, limits, logarithmic) x polarization after every history of up to two changes; the image, its limits and orientation are read from the axes and '
        'compared with the fields and permittivity at that time, and everything the simulation holds before and after; objective and transmission curves; animations frame by frame; optimizations with and without temporary images, '
        'the image files, and the folder before and after')
BOUND = {'quick': 'histories of up to 2 changes, 2 grids', 'thorough': 'histories of up to 3 changes, 3 grids'}
ASSUMPTIONS = ['the temporary images are drawn for simulations with a mode, whose input power sets their colour scale']
CHANGES = ['src', 'eps', 'nl', 'shape', 'scale', 'lin']
GR = [((6, 9), (1, 2)), ((8, 7), (0, 2)), ((10, 5), (2, 0))]


def cases(tier):
    q = tier == 'quick'
    out = []
    for pol in ('Ez', 'Hz'):
        for g in range(2 if q else 3):
            for d in range(3 if q else 4):
                for h in itertools.product(CHANGES, repeat=d):
                    out.append(dict(kind='sim', pol=pol, grid=g, hist=h, opts=(len(out) % 4)))
    for n, a in itertools.product(range(0, 5), range(3)):
        out.append(dict(kind='objs', n=n, amp=a))
    for nf in (2, 5, 12):
        out.append(dict(kind='ani', frames=nf))
    out.append(dict(kind='trans'))
    what = ['eps', 'of', 'elin', 'enl']
    subsets = [s for k in range(1, 5) for s in itertools.combinations(what, k)]
    for i, s in enumerate(subsets + [('enl', 'eps'), ('of', 'of')]):
        for m in ('GD', 'ADAM', 'LBFGS'):
            out.append(dict(kind='temp', what=s, method=m, every=[1, 2, 3][i % 3], N=[3, 4][i % 2], folder=[0, 1, 2][(i + len(m)) % 3]))
    return out


def img(ax):
    ims = ax.get_images()
    assert len(ims) == 1, 'one image expected, got %d' % len(ims)
    return ims[0]


def run(case, ctx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    try:
        {'sim': run_sim, 'objs': run_objs, 'ani': run_ani, 'trans': run_trans, 'temp': run_temp}[case['kind']](case, ctx)
    finally:
        plt.close('all')


def snapshot(sim):
    d = dict(eps=np.array(sim.eps_r), src=np.array(sim.src), n=len(sim.nonlinearity), omega=sim.omega)
    for k in sim.fields:
        for nm, f in (('l', sim.fields), ('n', sim.fields_nl)):
            d[nm + k] = None if f[k] is None else np.array(f[k])
    return d


def equal(a, b):
    return a.keys() == b.keys() and all((a[k] is None and b[k] is None) or (a[k] is not None and b[k] is not None and np.array_equal(a[k], b[k])) for k in a)


def run_sim(case, ctx):
    import matplotlib.pyplot as plt
    pol = case['pol']
    shape, npml = GR[case['grid']]
    eps = 1 + 3*gen(shape, 2) - 0.3j*gen(shape, 3)
    sim = sim_of(OM, eps, 0.1, npml, pol)
    sim.src = src_of('mid', shape)*10
    if pol == 'Ez':
        m = ref.Model(OM, eps, 0.1, npml, pol)
        chi = 0.1*1e-12/3/np.max(np.abs(m.solve_sparse(sim.src)[2]))**2
        sim.add_nl(chi, np.ones(shape))

    def solve(nl=True):
        sim.solve_fields()
        if nl:
            sim.solve_fields_nl(solver_nl='born', max_num_iter=30)
    solve()
    for k, h in enumerate(case['hist']):
        shape = sim.eps_r.shape
        if h == 'src':
            sim.src = src_of('line', shape)*(3 + k) + 1j*gen(shape, k)
            solve()
        elif h == 'eps':
            sim.eps_r = 1 + 2*gen(shape, 10 + k) - 0.2j
            solve()
        elif h == 'nl':
            if pol == 'Ez':
                sim.add_nl(chi/3, gen(shape, k))
            solve()
        elif h == 'shape':
            shape = (shape[0] + 1, shape[1] + 2)
            sim.nonlinearity.clear()
            sim.eps_r = 1.5 + gen(shape, 12)
            sim.src = src_of('mid', shape)
            solve()
        elif h == 'scale':
            sim.src = sim.src*1e-4
            solve()
        elif h == 'lin':
            sim.src = sim.src*1.7     # the nonlinear fields stay those of the old source
            solve(nl=False)
        ctx.op(h)
    lin, nl = np.array(sim.fields[pol]), np.array(sim.fields_nl[pol])
    eps = np.array(sim.eps_r)
    E = (lambda a, t: np.concatenate([a]*t, axis=1).T)
    calls = []
    for n, t in itertools.product((False, True), (1, 2)):
        f = nl if n else lin
        calls.append(('abs', dict(nl=n, tiled_y=t), E(np.abs(f), t), (0.0, np.abs(f).max())))
        calls.append(('re', dict(nl=n, tiled_y=t), E(np.real(f), t), (-np.abs(np.real(f)).max(), np.abs(np.real(f)).max())))
    for t in (1, 3):
        calls.append(('eps', dict(tiled_y=t), E(np.abs(eps), t), (np.abs(eps).min(), np.abs(eps).max())))
        d = np.abs(lin) - np.abs(nl)
        for nrm in (True, False):
            x = d/np.abs(lin).max() if nrm else d
            calls.append(('diff', dict(normalize=nrm, tiled_y=t), E(x, t), (-np.abs(x).max(), np.abs(x).max())))
    mx = np.abs(lin).max()
    calls.append(('abs', dict(vmin=0.1*mx, vmax=0.5*mx), E(np.abs(lin), 1), (0.1*mx, 0.5*mx)))
    calls.append(('abs', dict(vmax=2*mx), E(np.abs(lin), 1), (0.0, 2*mx)))
    calls.append(('abs', dict(logscale=True, vmin=1e-3*mx, vmax=mx), E(np.abs(lin), 1), (1e-3*mx, mx)))
    calls.append(('abs', dict(logscale=True, nl=True), E(np.abs(nl), 1), None))
    calls.append(('diff', dict(vmax=0.3), E((np.abs(lin) - np.abs(nl))/mx, 1), (-0.3, 0.3)))
    before = snapshot(sim)
    for i, (name, kw, want, lim) in enumerate(calls):
        o = (case['opts'] + i) % 4
        kw = dict(kw, cbar=bool(o % 2), outline=o < 2)
        ax0 = None
        if (i + case['opts']) % 3 == 0:
            fig, axs = plt.subplots(1, 2)
            ax0 = kw['ax'] = axs[1]
        ax = getattr(sim, 'plt_' + name)(**kw)
        ctx.op('plt_%s' % name)
        where = lambda: '%s(%s) %s' % (name, {k: v for k, v in kw.items() if k != 'ax'}, case)
        ctx.check(ax0 is None or ax is ax0, lambda: 'drawn on other axes: %s' % where())
        h = img(ax)
        got = np.ma.getdata(h.get_array())
        ctx.check(got.shape == want.shape, lambda: 'the image is %s, the data %s: %s' % (got.shape, want.shape, where()))
        ctx.check(np.max(np.abs(got - want)) <= 1e-9*np.max(np.abs(want)) + 1e-300, lambda: 'the image is not the data: %s' % where())
        lo, hi = h.get_clim()
        if lim is None or lim[0] == lim[1]:     # automatic (or expanded by matplotlib): covers the data
            ctx.check(lo <= want.min()*(1 + 1e-9) and hi >= want.max()*(1 - 1e-9), lambda: 'colour limits %s: %s' % ((lo, hi), where()))
        else:
            s = max(abs(lim[0]), abs(lim[1]))
            ctx.check(abs(lo - lim[0]) <= 1e-9*s and abs(hi - lim[1]) <= 1e-9*s, lambda: 'colour limits %s, not %s: %s' % ((lo, hi), lim, where()))
        from matplotlib.colors import LogNorm
        ctx.check(isinstance(h.norm, LogNorm) == bool(kw.get('logscale')), lambda: 'scale: %s' % where())
        y0, y1 = ax.get_ylim()
        x0, x1 = ax.get_xlim()
        e = h.get_extent()
        ctx.check(x0 < x1 and y0 < y1 and e[2] < e[3] and h.origin == 'lower', lambda: 'the image is upside down: %s' % where())
        ctx.check(kw['outline'] or len(ax.collections) == 0, lambda: 'outline although none was asked for: %s' % where())
        ctx.check((not kw['outline']) or len(ax.collections) > 0, lambda: 'no outline: %s' % where())
        ctx.check((h.colorbar is not None) == kw['cbar'], lambda: 'colour bar: %s' % where())
        plt.close('all')
        ctx.check(equal(before, snapshot(sim)), lambda: 'plotting changed the simulation: %s' % where())
    # and the plots follow the data: nothing solved for the new permittivity yet
    sim.eps_r = eps*1.5
    h = img(sim.plt_eps(outline=False))
    ctx.check(np.max(np.abs(np.ma.getdata(h.get_array()) - np.abs(eps).T*1.5)) < 1e-12*np.max(np.abs(eps)), 'an old permittivity is shown: %s' % case)
    for f in (sim.plt_abs, sim.plt_re):
        try:
            f()
        except ValueError:
            pass
        else:
            ctx.fail('fields are shown that do not belong to the permittivity: %s' % case)
    ctx.state(pol, case['grid'], *case['hist'])
    ctx.trace_ok()


def run_objs(case, ctx):
    import matplotlib.pyplot as plt
    from mc.opt import Prob
    pr = Prob('kerr', 'block', (1, 0.5, 2.0), 'gen', amp=[1.0, 30.0, 1e-3][case['amp']], max_ind_shift=1e-3)
    o = pr.opt
    o.run(method='GD', Nsteps=case['n'], step_size=0.2, verbose=False)
    J, a = np.array(o.objfn_list), np.array(o.src_amplitudes)
    ctx.check(len(J) == len(a) == case['n'], 'record: %s' % case)
    for norm, y in ((None, J), ('field', J/a if len(a) else J), ('power', J/a**2 if len(a) else J)):
        for given in (False, True):
            ax0 = plt.subplots(1)[1] if given else None
            ax = o.plt_objs(norm=norm, ax=ax0)
            ctx.op('plt_objs')
            ctx.state('objs', case['n'], case['amp'], norm, given)
            ctx.check(ax0 is None or ax is ax0, 'drawn on other axes')
            ln = ax.get_lines()
            ctx.check(len(ln) == 1 and np.array_equal(ln[0].get_xdata(), np.arange(1, case['n'] + 1)) and np.allclose(np.asarray(ln[0].get_ydata(), float), y, rtol=1e-12, atol=0),
                      lambda: 'the curve is not the objective per step (%s): %s' % (norm, case))
    ctx.check(np.array_equal(J, o.objfn_list) and np.array_equal(a, o.src_amplitudes), 'plotting changed the record')
    ctx.trace_ok()


def run_ani(case, ctx):
    from angler.plot import plt_base_ani
    f = src_of('gen', (5, 7))
    keep = f.copy()
    N = case['frames']
    a = plt_base_ani(f, Nframes=N)
    a._init_draw()
    h = img(a._fig.axes[0])
    m = np.abs(f).max()
    ctx.check(np.allclose(h.get_clim(), (-m, m)), 'colour limits of the animation: %s' % (h.get_clim(),))
    for i in list(range(N)) + [0]:
        a._draw_frame(i)
        ctx.op('frame')
        ctx.state('ani', N, i)
        got = np.ma.getdata(h.get_array())
        want = np.real(f*np.exp(2j*np.pi*i/(N - 1))).T
        ctx.check(got.shape == want.shape and np.max(np.abs(got - want)) < 1e-9, 'frame %d of %d' % (i, N))
    ctx.check(np.array_equal(f, keep), 'the animation changed the field')
    a._draw_was_started = True
    ctx.trace_ok()


def run_trans(case, ctx):
    import matplotlib.pyplot as plt
    from mc.opt import Prob
    o = Prob('Ez', 'block', (None, 0.5, 1e-9), 'gen').opt
    T = [[0.1, 0.5, 0.2], [0.3, 0.2, 0.7]]
    for legend in (None, ['a', 'b']):
        plt.close('all')
        show = plt.show
        try:
            plt.show = lambda *a, **k: None
            o.plot_transmissions(T, legend=legend)
        finally:
            plt.show = show
        ax = plt.gca()
        ctx.op('plot_transmissions')
        ctx.state('trans', legend)
        ln = ax.get_lines()
        ctx.check(len(ln) == 2 and all(np.allclose(l.get_ydata(), t) for l, t in zip(ln, T)), 'transmission curves')
        ctx.check(ax.get_xscale() == 'log' and (ax.get_legend() is not None) == (legend is not None), 'axes of the transmission curves')
    ctx.trace_ok()


def tree(folder):
    out = {}
    for d, _, fs in os.walk(folder):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, folder)] = open(p, 'rb').read()
    return out


def run_temp(case, ctx):
    import shutil
    import tempfile
    from angler import Optimization
    from angler.plot import Temp_plt
    from angler.objective import Objective, obj_arg
    from mc import grads
    root = tempfile.mkdtemp(prefix='mc_plots_')
    try:
        folder = os.path.join(root, 'im') + '/'
        others = os.path.join(root, 'keep')
        os.makedirs(others)
        open(os.path.join(others, 'a.png'), 'w').write('x')
        open(os.path.join(root, 'b.png'), 'w').write('y')
        if case['folder']:
            os.makedirs(folder + 'sub/deep')
            for f in ('it000000.png', 'it000099.png', 'notes.txt', 'sub/s.png', 'sub/deep/d.txt'):
                open(folder + f, 'w').write(f)
            if case['folder'] == 2:
                os.symlink(os.path.join(others, 'a.png'), folder + 'link.png')
                os.symlink(others, folder + 'linkdir')

        def problem():
            shape = (12, 11)
            eps = np.ones(shape)
            eps[:, 4:7] = 6.0
            des = np.zeros(shape)
            des[5:8, 3:8] = 1
            sim = sim_of(OM, eps, 0.1, (2, 2), 'Ez')
            sim.add_mode(2.3, 'x', [3, 5], 6, scale=10)
            sim.setup_modes()
            E = sim.solve_fields()[2]
            sim.add_nl(0.02*1e-12/3/np.max(np.abs(E))**2, des)
            sim.init_design_region(des, 6.0, style='halfway')
            P = np.zeros(shape)
            P[9, 4:7] = 1/np.max(np.abs(E))**2
            return Optimization(Objective(grads.make_J('sum', 2, [P, P]), [obj_arg('l'), obj_arg('n', nl=True)]), sim, des, eps_m=6.0, R=1, beta=2.0)
        a, b = problem(), problem()
        a.run(method=case['method'], Nsteps=case['N'], step_size=0.1, verbose=False)
        b.run(method=case['method'], Nsteps=case['N'], step_size=0.1, verbose=False,
              temp_plt=Temp_plt(it_plot=case['every'], plot_what=tuple(case['what']), folder=folder, dpi=20, figsize=(2, 2)))
        ctx.op('run', 2)
        ctx.state(*[str(v) for v in case.values()])
        ctx.check(np.array_equal(a.simulation.rho, b.simulation.rho) and np.array_equal(a.simulation.eps_r, b.simulation.eps_r) and a.objfn_list == b.objfn_list
                  and np.array_equal(a.simulation.src, b.simulation.src), 'saving images changes the optimization: %s' % case)
        t = tree(folder)
        n = len(b.objfn_list)
        want = {'it%06d.png' % i for i in range(0, n, case['every'])}
        if case['folder']:
            ctx.check(t.get('sub/s.png') == b'sub/s.png' and t.get('sub/deep/d.txt') == b'sub/deep/d.txt', 'a file in a subfolder was removed: %s' % case)
        top = {f for f in t if '/' not in f}
        ctx.check(top == want, lambda: 'image files %s, expected %s: %s' % (sorted(top), sorted(want), case))
        ctx.check(all(t[f][:4] == b'\x89PNG' for f in want), 'not images: %s' % case)
        ctx.check(open(os.path.join(others, 'a.png')).read() == 'x' and open(os.path.join(root, 'b.png')).read() == 'y', 'a file outside of the folder was changed: %s' % case)
        # a second run clears the images of the first
        b.run(method='GD', Nsteps=1, step_size=0.1, verbose=False, temp_plt=Temp_plt(folder=folder, dpi=20, figsize=(2, 2)))
        ctx.check({f for f in tree(folder) if '/' not in f} == {'it000000.png'}, 'the images of an earlier run are still there: %s' % case)
        ctx.trace_ok()
    finally:
        shutil.rmtree(root, ignore_errors=True)
