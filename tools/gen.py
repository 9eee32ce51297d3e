"""writes properties.jsonl and MANIFEST.json from the table below (run: python3 tools/gen.py)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, P, N, L, D, U = ('angler/' + f for f in ('simulation.py', 'pml.py', 'nonlinear_solvers.py', 'linalg.py', 'derivatives.py', 'utils.py'))
O, F, G, A, B = ('angler/' + f for f in ('optimization.py', 'filter.py', 'gradients.py', 'adjoint.py', 'objective.py'))
M, T, K, PL, NL = 'angler/source/mode.py', 'angler/structures.py', 'angler/constants.py', 'angler/plot.py', 'angler/nonlinearity.py'

T_CFG = 'exhaustive enumeration of bounded configurations on the real code against a reference model'
T_SEQ = 'exhaustive exploration of bounded operation sequences on the real code against a reference model'

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note, observe=observe or []))


prop('C01', 'Solved linear fields satisfy the discrete Maxwell equations',
     'For every permittivity, source, frequency, grid spacing and polarization, the three field arrays that a linear '
     'solve returns and stores satisfy the discrete curl equations of the Yee grid in every cell outside the PML: '
     'Faraday exactly, and Ampere with the given permittivity (for Hz polarization averaged to the cell edges) and the '
     'given current source. Fields are zero when there is no source, and axes without PML are periodic.',
     ['inputs', 'configurations'],
     'all two- and three-material tiny grids x all unit sources; all combinations of a table of grids (1 x 1 to 24 x 20, '
     '1-D, single-cell axes), PML pairs, materials (lossy, metal, negative, integer, single precision, strided), sources and polarizations',
     'The tests run one 2-D waveguide and one 1-D grid and look at plots or norms; no test computes a residual.',
     [S, L, D, P],
     [('solve_fields', S + ': solve_fields'), ('construct_A', L + ': construct_A'), ('createDws', D), ('solver_direct', L)],
     T_CFG, 'Complete over the stated table of configurations; residuals are computed from the fields with an independent '
     'statement of the curl equations, relative tolerance 1e-8 (1e-6/1e-5 where the caller passes single precision).',
     ['returned fields', 'Simulation.fields'])

prop('C02', 'Fields respect the symmetries of space',
     'Translating the whole problem along a periodic axis, mirroring it along an axis, or exchanging the x and y axes '
     'transforms the solved fields in the corresponding way, for both polarizations. Stacking copies of one period along '
     'a periodic axis gives copies of the fields of one period.',
     ['inputs', 'configurations'],
     'every shift along both axes, both mirrors, the transposition and tilings x grids x PML pairs x materials x polarizations',
     'No test transforms a problem; x/y asymmetries and off-by-one shifts of the boundary layers stay invisible.',
     [S, L, D, P],
     [('derivative matrices', D + ': createDws'), ('PML profiles', P + ': create_sfactor, S_create'), ('grid_average', L)],
     T_CFG, 'Complete over the stated table; the oracle is the transformed solution itself (no model of the PML is assumed).')

prop('C03', 'The PML absorbs outgoing waves on every side and nothing else',
     'The boundary layer occupies exactly the requested number of cells at both ends of each axis and leaves the cells between them '
     'untouched. Waves that reach any side are absorbed: a source in a domain with a PML produces, outside the PML, the same field as in '
     'a much larger domain, with a small reflection that does not depend on the side; a thickness of zero means a periodic axis.',
     ['configurations', 'inputs'],
     'thickness pairs x axes x sides x polarizations x wavelengths x resolutions, incidence angles through point sources',
     'Tests use one PML thickness and never look at reflections.',
     [P, L, S],
     [('create_sfactor', P), ('sig_w', P), ('S_create', P)],
     T_CFG, 'Complete over the stated table. Reflection bounds are those of the quartic profile with a margin; small changes of the '
     'profile that keep absorption good are not violations.')

prop('C04', 'Linear fields are linear in the source and reciprocal',
     'The linear fields of a weighted sum of sources are the same weighted sum of the fields of each source, with complex weights over any '
     'range of magnitudes, and doing it in several solves on one simulation or on fresh ones makes no difference. Exchanging the positions of a point source and a '
     'point detector of the out-of-plane field outside the PML leaves the detected field unchanged.',
     ['inputs', 'configurations'],
     'all pairs of cells of small grids (reciprocity) and all pairs of a source alphabet x weights, x materials x PML pairs x polarizations',
     'Tests never solve the same structure with two sources.',
     [S, L, P],
     [('solver_direct', L), ('solve_fields', S)],
     T_CFG, 'Complete over the stated table.')

prop('C05', 'Results do not depend on the unit of length',
     'Expressing the same physical problem in another unit of length (grid spacing, source and field values rescaled accordingly) '
     'gives the same physical fields, power flux, mode sources and input powers, nonlinear fields and index shifts, objective values and gradients.',
     ['configurations', 'inputs'],
     '7 (11) length units from 1e-10 to 1 m x grids x PML pairs x materials x polarizations x all observables, linear and Kerr',
     'Every test uses micrometres.',
     [S, L, P, NL, A, G, M],
     [('EPSILON_0*L0, MU_0*L0 in every operator', L), ('chi/L0^2', S + ': add_nl'), ('sigma/(omega EPSILON_0 L0)', P)],
     T_CFG, 'Complete over the stated table; differential (same code in two units), so a wrong physical constant is left to the other properties.')

prop('C06', 'Power is conserved and flux probes measure it',
     'A flux probe returns the time-averaged power that crosses its line: the net probed flux out of any closed box equals the power delivered by the sources '
     'inside minus the power absorbed inside, computed from the fields. In particular it vanishes for a lossless box without sources, counts positive '
     'along the positive axis direction, is additive over adjacent segments, and reads the nonlinear fields when asked to.',
     ['inputs', 'configurations'],
     'every axis-aligned box of a grid x materials (lossless and lossy) x sources x polarizations, every line position, linear and Kerr fields',
     'Tests compare a flux with nothing but a sign.',
     [S, L],
     [('flux_probe', S), ('grid_average', L)],
     T_CFG, 'Complete over all boxes and lines of the stated grids.')

prop('C07', 'Nonlinear solutions solve the nonlinear equation, whichever solver is used',
     'Nonlinear fields that are reported as converged satisfy the Maxwell equations with the permittivity plus the Kerr permittivity of those very fields. '
     'The fixed-point, Newton and hybrid solvers agree with each other, from any starting field from which they converge; without nonlinearity they return the linear fields. '
     'The reported convergence history is honest: its last entry is above the requested threshold exactly when the iteration was stopped before the field settled.',
     ['inputs', 'configurations'],
     'solver x start x threshold x iteration limit x Kerr strength (0 to strongly nonlinear) x Kerr regions x materials x grids',
     'The tests compare two solvers for one structure and one strength.',
     [N, S, NL, L],
     [('born_solve, newton_solve', N), ('nl_eq_and_jac', N), ('compute_nl', S), ('solver_complex2real', L)],
     T_CFG, 'Complete over the stated table; residuals are computed from the fields with the reference Kerr law.')

prop('C08', 'The Kerr permittivity and index shift follow the Kerr law',
     'The nonlinear permittivity is the sum over all added nonlinear regions of 3 chi3 |E|^2 inside the region (times (eps-1)/(eps_max-1) when scaling with the material is '
     'requested), and its reported derivatives are the derivatives of that law. Solving with the nonlinear permittivity included (frozen at its current value) returns the linear fields of eps + eps_nl and leaves the stored linear fields alone. '
     'The reported index shift is |sqrt(Re(eps+eps_nl)) - sqrt(Re eps)| (the root of a negative value, of a metal, counting as zero) of the current structure and source.',
     ['inputs', 'histories'],
     'all combinations of up to 3 regions of a region alphabet (overlapping, disjoint, graded, empty, boolean) x strengths x scaling x fields x materials',
     'Tests use a single region with one strength.',
     [NL, S],
     [('Nonlinearity', NL), ('compute_nl, add_nl, compute_index_shift', S)],
     T_CFG, 'Complete over the stated table.')

prop('C09', 'Mode sources inject the requested waveguide mode and power',
     'A mode source writes, on its line and nowhere else, the real profile of the requested guided mode of the local permittivity: an eigenvector of the slice with the '
     'order asked for, scaled linearly, with a reproducible sign, identical for equivalent x and y or translated placements. '
     'The recorded input power is the power that this mode alone carries through the equivalent straight waveguide, grows with the square of the scale, and setting a mode up does not change the structure.',
     ['inputs', 'configurations', 'histories'],
     'polarization x direction x position (all positions of a line) x waveguide profile x order x scale x several modes in every order x repeated set-up',
     'Tests insert one fundamental mode and look at a plot.',
     [M, S, L],
     [('insert_mode, compute_normalization', M), ('setup_modes, add_mode', S), ('solver_eigs', L)],
     T_CFG, 'Complete over the stated table; the profile is compared with a dense eigenvalue solution of the slice.')

prop('C10', 'Results never depend on what a simulation was used for before',
     'After any sequence of changes of the permittivity (also by tiny amounts, in shape, or type), source, nonlinearity, frequency followed by re-assigning the permittivity, '
     'modes and solves, every further result equals that of a new simulation built directly in that state. Assigning a permittivity discards all fields solved for an earlier one.',
     ['histories'],
     'all operation sequences up to depth 3 (4 in thorough) over 15 operations x polarizations, each followed by every observation',
     'Tests use each simulation for one purpose, in one order.',
     [S, N, L],
     [('eps_r setter rebuilds the operator and drops the fields', S), ('start fields of the nonlinear solvers', N)],
     T_SEQ, 'Complete over all sequences up to the stated depth over the stated alphabet; the reference is a freshly built simulation and the dense model.')

prop('C11', 'Simulations do not share state or modify what the caller passed in',
     'Arrays and lists given to a simulation, optimization or nonlinearity are never modified by any operation other than the caller\'s own, returned arrays are not overwritten by later operations, '
     'and operations on one simulation (or a copy of it) never change another.',
     ['histories'],
     'all interleavings of two operation sequences on two simulations built from the same arrays, and all single operations after each set-up, comparing every caller-owned array before and after',
     'Tests build a new simulation each time and never look at their inputs again.',
     [S, O, M, T],
     [('copies in init_design_region', S), ('deepcopy of the simulation in scans and normalization', O + ', ' + M)],
     T_SEQ, 'Complete over all interleavings of the stated sequences.')

prop('C12', 'The density filter is a weighted average',
     'The filtered density of a design cell is the average of the surrounding densities with the weight R - distance (wrapping around periodic axes), cells outside the design region and '
     'cells too close to a PML are left as they are. All weights are non-negative and sum to one, so constants are preserved and filtered densities stay between the smallest and largest density.',
     ['inputs', 'configurations'],
     'grids x design regions (full, blocks, checkerboard, single cells, empty, boolean, touching the edges) x PML pairs x every radius 1..5',
     'One test builds one filter and checks a shape.',
     [F],
     [('get_W', F)],
     T_CFG, 'Complete over the stated table; every entry of every matrix is compared with the reference.')

prop('C13', 'The density-to-permittivity map is exact, monotone and differentiable',
     'Projection maps 0 to 0, 1 to 1 and is monotone in between for every steepness, keeps eta in its place relative to the tanh law, and the permittivity of a projected density is 1 + density (eps_m - 1); '
     'density to permittivity and back is the identity. The reported derivatives of filter, projection and material map are the true derivatives.',
     ['inputs'],
     'all combinations of a grid of densities, thresholds, steepness (1e-9 to 1e3), materials (also complex) and both implementations',
     'Tests do not evaluate these functions except at the defaults.',
     [F, U],
     [('rhot2rhob, rhob2eps, eps2rho, rho2eps, drhob_drhot', F), ('rho_bar, eps2rho_bar', U)],
     T_CFG, 'Complete over the stated table.')

prop('C14', 'Gradients of Ez-polarized linear objectives are exact',
     'For an objective of the linear Ez, Hx or Hy fields, the computed gradient with respect to the material density equals the true derivative in every design cell, '
     'through filter and projection, for any permittivity (lossy too), PML, design region and source, and it is zero where the density has no influence.',
     ['inputs', 'configurations'],
     'component x objective form x grid x PML pair x design region x filter radius x projection x material, every design cell',
     'Tests compare a few random cells of one centred structure with finite differences at 1e-2 accuracy.',
     [G, A, O, B, F],
     [('grad_linear_Ez, grad_linear_Hx, grad_linear_Hy', G), ('adjoint_linear_Ez', A), ('compute_dJ', O)],
     T_CFG, 'Complete over the stated table, every design cell, against the analytic derivative of the reference model (and complex-step free central differences of the code).')

prop('C15', 'Gradients of Hz-polarized objectives are exact',
     'For an objective of the linear Hz, Ex or Ey fields, the computed gradient with respect to the material density equals the true derivative in every design cell, '
     'including cells at edges of the design region and of the domain, through filter and projection.',
     ['inputs', 'configurations'],
     'component x objective form x grid x PML pair x design region x filter radius x projection x material, every design cell',
     'Tests compare a few random cells of one structure with finite differences at 1e-2 accuracy.',
     [G, A, O, B, F, L],
     [('grad_linear_Hz, grad_linear_Ex, grad_linear_Ey', G), ('adjoint_linear_Hz', A), ('grid_average', L)],
     T_CFG, 'Complete over the stated table, every design cell, against the derivative of the reference model.')

prop('C16', 'Gradients of Kerr and mixed objectives are exact',
     'For objectives of nonlinear Ez, Hx, Hy fields, alone or combined with linear fields in one objective of several arguments, the computed gradient equals the true derivative of the converged '
     'nonlinear problem, also when the Kerr strength follows the material.',
     ['inputs', 'configurations'],
     'all subsets of up to 3 of the 6 arguments x Kerr scaling x strengths x design regions x filter/projection x materials, every design cell',
     'Tests compare a few random cells for one nonlinear objective.',
     [G, A, O, B, NL, N],
     [('grad_kerr_Ez, grad_kerr_Hx, grad_kerr_Hy', G), ('adjoint_kerr_Ez', A), ('compute_dJ', O)],
     T_CFG, 'Complete over the stated table, every design cell, against the derivative of the reference model (sparse Newton).')

prop('C17', 'Objective and gradient always describe the current structure',
     'After any history of evaluations, permittivity or source changes, optimization steps, derivative checks and switches between simulations, the objective value equals the objective '
     'of the fields of the simulation passed in as it is now, and the gradient is the gradient at its current density.',
     ['histories'],
     'all operation sequences up to depth 3 (4) over 10 operations x linear/Kerr objectives x polarizations',
     'Tests evaluate each objective once.',
     [O, S, B],
     [('compute_J, compute_dJ solve the fields they need', O), ('fields dropped on assignment', S)],
     T_SEQ, 'Complete over all sequences up to the stated depth over the stated alphabet.')

prop('C18', 'Optimizers follow their update rules uphill',
     'Gradient ascent and ADAM move the density by exactly their documented rule (clipped to [0,1]) for every step size and number of steps; the recorded objective history has one entry per step, '
     'equal to the objective at the start of that step. L-BFGS never ends below the objective it started from, its recorded history is non-decreasing, and it ends on the best recorded structure.',
     ['histories', 'configurations'],
     'method x number of steps 0..4 (6; L-BFGS from 1) x step sizes x decay parameters x start style x filter/projection x linear/Kerr x polarizations',
     'Tests run two steps of one method and assert nothing about the path.',
     [O],
     [('_run_GD, _run_ADAM, _run_LBFGS, _update_rho, _step_adam', O)],
     T_SEQ, 'Complete over the stated table; trajectories are compared step by step with a reference optimizer on the reference model.')

prop('C19', 'Optimization respects the design constraints',
     'At every point of an optimization the density of each design cell lies in [0,1], the permittivity and density outside the design region are what they were, and the permittivity is the '
     'filtered and projected material of the density; so inside the design region it stays between 1 and the material permittivity. An optimization that makes no step changes nothing but that.',
     ['histories', 'configurations'],
     'method x steps x huge and tiny step sizes x design regions (touching edges, sparse, boolean, integer) x backgrounds (other materials, lossy, below 1) x start densities (all 0, all 1, mixed) x filter/projection',
     'Tests run an optimization and do not look at the structure.',
     [O, F, S],
     [('_update_rho clips', O), ('_set_design_region', O), ('_get_eps', O)],
     T_SEQ, 'Complete over the stated table; the structure is observed at every evaluation of the objective.')

prop('C20', 'Frequency scans evaluate the objective at each frequency',
     'A frequency scan returns equally spaced frequencies across the requested relative span centred on the operating frequency, the objective of the same structure and source at each of them, and a '
     'full width at half maximum that counts the contiguous samples above half maximum around the centre; the simulation is left as it was.',
     ['configurations', 'inputs'],
     'number of samples 2..7 x spans x polarizations x linear/Kerr objectives x materials',
     'One test runs a scan and asserts nothing about the values.',
     [O, S],
     [('scan_frequency', O)],
     T_CFG, 'Complete over the stated table.')

prop('C21', 'Power scans report transmission at each input power',
     'A power scan returns, for logarithmically spaced source amplitudes, the input power of the mode at that amplitude and for each probe the probed power of the '
     'nonlinear solution at that amplitude divided by that input power, whichever nonlinear solver is chosen; the simulation is left as it was.',
     ['configurations', 'inputs'],
     'number of samples x ranges x solvers x probe sets x Kerr strengths',
     'One test runs a scan with one probe and checks nothing.',
     [O, S, M],
     [('scan_power', O), ('compute_normalization', M)],
     T_CFG, 'Complete over the stated table.')

prop('C22', 'The index-shift limit is respected',
     'When a maximum index shift is given, the source amplitude is rescaled each step by the ratio of the square root of allowed to actual shift (less the stated margin), so that '
     'for weak nonlinearity the shift ends just below the limit, whatever the units or the initial amplitude; without a limit, or without any shift, the source is untouched. The list of source amplitudes has one entry per step.',
     ['configurations', 'histories'],
     'limits x initial amplitudes over 8 decades x methods x steps x materials',
     'One test runs with a limit and asserts nothing.',
     [O, S],
     [('_set_source_amplitude', O), ('compute_index_shift', S)],
     T_SEQ, 'Complete over the stated table.')

prop('C23', 'Initial design styles fill exactly the design region',
     'Initializing the design region sets the permittivity inside it to the material, vacuum, the half-way value, or values between vacuum and material (mirror-symmetric when asked), leaves everything '
     'outside bit-identical, never writes into the caller\'s array, and sets the density to (eps-1)/(eps_m-1).',
     ['inputs', 'histories'],
     'style x design region x background x polarization x all sequences of two styles',
     'Tests call two styles and check nothing.',
     [S, F],
     [('init_design_region', S), ('eps2rho', F)],
     T_SEQ, 'Complete over the stated table; random styles are checked for what holds for every outcome, with fixed seeds and stubbed extremes (all 0, all 1).')

prop('C24', 'Structure generators build the described device',
     'Each generator returns a permittivity and a 0/1 design region of equal shape that fits the requested dimensions and PML within a cell or two: only background and material values occur, the design region has the requested '
     'size and position, waveguides of the requested width enter and leave at the requested places (with the requested count) and run through the domain edge, and mirror-symmetric devices are mirror-symmetric.',
     ['inputs'],
     'each generator x all combinations of 2-3 values of each dimension',
     'One test builds one device of each kind and checks no geometry.',
     [T],
     [('three_port, two_port, N_port, ortho_port, accelerator, accelerator_multi', T), ('get_grid, apply_regions', T)],
     T_CFG, 'Complete over the stated table; sizes up to the generators\' documented rounding (two cells).')

prop('C25', 'Objectives bind each argument to its field',
     'The objective function receives, in the order of its arguments, exactly the fields named by the argument list (component, linear or nonlinear), and its value is returned unchanged; '
     'a mismatched number of arguments, an unknown component or a component that does not exist for the polarization is rejected with an error. Replacing the objective function also replaces its derivatives.',
     ['inputs', 'histories'],
     'all ordered argument lists up to length 3 over the 6 components x linear/nonlinear x polarizations',
     'Tests use two argument lists.',
     [B, O],
     [('Objective, obj_arg', B), ('_solve_objfn_arg_fields', O)],
     T_CFG, 'Complete over all argument lists up to the stated length.')

prop('C26', 'Linear solvers return the solution and are interchangeable',
     'Direct solves return x with A x = b (also for transposed, non-normal and badly scaled systems, real or integer right-hand sides, and zero right-hand sides), the complex-to-real solver returns the solution of the system coupled to its '
     'conjugate, and neither changes its inputs. Every available backend gives the same answer.',
     ['inputs', 'configurations'],
     'all 2x2 systems over a small alphabet of entries, simulation operators and their transposes x right-hand sides x storage formats x backends',
     'Tests only exercise the default backend through simulations.',
     [L, K],
     [('solver_direct, solver_complex2real', L)],
     T_CFG, 'Complete over the stated table. The MKL backend is not installed here; it is replaced by a stand-in with its interface.')

prop('C27', 'Binarization penalties measure grayness of the design region',
     'The density and smoothness penalties multiply the objective by one minus the mean of 4 rho (1-rho) over the design region: exactly the objective for a binary design, zero for a uniformly half-filled one, strictly '
     'in between otherwise, independent of anything outside the region and of where the gray cells are, and the derivatives are exact. The exponential variant is exp(-c times that mean).',
     ['inputs'],
     'all assignments of {0, 1/4, 1/2, 3/4, 1} to the cells of small design regions x outside values x materials x constants',
     'No test covers it.',
     [U],
     [('Binarizer', U)],
     T_CFG, 'Complete over all assignments on the stated small regions.')

prop('C28', 'Plots show the current data and change nothing',
     'Each plotting call draws the current permittivity or field (absolute value, real part or difference, transposed so that x is horizontal, tiled as asked) with colour limits that cover it, and neither it nor saving '
     'temporary images during an optimization changes any result. Clearing the temporary image folder removes only the files directly in that folder.',
     ['histories', 'configurations'],
     'all plotting calls x options x polarizations, after every history of up to two changes; optimizations with and without temporary plots',
     'Tests call some plots without looking at them.',
     [PL, S, O],
     [('plt_base, plt_base_eps', PL), ('plt_abs, plt_re, plt_diff, plt_eps', S), ('plot_it, _check_temp_plt', O)],
     T_SEQ, 'Complete over the stated table; the image data are read from the matplotlib axes.')

prop('C29', 'Invalid requests are rejected, valid ones are not',
     'Constructing a simulation with a non-positive length unit or frequency, a malformed or negative PML, or an unknown polarization raises an error, as do unknown solvers, directions, nonlinearities, optimization methods, plots of unsolved fields and missing '
     'power probes; every valid combination is accepted. A rejected request leaves the simulation usable and unchanged.',
     ['inputs'],
     'all combinations of valid and invalid values of each argument',
     'Tests never pass invalid values.',
     [S, O, NL, L, M, B],
     [('_check_inputs', S), ('argument checks', O)],
     T_CFG, 'Complete over the stated table.')


prop('C30', 'Derivative checks compare the same design cell twice',
     'A derivative check returns, for each point, the computed gradient of a design cell and the difference quotient of the objective for the requested density step in that same cell, starting from the current '
     'density; the two agree for small steps. The density and the source are left as they were, and the permittivity is that of the density.',
     ['inputs', 'histories'],
     'problems (polarizations, Kerr, mixed) x filters/projections x design regions x start densities x density steps x preceding operations',
     'The tests use it as an oracle, for one cell or two, with one step and no filter, and never check it.',
     [O, S],
     [('check_deriv', O), ('_get_eps', O)],
     T_CFG, 'Complete over the stated table (quick: all pairs of it). The cells are drawn at random by the code; every returned pair is decided against the table of all cells.')


DS = 'data/device_saver.py'
prop('C31', 'A stored device describes the structure it was made from',
     'A Device (data/device_saver.py) made from a simulation and an optimization leaves both unchanged and keeps describing them as they were when it was made: its fields, index shift, linear and nonlinear '
     'transmissions and power matrix (probed in the middle of each outgoing waveguide, per input power of the mode), frequency scan, quality factor and power scan are those of that structure, in whatever order '
     'they are computed and whatever happens to the originals later. A saved and loaded device has the same data. Unknown structure types are rejected.',
     ['histories', 'inputs'],
     'orders of the operations on a device x structure types x strengths of the nonlinearity',
     'It has no tests.',
     [DS, 'angler/structures.py', S, O],
     [('Device, load_device', DS)],
     T_SEQ, 'Complete to the stated depth. dill, which does the pickling, is not installed here: a stand-in keeps a deep copy.')


NOT_APPLICABLE = {}


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=m[0], where=m[1]) if isinstance(m, tuple)
                                                          else dict(name=m, where=p['files'][0]) for m in p['mech']],
                             observe_at=p['observe'], hook_needed=None))) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if os.path.exists(os.path.join(V, 'mc', 'checks', i.lower() + '.py')):
            checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
                               technique=p['technique'], level='model_checking', level_note=p['note']))
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check yet')))
    man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks: the checks drive the public API of /repo/angler. Reference model: mc/ref.py; '
                     'explorer: mc/engine.py; one driver per property in mc/checks.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
