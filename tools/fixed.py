"""writes the list of repaired defects into known_findings.json"""
import json
import os

F = '''ab77b4c C01 an axis of a single cell (1-D grids) had the derivative of a wrapped two-point stencil, so 1-D fields violated Maxwell's equations
d3aa420 C03 the PML covered one cell less at the high end, and the backward stencil was off by one cell
e5ad425 C01 Hz fields were computed with a permittivity different from the edge-averaged one of the system matrix
6a64e0b C15 adjoint gradients of Hz, Ex and Ey objectives were wrong (transposed averaging, derivative operators)
af9dc2e C16 gradients of nonlinear Hx and Hy objectives raised a NameError
0ea78f7 C12 the density filter averaged over the wrong cells at the ends of a periodic axis, or indexed past the grid
db1a454 C12 the density filter was not a weighted average and the gradients did not use its transpose (also C14)
91e8416 C10 assigning a 1-D or differently shaped permittivity kept the old grid and spacing
6608abb C23 init_design_region(style='halfway') wrote into the caller's array (also C11)
bf4dcb7 C19 an optimization of a simulation without a material density crashed
2e642b3 C17 objective and gradient used fields of an older source or permittivity
071c2af C19 an optimization changed the permittivity outside the design region (filter and projection)
93bd367 C26 the scipy branch of solver_complex2real raised a NameError
81657b1 C06 flux_probe multiplied E and H of different places
e2be8f1 C09 the normalization of a mode used other sources too, and failed for negative centers
13bf772 C23 random design regions dropped the loss of the surrounding material
cb4db5f C09 Hz modes averaged the permittivity across the slice for one of the directions
4095d5a C09 the sign of a mode source was random
150cab0 C28 plots crashed (log scale, missing axes, single temporary plot, animation)
5f56440 C13 the derivatives of the density helpers in utils were wrong or raised
2b00195 C22 the source amplitude limiter used an absolute margin that could make the amplitude negative
0d66a56 C21 scan_power started from linear fields of another amplitude
0f39514 C18 L-BFGS crashed with the installed scipy
308eba2 C07 the hybrid solver ignored conv_threshold, error paths raised a NameError
96dbe80 C12 the filter crashed for boolean design regions
6861298 C07 Newton and the adjoint were wrong for complex Kerr coefficients (also C16)
32c398b C09 mode sources ignored the requested mode order
bf3aa89 C11 setting up a mode wrote into the caller's source array
a497d14 C12 filter weights of wrapped cells used the wrong distance
2b7509f C23 init_design_region rounded fractional materials into integer permittivities
0097779 C29 an unknown optimization method was only rejected after the simulation had been changed
9d8492a C09 the input power of a mode was that of a waveguide of the maximal permittivity instead of the one it is injected into
b292e29 C24 complex permittivities of structures lost their imaginary part or were rejected
09379e9 C26 where the diagonal of the system nearly vanishes pardiso's perturbed pivots returned an arbitrary vector, silently
71551b3 C09 a mode set up on a source array of integers was truncated to zeros
9314748 C30 derivative checks and L-BFGS truncated the density when the binary design was given as integers
beb8344 C24 N_port offset its input waveguide by 0.01 in any unit of length: in other units it left the middle or was missing
32b2a63 C22 an index-shift limit turned the source into NaN where a metal (negative permittivity) is (also C08)'''

p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(p))
k['fixed'] = ['fixed: property=%s %s %s' % (l.split()[1], l.split()[0], l.split(None, 2)[2]) for l in F.split('\n')]
json.dump(k, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
