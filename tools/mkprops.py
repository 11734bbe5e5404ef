"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['legume/' + f for f in files],
            state=[dict(name=a, meaning=b, where='legume/' + c) for a, b, c in state],
            mechanism=[dict(name=a, where='legume/' + c) for a, c in mech],
            observe_at=list(obs), hook_needed=hook)))

p('C01', 'Layers stack without gaps; permittivity lookup follows the structure',
  'Whatever sequence of layers, shapes and quantum wells is added, the layers tile the space between the claddings in the order they were added, with no gap or overlap, and an addition that is rejected changes nothing. '
  'The permittivity reported at any point is that of the last added shape covering that point (periodically repeated on the lattice) in the layer containing it, else the background of that layer or cladding, and the reported bounds are the extremes over everything that was added.',
  ['histories', 'inputs'], 'every order of add_layer / add_shape / add_qw calls, valid and invalid, on every lattice, and every query point',
  'The tests build two fixed structures and never query the permittivity at a point; stacking order, shapes in claddings, overlapping shapes, rejected additions and oblique lattices are not reached.',
  ['phc/phc.py', 'phc/layer.py', 'phc/shapes.py'],
  [('PhotCryst.add_layer', 'phc/phc.py'), ('PhotCryst.get_eps', 'phc/phc.py'), ('ShapesLayer.get_eps', 'phc/layer.py'), ('is_inside', 'phc/shapes.py')],
  [('layers', 'layers in stacking order with z_min, z_max', 'phc/phc.py'), ('claddings', 'half-spaces below and above', 'phc/phc.py'), ('shapes', 'shapes of a layer in order of addition', 'phc/layer.py')],
  ['PhotCryst.get_eps', 'PhotCryst.get_eps_bounds', 'Layer.z_min/z_max/d', 'PhotCryst.layers/claddings/qws'])

p('C02', 'Shape Fourier components describe the shape that is drawn',
  'For every shape the Fourier components it reports are the Fourier integrals of the region in which it reports points to be inside: the zero component is its area, opposite wave vectors give conjugate values, and moving, rotating or cutting the shape acts on them as on the region. '
  'For every layer they are the weighted sum of those of its shapes, with the zero component equal to the average permittivity, whatever the order of additions.',
  ['inputs', 'histories'], 'every kind of shape with every position, size, orientation; every list of non-overlapping shapes; every wave vector, including those parallel to polygon edges',
  'The tests check final frequencies of circles only (and a polygonal approximation once); no test evaluates Fourier components, rotations, ellipses, Fourier shapes or special wave vectors.',
  ['phc/shapes.py', 'phc/layer.py'],
  [('compute_ft of every Shape', 'phc/shapes.py'), ('Poly.rotate', 'phc/shapes.py'), ('ShapesLayer.compute_ft', 'phc/layer.py'), ('eps_avg update', 'phc/layer.py')],
  [('eps_avg', 'average permittivity of a layer', 'phc/layer.py')],
  ['Shape.compute_ft', 'Shape.area', 'Shape.is_inside', 'ShapesLayer.compute_ft', 'ShapesLayer.eps_avg'])

p('C03', 'The reciprocal basis is the complete set the truncation asks for',
  'A simulation expands over distinct reciprocal lattice vectors: with circular truncation every lattice vector no longer than the cutoff and no other, with parallelogram truncation a complete index rectangle; the set contains zero and is closed under inversion. '
  'Every kind of simulation object uses the same set for the same lattice and cutoff, and a larger cutoff never removes a vector.',
  ['inputs', 'configurations'], 'every lattice (square, hexagonal, rectangular, oblique), every cutoff, both truncations, guided-mode / plane-wave / exciton objects',
  'Tests use three lattices at one cutoff each and never look at the basis; a missing or duplicated vector only shifts frequencies within their tolerance.',
  ['phc/lattice.py', 'gme/gme.py', 'pwe/pwe.py', 'exc/exc.py'],
  [('Lattice.__init__', 'phc/lattice.py'), ('_init_reciprocal_tbt/_abs', 'gme/gme.py'), ('_init_reciprocal', 'pwe/pwe.py'), ('_init_reciprocal_*', 'exc/exc.py')],
  [('gvec', 'reciprocal vectors of the expansion', 'gme/gme.py')], ['GuidedModeExp.gvec', 'PlaneWaveExp.gvec', 'ExcitonSchroedEq.gvec', 'Lattice.b1/b2'])

p('C04', 'Permittivity used by the solver is the truncated one of the structure',
  'The permittivity map a simulation reports is the Fourier series of the drawn structure truncated to its basis, in every layer, in both claddings and for both truncations. '
  'The electric and displacement fields of every mode obey that same permittivity: in each layer the Fourier components of D are the convolution of those of eps with E.',
  ['inputs', 'configurations'], 'every structure without inversion symmetry, every layer, truncation, polarisation and mode',
  'The tested structures are inversion symmetric, so a transposed or conjugated permittivity is invisible; fields are never compared with anything.',
  ['gme/gme.py', 'pwe/pwe.py', 'utils.py'],
  [('_compute_ft_tbt/_abs', 'gme/gme.py'), ('compute_eps_inv', 'gme/gme.py'), ('toeplitz_block', 'utils.py'), ('get_eps_xy', 'gme/gme.py'), ('ft_field_xy', 'gme/gme.py')],
  [('T1, T2, eps_ft', 'Fourier components of every layer', 'gme/gme.py')], ['get_eps_xy', 'ft_field_xy'])

p('C05', 'Results of a run depend only on its own arguments, not on history',
  'After any history of runs, failed runs, queries, additional loss computations, other simulation objects and backend switches, a successful run leaves exactly the results that the same run leaves on a new object of the same structure. '
  'Reading results never changes them, radiative results are never those of an earlier run, and option containers passed in are left as they were.',
  ['histories', 'fault_sequences'], 'every sequence of runs with differing options (guided modes, number of bands, symmetry, solver, k-points, losses), including rejected ones, on one or several objects',
  'Every test makes a new object and runs it once; only histories of several different runs can show state left behind.',
  ['gme/gme.py', 'pwe/pwe.py', 'exc/exc.py', 'pol/pol.py', 'backend.py'],
  [('GuidedModeExp.run resets', 'gme/gme.py'), ('compute_eps_inv cache', 'gme/gme.py'), ('run_im', 'gme/gme.py'), ('set_backend', 'backend.py')],
  [('freqs, eigvecs, kz_symms, freqs_im, rad_coup, rad_gvec', 'visible results', 'gme/gme.py'), ('eps_inv_mat', 'cached inverse permittivity', 'gme/gme.py')],
  ['GuidedModeExp.run/run_im/compute_rad/get_field_*', 'PlaneWaveExp.run', 'ExcitonSchroedEq.run'])

p('C06', 'Exactly the requested bands are returned, in ascending order',
  'For every k-point a run returns exactly the requested number of modes (more than the basis has are refused, or cut to it), in ascending order; asking for fewer returns the beginning of the complete list, or with the "nearest to a target" solver exactly those closest to the target. '
  'Returned eigenvectors are orthonormal and belong to the frequency at the same index.',
  ['inputs', 'configurations'], 'every k-point, number of bands, target frequency, solver, truncation and polarisation',
  'The tests look at a fixed subset of bands at one setting; selection at the ends of the spectrum, near the target and pairing of eigenvectors are unobserved.',
  ['gme/gme.py', 'pwe/pwe.py', 'exc/exc.py'], [('run: sorting and selection', 'gme/gme.py'), ('run', 'pwe/pwe.py'), ('run', 'exc/exc.py')],
  [('freqs, eigvecs', 'results of a run', 'gme/gme.py')], ['GuidedModeExp.freqs/eigvecs', 'PlaneWaveExp.freqs/eigvecs', 'ExcitonSchroedEq.eners/eigvecs'])

p('C07', 'Each k-point is solved independently of the others in the list',
  'The result at a k-point does not depend on which other k-points are in the same run, nor on their order or repetition. '
  'Queries by k index refer to that k-point.',
  ['inputs', 'schedules'], 'every list of k-points: permutations, repetitions, sub-lists, the zone centre anywhere, including symmetry angles given per k-point',
  'The tests run fixed lists and compare fixed numbers; no test compares runs over different lists.',
  ['gme/gme.py', 'pwe/pwe.py', 'exc/exc.py', 'pol/pol.py'], [('run loop over k', 'gme/gme.py'), ('run', 'pwe/pwe.py'), ('run', 'pol/pol.py')],
  [('per-k lists', 'one entry per k-point', 'gme/gme.py')], ['freqs, freqs_im, eigvecs, kz_symms, rad_coup, get_field_xy(kind=k index)'])

p('C08', 'Mirror-symmetry separation partitions the modes with correct labels',
  'At every k-point on a mirror line of the structure, the even and the odd spectrum together are exactly the full spectrum; "both" returns their union with every mode labelled by the parity its field really has under the reflection, and "none" returns the same frequencies. '
  'Every solver and every equivalent direction gives the same partition, and zone-centre modes are separated with the angle supplied.',
  ['inputs', 'configurations'], 'every mirror-symmetric structure and direction, guided-mode set, number of bands, dense and sparse separation',
  'One test compares the union on one structure with all guided modes; labels, mixed guided-mode sets, other directions and eigenvectors of the separated problem are not checked.',
  ['gme/gme.py'], [('_separate_hamiltonian_dense/_sparse', 'gme/gme.py'), ('_calculate_refl_mat', 'gme/gme.py'), ('_construct_sym_mat', 'gme/gme.py')],
  [('kz_symms', 'parity label per mode', 'gme/gme.py')], ['GuidedModeExp.freqs', 'kz_symms', 'get_field_xy'])

p('C09', 'Radiative losses are the sum over the open diffraction channels',
  'Losses are never negative, modes below both light lines have none, and radiation goes exactly into those diffraction orders that propagate in the cladding concerned, lower and upper, TE and TM. '
  'The loss of a mode is accounted for by the reported couplings to those channels, the reported unbalance is the share of the s polarisation in it, and computing losses together with, after, or for a subset of the modes gives the same values.',
  ['inputs', 'configurations', 'histories'], 'every structure with unequal claddings, k-point, mode and subset of modes, with many or no open channels',
  'The tests compare a few losses of symmetric structures; asymmetric claddings, higher diffraction orders, the channel list and the unbalance are not observed.',
  ['gme/gme.py', 'gme/slab_modes.py'], [('_compute_rad_components', 'gme/gme.py'), ('compute_rad', 'gme/gme.py'), ('run_im', 'gme/gme.py'), ('rad_modes', 'gme/slab_modes.py')],
  [('rad_coup, rad_gvec, freqs_im, unbalance_sp', 'radiative results', 'gme/gme.py')], ['freqs_im', 'rad_coup', 'rad_gvec', 'unbalance_sp', 'compute_rad', 'compute_rad_sp'])

p('C10', 'Slab spectra and losses obey the symmetries of Maxwell equations',
  'Describing the same physical slab differently never changes its frequencies and losses: translating it, choosing equivalent lattice vectors, splitting a layer into thinner ones, turning it upside down, changing the order of shapes, or reversing k; rotating it with its k-points gives the rotated result. '
  'Scaling all lengths or all permittivities scales frequencies and losses by the exact power, and the spectrum of a cell is contained in that of its supercell.',
  ['inputs', 'configurations', 'programs'], 'every multi-layer structure without symmetry, every transformation and composition of transformations',
  'The tests compare with reference numbers of a few symmetric structures and cannot see errors outside these; the relation between two runs is never tested.',
  ['gme/gme.py', 'gme/matrix_elements.py', 'gme/slab_modes.py'], [('_construct_mat', 'gme/gme.py'), ('matrix elements', 'gme/matrix_elements.py'), ('guided_modes', 'gme/slab_modes.py')],
  [], ['GuidedModeExp.freqs', 'freqs_im'])

p('C11', 'Numerical options and backends do not change the physics',
  'The choice of eigenvalue solver, of numerical backend, of interpolated or exact guided modes, of losses computed with the run or later, of sparse or dense separation of symmetries, and of truncation when both truncations give the same basis, leaves frequencies, losses and field intensities unchanged up to the accuracy asked for.',
  ['configurations'], 'every combination of the documented numerical options on every structure',
  'Each test uses one combination; the product of options is not reached.',
  ['gme/gme.py', 'backend.py', 'primitives.py', 'utils.py'], [('run: options', 'gme/gme.py'), ('NumpyBackend/AutogradBackend', 'backend.py'), ('_get_guided interpolation', 'gme/gme.py')],
  [], ['freqs', 'freqs_im', 'get_field_xy'])

p('C12', 'Fields of every mode satisfy Maxwell equations, and views of it agree',
  'For every mode, D is the curl of H divided by frequency, both are divergence free, H and normal D are continuous through every interface (tangential E too between layers without pattern), and the mode carries unit magnetic energy and as much electric energy. '
  'The xy, xz and yz sections, single components and grid choices show the same field, with Bloch phase from cell to cell.',
  ['inputs', 'configurations'], 'every structure, mode, field, component, position of the section',
  'No test reads a field.',
  ['gme/gme.py', 'pwe/pwe.py', 'utils.py'], [('ft_field_xy', 'gme/gme.py'), ('get_field_xy/xz/yz', 'gme/gme.py'), ('get_field_xy', 'pwe/pwe.py'), ('ftinv', 'utils.py')],
  [], ['get_field_xy', 'get_field_xz', 'get_field_yz', 'ft_field_xy'])

p('C13', 'Structures without pattern give the folded modes of the uniform slab',
  'When the pattern is absent, or drawn with the background permittivity, the bands are exactly the dispersion of the uniform slab or medium evaluated at k plus every reciprocal vector of the basis, modes are pure TE or TM, and nothing radiates. '
  'Keeping only the guided-mode basis without coupling reproduces these for the averaged slab.',
  ['inputs', 'configurations'], 'every stack of uniform layers, every k-point, lattice and guided-mode set',
  'Tests contain no unpatterned structure with several layers or off-axis k-points.',
  ['gme/gme.py', 'pwe/pwe.py', 'gme/slab_modes.py'], [('_construct_mat', 'gme/gme.py'), ('guided_modes', 'gme/slab_modes.py'), ('run', 'pwe/pwe.py')], [], ['freqs', 'freqs_im', 'only_gmodes'])

p('C14', 'Guided modes of a slab are found completely and in order',
  'For every stack, wave vector and polarisation, the guided-mode solver returns every guided mode and nothing else, in ascending order, one for each number of field nodes starting from zero, within the guided range between the light lines, each satisfying the dispersion relation of the stack. '
  'Every mode is returned with a normalised field profile that is continuous through the layers.',
  ['inputs'], 'every number of layers, permittivities, thicknesses, claddings and wave vectors, including cut-off and nearly degenerate modes',
  'One test checks the number of modes of one structure; missed or duplicated roots for other stacks only show as slightly different band structures.',
  ['gme/slab_modes.py', 'utils.py', 'backend.py'], [('guided_mode_given_g', 'gme/slab_modes.py'), ('D22', 'gme/slab_modes.py'), ('normalization_coeff', 'gme/slab_modes.py'), ('fsolve', 'utils.py')], [], ['legume.guided_modes'])

p('C15', 'Polariton spectra conserve oscillators and reduce to their parts',
  'Photonic and excitonic fractions of every polariton add up to one, states are returned in ascending order, and with vanishing oscillator strength they are the lowest of the photon and exciton energies together, with the fractions of a pure photon or exciton. '
  'The result does not depend on the order in which quantum wells were added, identical wells differ from one well of their joint strength only by dark excitons at the bare energy, and k-points are independent.',
  ['inputs', 'histories'], 'every set of quantum wells (number, height, order, strength) in every structure, every k-point',
  'The test compares one structure with one well to reference numbers; several wells, orders and limits are not reached.',
  ['pol/pol.py', 'exc/exc.py', 'phc/phc.py'], [('_construct_Hopfield', 'pol/pol.py'), ('_calculate_C_D', 'pol/pol.py'), ('run', 'pol/pol.py')],
  [('fractions_ex/fractions_ph', 'composition of a polariton', 'pol/pol.py')], ['HopfieldPol.eners', 'fractions_ex', 'fractions_ph', 'eners_im'])

p('C16', 'Exciton energies follow the lattice Schroedinger equation',
  'Without potential the energies are exactly the folded kinetic energies plus the band edge; a potential over the whole cell or of either sign shifts them rigidly as documented, and shapes added in any order or split into parts give the same potential, whose map shows the shapes. '
  'Energies are ascending, real, invariant under translation of the pattern and reversal of k, scale with mass and length as the equation does, and wave functions are normalised Bloch functions.',
  ['inputs', 'histories'], 'every pattern, lattice, mass, potential sign, truncation and k-point',
  'The exciton solver is only tested through one polariton reference; its own output is never examined.',
  ['exc/exc.py', 'phc/layer.py'], [('_compute_matrix', 'exc/exc.py'), ('compute_exc_ft', 'phc/layer.py'), ('run', 'exc/exc.py')], [], ['ExcitonSchroedEq.eners', 'get_wavef_xy', 'get_pot_xy'])

p('C17', 'A path in the Brillouin zone visits its points in order, evenly spaced',
  'The returned path starts and ends at the requested points, passes through every one of them at the reported index, with the requested number of equal steps between; labels, positions and angles correspond to the points, and named points are the conventional ones of the lattice type. '
  'Requests that make no sense for the lattice are rejected.',
  ['inputs'], 'every list of named and explicit points, step counts and lattice types',
  'No test checks a path.',
  ['phc/lattice.py'], [('Lattice.bz_path', 'phc/lattice.py'), ('_parse_point', 'phc/lattice.py')], [], ['Lattice.bz_path'])

p('C18', 'The optimizers follow their stated contract',
  'For every objective and option set the optimizer evaluates at points within the bounds, performs the stated number of steps (or stops for the stated reason), follows the documented update rule in the requested direction, and returns parameters and the history of objective values that really belong to the points visited. '
  'Starting parameters, bounds and extra arguments passed by the caller are never modified, and repeated use of the same optimizer starts afresh.',
  ['histories', 'inputs'], 'every objective, starting point, bounds, direction, number of epochs and sequence of optimizations with one object',
  'No test runs an optimizer.',
  ['minimize.py'], [('Minimize.adam', 'minimize.py'), ('Minimize.lbfgs', 'minimize.py'), ('_parse_bounds', 'minimize.py')], [('of_list, p', 'history and current parameters', 'minimize.py')], ['Minimize.adam', 'Minimize.lbfgs'])

p('C19', 'Automatic gradients equal finite differences',
  'For every supported differentiable quantity - frequencies, losses, field values, of guided-mode and plane-wave expansion, exciton energies and wavefunctions, with respect to shape, thickness, permittivity and potential parameters - the gradient computed by automatic differentiation is the true derivative.',
  ['inputs', 'configurations'], 'every parameter, quantity, solver option and mode away from degeneracy',
  'Gradient tests exist for a few quantities with loose tolerance and are not among the reliable ones for all solvers; other parameters and options are not reached.',
  ['primitives.py', 'backend.py', 'gme/gme.py', 'pwe/pwe.py', 'exc/exc.py', 'utils.py'], [('custom vjps', 'primitives.py'), ('AutogradBackend', 'backend.py'), ('grad_num', 'utils.py')], [], ['autograd.value_and_grad'])

p('C20', 'Plane-wave bands obey the symmetries of the 2D Maxwell equations',
  'Plane-wave spectra of both polarisations are unchanged by translation of the pattern, reversal of k, equivalent shapes lists and lattice bases, rotate with the structure, scale exactly with length and permittivity, and in a uniform medium are the folded light lines. '
  'The fields belong to the modes: they obey the curl relations with the permittivity used, and single components agree with full fields.',
  ['inputs', 'configurations'], 'every pattern without symmetry, both polarisations, every k-point',
  'Tests compare with reference numbers for one pattern.',
  ['pwe/pwe.py', 'utils.py'], [('PlaneWaveExp.run', 'pwe/pwe.py'), ('_compute_ft', 'pwe/pwe.py'), ('ft_field_xy', 'pwe/pwe.py')], [], ['PlaneWaveExp.freqs', 'get_field_xy', 'get_eps_xy'])

p('C21', 'Invalid requests are rejected with an error and without side effects',
  'A request outside the documented domain - unknown option values, incompatible options, more modes than a guided-mode expansion has, modes or wave vectors that were not computed, quantum wells in the claddings, results asked for before a run - raises an error instead of returning wrong results. '
  'The object is as usable afterwards as a new one, and valid requests are never rejected.',
  ['inputs', 'fault_sequences'], 'every documented option with an invalid value, in every state of the object',
  'Tests only make valid calls.',
  ['gme/gme.py', 'pwe/pwe.py', 'exc/exc.py', 'pol/pol.py', 'phc/phc.py', 'phc/lattice.py', 'backend.py'], [('argument validation', 'gme/gme.py')], [], ['raised exceptions', 'results of later calls'])

p('C22', 'Exported layouts contain exactly the pattern of the structure',
  'The exported layout contains, on the layer number of each layer of the structure, exactly its shapes: every one once with its place, size and orientation in the stated unit, to the stated tolerance, and nothing else - in particular nothing of what was exported before. A structure with a shape that cannot be exported is refused rather than exported without it. '
  'The raster export outlines the regions of the unit cell, inside its border, where the value is beyond the requested levels, and the boundary of the cell if asked for.',
  ['inputs'], 'every structure with shapes of every kind in any number of layers, every unit and level list',
  'No test exports a layout.',
  ['gds.py'], [('generate_gds', 'gds.py'), ('generate_gds_raster', 'gds.py')], [], ['the written GDSII file read back'])

p('C23', 'Drawings show exactly the results and change nothing',
  'Every drawing shows the results it is made of: each state of a band diagram once, at the place of its wave vector and at its frequency or energy in the unit asked for, coloured by its own quality factor, parity or fraction; the light cone begins where modes of the claddings begin; sections of permittivity, potential, fields and wave functions have the values, the place and the orientation they have in the structure, and outlines of shapes go around the shapes. '
  'Drawing changes no results, and every documented combination of options is drawn.',
  ['inputs', 'configurations'], 'every structure and result, every drawing function, every combination of its options',
  'No test draws anything.',
  ['viz.py'], [('bands', 'viz.py'), ('pol_bands', 'viz.py'), ('structure', 'viz.py'), ('field', 'viz.py'), ('calculate_x', 'viz.py')], [], ['artists of the figure', 'results of the object afterwards'])

p('C24', 'Larger expansions and stronger materials move the bands in one direction only',
  'Adding guided modes to a guided-mode expansion, or plane waves to an exciton expansion, never raises a band and interlaces the spectra. Raising the permittivity anywhere never raises a plane-wave or slab band, nor does thickening a slab; a deeper potential never lowers, a heavier mass never raises an exciton; '
  'a stronger coupling moves polaritons away from the excitons. Nothing else happens to the number of states.',
  ['inputs', 'configurations'], 'every structure, every nested pair of bases, every ordered pair of structures',
  'Tests compare single spectra with reference numbers and never two runs with each other.',
  ['gme/gme.py', 'gme/matrix_elements.py', 'gme/slab_modes.py', 'pwe/pwe.py', 'exc/exc.py', 'pol/pol.py'], [('_construct_mat', 'gme/gme.py'), ('run', 'pwe/pwe.py'), ('run', 'exc/exc.py'), ('_construct_hopfield', 'pol/pol.py')], [], ['freqs', 'eners'])

p('C25', 'The numerical building blocks compute what they state, and so their gradients',
  'Every function the solvers are assembled from (Toeplitz blocks, inverse, eigenvalues, roots, interpolation, sparse product, Fourier sums, array functions of the backends, conversion to energy) returns the stated value, the same under both backends; what is differentiable passes back exactly the adjoint of its derivative along every direction, '
  'numerical gradients are the difference quotients for numbers and arrays of steps; the backend is the one set last, and unknown names are refused.',
  ['inputs', 'configurations', 'histories'], 'all sizes, real and complex data, zeros and repetitions, every direction, every order of backend switches',
  'Tests evaluate eigh and inv gradients at one random matrix; Toeplitz blocks, interpolation, roots, stable roots, sparse products and the numerical gradients are never called with known results.',
  ['primitives.py', 'utils.py', 'backend.py'], [('vjp_maker_TB_T1/T2', 'primitives.py'), ('toeplitz_block', 'utils.py'), ('grad_num', 'utils.py'), ('set_backend', 'backend.py')], [('backend', 'class of the one backend object', 'backend.py')], ['legume.backend.backend', 'legume.utils', 'legume.primitives'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for r in P:
        f.write(json.dumps(r) + '\n')
print(len(P))
