#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table below."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique,
        note, observe=(), state=()):
    P.append((dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w)
            for n, w in mechanism],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)),
        technique, note))


I = ['inputs']
IC = ['inputs', 'configurations']
IH = ['inputs', 'histories']

prop('S01', 'Supercell models describe the same crystal',
    'For every integer supercell matrix of nonzero determinant, mapping an '
    'electron, interaction, phonon (including dipole and quadrupole '
    'long-range terms), or electron-phonon model onto the supercell yields a '
    'model whose Fourier transform at any point of the supercell Brillouin '
    'zone is the exact block-Bloch transform of the original at all points '
    'folded onto it, with orbitals, atoms, positions, masses and charges '
    'repeated cell by cell. The sparse option gives the q = k = 0 matrices of '
    'the dense result, and mapping a supercell model of electrons or phonons '
    'back to the unit cell restores the original. No mapping modifies the '
    'original model.',
    IC, 'all models x all integer supercell matrices (also skew and '
    'left-handed ones) x all wave vectors x all energy/mass conventions',
    'The tests compare sorted eigenvalues of a few diagonal supercells of '
    'the graphene/TaS2 examples; skew, left-handed, polar, sparse, unscaled '
    'and multi-step cases are never reached.',
    ['elphmod/bravais.py', 'elphmod/el.py', 'elphmod/elel.py',
        'elphmod/ph.py', 'elphmod/elph.py'],
    [('supercell, to_supercell', 'elphmod/bravais.py'),
        ('Model.supercell, Model.unit_cell', 'elphmod/{el,elel,ph,elph}.py')],
    'property-based testing: random models and integer matrices against the '
    'Bloch theorem (folded block sums) as oracle, shrinking',
    'Random exploration; the oracle is an independent dense implementation of '
    'the folding identity evaluated with the original model; trusts numpy.',
    ['H(k), D(q), W(q), g(q, k), v(k), Hs, Ds, gs, cells, r, M, Z, Q'])

prop('S02', 'Model evaluation equals the lattice Fourier sum',
    'The Hamiltonian, band velocity, dynamical matrix, screened interaction '
    'and electron-phonon coupling returned for any wave vectors equal the '
    'explicit Fourier sums (and their analytic k derivative) of the stored '
    'lattice data, are periodic in reciprocal lattice vectors, and are '
    'Hermitian or related by their adjoint if the data are. Results depend '
    'only on the arguments and the present model, never on which points were '
    'evaluated before, on copies made of the model, or on data-changing '
    'methods called in between. Band-basis and sampled couplings (given or '
    'on-the-fly eigenvectors, squared or not, any mesh) equal the '
    'corresponding explicit transformation and leave the arguments untouched.',
    IH, 'all lattice data x all wave vectors x all histories of evaluations '
    'and modifications x all sampling options',
    'Tests evaluate couplings on one mesh in one order; stale caches and '
    'in-place changes of arguments need histories they do not generate.',
    ['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elel.py', 'elphmod/elph.py',
        'elphmod/dispersion.py'],
    [('H, v, t', 'elphmod/el.py'), ('D, C', 'elphmod/ph.py'),
        ('W, WR', 'elphmod/elel.py'),
        ('g, gR, sample, transform', 'elphmod/elph.py'),
        ('sample', 'elphmod/dispersion.py')],
    'stateful property-based testing against explicit Fourier sums',
    'Random models, histories of method calls and options; oracle is an '
    'explicit lattice sum in numpy.',
    state=[('q, gq', 'coupling at the last q point', 'elphmod/elph.py')])

prop('S03', 'Real-space models reproduce the mesh data they were made from',
    'Converting Hamiltonians, interactions, dynamical matrices or couplings '
    'given on a regular mesh to real space yields a model whose Fourier '
    'transform equals the given data at every mesh point, in the documented '
    'units, for any mesh size, lattice and basis positions, whether phonon '
    'data are given on the full mesh or for the irreducible points only. The '
    'hopping range follows the Wigner-Seitz construction: every stored '
    'lattice vector connects nearest images with weights that sum to one, so '
    'data generated by a sufficiently short-ranged model are interpolated '
    'exactly at every wave vector.',
    I, 'all meshes x lattices x basis positions x Hermitian data x unit and '
    'normalization conventions',
    'Tests convert one hexagonal example mesh back and forth.',
    ['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elel.py', 'elphmod/elph.py',
        'elphmod/bravais.py'],
    [('k2r', 'elphmod/el.py'), ('q2r', 'elphmod/{ph,elel,elph}.py'),
        ('short_range_model, wigner', 'elphmod/bravais.py')],
    'property-based round-trip testing (model -> mesh -> model)',
    'Random meshes, lattices and data; the oracle is the round trip and the '
    'generating short-range model.')

prop('S04', 'Gauge and basis changes of models leave observables unchanged',
    'Reordering and shifting orbitals or atoms, sorting, merging and '
    'symmetrizing lattice data change the model by exactly the corresponding '
    'permutation, lattice-vector phase, threshold, or Hermitian average at '
    'every wave vector. Basis positions, masses, charges, names and sum rules '
    'transform consistently, any sequence of such operations composes, and '
    'models derived or copied earlier are not changed by them.',
    IH, 'all models x all permutations, shifts, thresholds x all sequences of '
    'these operations',
    'Tests apply single operations to the shipped example models.',
    ['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elel.py', 'elphmod/elph.py'],
    [('order_orbitals, shift_orbitals, standardize, symmetrize, clear',
        'elphmod/el.py'), ('order_atoms, shift_atoms, standardize, '
        'symmetrize, clear', 'elphmod/ph.py'), ('standardize',
        'elphmod/elel.py'), ('standardize, symmetrize, clear',
        'elphmod/elph.py')],
    'stateful property-based testing: operation sequences against a '
    'dictionary reference model',
    'Random operation sequences replayed on a reference model (dictionary '
    'lattice vector -> matrix).')

prop('S05', 'Wigner-Seitz cells are exact',
    'For any lattice, supercell mesh and pair of basis positions, the '
    'Wigner-Seitz lattice vectors are precisely the nearest periodic images '
    'of every point of the supercell mesh, with degeneracies equal to the '
    'number of equidistant images and weights that sum to one per mesh '
    'point. The two-dimensional variants (including the mapping of a point '
    'to the Voronoi cell and all its images) agree with a brute-force '
    'distance search for the supported lattice angles.',
    I, 'all lattices x meshes x basis positions (also outside the home cell)',
    'Tests compare the 2D and 3D variants for three angles and one mesh.',
    ['elphmod/bravais.py'],
    [('wigner, short_range_model, wigner_2d, to_Voronoi, squared_distance',
        'elphmod/bravais.py')],
    'property-based testing against brute-force nearest-image search',
    'Random lattices including symmetric ones with degenerate images; '
    'brute force over a larger image range.')

prop('S06', 'Long-range electrostatics is consistent',
    'For polar 3D and 2D crystals (dipoles, quadrupoles, range separation), '
    'the wave-vector-dependent part of the long-range dynamical matrix is '
    'Hermitian, the whole obeys the acoustic sum rule at the zone center, '
    'equals the explicit reciprocal-lattice sum with '
    'the documented cutoff, and has the analytic nonanalytic limit. '
    'Subtracting and adding it leaves the dynamical matrices and couplings '
    'on the original mesh unchanged for any charges, quadrupoles, or '
    'separation length set afterwards. The long-range coupling is the '
    'corresponding square root: their products reproduce the long-range '
    'dynamical matrix.',
    IC, 'all lattices, dielectric tensors, Born charges, quadrupoles, range '
    'separations and wave vectors, 2D and 3D',
    'No test covers polar models other than a reading test.',
    ['elphmod/ph.py', 'elphmod/elph.py'],
    [('prepare_long_range, generate_long_range, D_lr, update_short_range, '
        'sample_orig', 'elphmod/ph.py'), ('g_lr, update_short_range, '
        'sample_orig', 'elphmod/elph.py')],
    'property-based testing against an explicit Ewald-like sum',
    'Random polar models; independent reimplementation of the sums.')

prop('S07', 'Sum-rule corrections enforce the sum rules',
    'After applying the acoustic sum rule, a rigid translation costs no '
    'energy and couples to no electrons, and after applying the rotation sum '
    'rules also a rigid rotation costs none, for any force constants, charges '
    'or couplings, with or without mass normalization, in unit cells and '
    'supercells. The correction is the smallest possible one where '
    'documented, keeps symmetry and zeros, and does not change data that '
    'already satisfy the sum rules.',
    IC, 'all force constants, charges and couplings x all masses',
    'Tests check the correction for one dispersion only.',
    ['elphmod/ph.py', 'elphmod/elph.py', 'elphmod/md.py'],
    [('asr, zasr, sum_rule_correction, sum_force_constants',
        'elphmod/ph.py'), ('asr', 'elphmod/elph.py')],
    'property-based testing of invariants and idempotence',
    'Random models; sums evaluated independently.')

prop('S08', 'Brillouin-zone symmetry reduction is lossless',
    'For hexagonal and square meshes of any size, the images of a k point are '
    'its orbit under the point group, the irreducible points contain exactly '
    'one member of each orbit, and data of an invariant quantity given on '
    'the irreducible wedge or its boundary region are completed to the full '
    'mesh exactly. Energies, eigenvectors and orders computed via the '
    'irreducible wedge agree with a direct calculation at every mesh point, '
    'and reported symmetry operations are exactly those that leave the data '
    'invariant.',
    I, 'all mesh sizes x lattice angles x symmetric data',
    'Tests use single mesh sizes.',
    ['elphmod/bravais.py', 'elphmod/dispersion.py'],
    [('images, irreducibles, symmetries, complete, complete_k',
        'elphmod/bravais.py'), ('dispersion_full, dispersion_full_nosym',
        'elphmod/dispersion.py')],
    'property-based testing against group-theoretical brute force',
    'Random mesh sizes and symmetric data; orbits by explicit 2x2 matrices.')

prop('S09', 'Interpolation on meshes is exact where it must be',
    'Linear interpolation and resizing of periodic (also angular or '
    'multi-component) data return the data at mesh points, reproduce '
    'functions that are linear within the triangles (or bilinear squares) at '
    'any other point, are continuous and periodic, and do not change the '
    'input. Fourier interpolation returns the data at mesh points and '
    'reproduces any band-limited function at every point, and stacking '
    'values on a periodic axis returns equivalent values of least spread.',
    I, 'all mesh shapes, lattice angles, axes, periods, points',
    'Tests interpolate one smooth function.',
    ['elphmod/bravais.py'],
    [('linear_interpolation, resize, Fourier_interpolation, stack',
        'elphmod/bravais.py')],
    'property-based testing against exact piecewise-linear references',
    'Random data, shapes and points; brute-force triangle search.')

prop('S10', 'Lattice geometry and k paths are consistent',
    'For every supported Bravais-lattice index and its parameters, the '
    'primitive vectors have the lengths, angles, volume and centering of that '
    'lattice, and direct and reciprocal vectors, crystal and Cartesian '
    'coordinates, rotations and volumes are mutually inverse or consistent in '
    'two and three dimensions. Paths through reciprocal space contain every '
    'requested corner at the reported index, with monotonic distances equal '
    'to the Cartesian path length and points on the straight segments, and '
    'meshes enumerate every point once in the documented order.',
    I, 'all Bravais lattices and parameters x all paths, point densities and '
    'meshes',
    'Tests check a handful of fixed lattices and one path.',
    ['elphmod/bravais.py'],
    [('primitives, translations, reciprocals, volume, rotate, path, GMKG, BZ, '
        'mesh, kpoints, crystal_to_cartesian, cartesian_to_crystal, '
        'point_on_path', 'elphmod/bravais.py')],
    'property-based testing of geometric invariants',
    'Random parameters in the valid domain; invariants derived from the '
    'lattice definition (metric tensor).')

prop('S11', 'Occupation functions form consistent families',
    'Every step function has the limits one and zero far below and above the '
    'Fermi level (overflow-free up to very large arguments, scalar or array, '
    'integer or real, and in the complex plane for Fermi and Bose functions), '
    'its complement is its mirror image (except for cold smearing, which is '
    'asymmetric by construction), and its delta function and that '
    "one's derivative are its exact analytic derivatives and normalized. "
    'The entropy satisfies ds = x df and vanishes far from the '
    'Fermi level, names and aliases select the right family, and the '
    'Matsubara sums converge to the closed forms.',
    I, 'all smearing types x all arguments',
    'Tests compare derivatives on one fixed grid.',
    ['elphmod/occupations.py'],
    [('all functions, smearing', 'elphmod/occupations.py')],
    'property-based testing against high-precision closed forms, quadrature '
    'and limit identities',
    'Random arguments over many orders of magnitude, all families; '
    'independent closed forms and Gauss-Legendre quadrature.')

prop('S12', 'The Fermi level conserves the particle number',
    'For any energies, electron number strictly between empty and full, '
    'temperature and continuous smearing function, the returned chemical potential yields the '
    'requested number of electrons within the requested tolerance, '
    'independent of the initial guess, the order of the energies, and a '
    'common energy shift or scale. Both available solvers agree where the '
    'simple one converges (sufficiently small damping factor).',
    I, 'all spectra, fillings, temperatures, smearings and initial guesses',
    'Tests use one spectrum.',
    ['elphmod/occupations.py', 'elphmod/md.py'],
    [('find_Fermi_level, find_Fermi_level_simple', 'elphmod/occupations.py')],
    'property-based testing of the defining equation',
    'Random spectra and smearings.')

prop('S13', 'Densities of states and spectral functions are exact',
    'The tetrahedron (triangle) density of states and Eliashberg function of '
    'any band on a hexagonal mesh integrate to one state and the average '
    'coupling, vanish outside the band, and equal the exact integral of the '
    'piecewise linear interpolation at every energy. The double delta '
    'function integrates like the exact intersection of two piecewise linear '
    'isolines and is invariant under shifts of the mesh, and isolines lie on '
    'the interpolated energy surface.',
    I, 'all periodic bands and couplings (also with degenerate corners) x all '
    'energies',
    'Tests integrate one cosine band.',
    ['elphmod/dos.py', 'elphmod/eliashberg.py', 'elphmod/ph.py'],
    [('hexDOS, hexa2F, double_delta, isoline', 'elphmod/dos.py'),
        ('spectral_function', 'elphmod/ph.py')],
    'property-based testing against exact triangle integration',
    'Random bands; independent exact formulas per triangle.')

prop('S14', 'Response functions are derivatives of the grand potential',
    'For every smearing, the first-order, second-order (phonon self-energy) '
    'and third-order diagrams, including intraband and degenerate terms, '
    'equal the derivatives of the grand potential of the electronic energies '
    'with respect to displacements that couple to the electrons. At finite q '
    'and frequency, with any subset of bands, energy window, active space, '
    'or given matrix shape, the self-energies equal the explicit sum over k '
    'points and band pairs, are Hermitian at zero frequency, and are not '
    'affected by parallel distribution or by modification of inputs.',
    IC, 'all energies, couplings, q points, smearings, temperatures, windows',
    'Tests compare two implementations for one model.',
    ['elphmod/diagrams.py'],
    [('grand_potential, first_order, phonon_self_energy, '
        'phonon_self_energy_fermi_shift, phonon_self_energy2, triangle',
        'elphmod/diagrams.py')],
    'property-based testing against numerical derivatives and brute-force '
    'loops',
    'Random Hamiltonians; derivatives by high-order differences of an '
    'independent grand potential, sums as explicit loops.')

prop('S15', 'Diagrams equal their defining sums',
    'Bare susceptibilities, (constrained) orbital polarization, screened and '
    'renormalized couplings in band and orbital basis, Fermi-surface '
    'averages, electron self-energy and optical conductivity equal the '
    'explicit sums that define them for any energies, eigenvectors, '
    'couplings, q points on the mesh, smearings, and temperatures. Band and '
    'orbital formulations agree, degenerate energies yield the derivative '
    'limit, and inputs are left unchanged.',
    IC, 'all energies, eigenvectors, couplings, meshes, q points, smearings',
    'Tests evaluate few quantities for one model.',
    ['elphmod/diagrams.py'],
    [('susceptibility, susceptibility2, polarization, '
        'renormalize_coupling_band, renormalize_coupling_orbital, Pi_g, '
        'double_fermi_surface_average, fan_migdal_self_energy, '
        'green_kubo_conductivity', 'elphmod/diagrams.py')],
    'property-based differential testing against explicit loops',
    'Random inputs; oracles are naive Python loops over k points and bands.')

prop('S16', 'Dispersions diagonalize the model along any path',
    'For any matrix function and list of k points, the calculated '
    'eigenvalues and eigenvectors diagonalize the matrix at every point '
    'exactly, with the requested shape, gauge and rotation, and are sorted or '
    'connected by a permutation of the bands only. The reported band order is '
    'that permutation and follows smooth bands through crossings, and '
    'unfolding weights are between zero and one and add up to the number of '
    'states.',
    IC, 'all Hermitian matrix functions x all k lists x options',
    'Tests compare eigenvalues for one model.',
    ['elphmod/dispersion.py', 'elphmod/ph.py'],
    [('dispersion, sample, band_order, map_dispersions, unfolding_weights',
        'elphmod/dispersion.py'), ('polarization', 'elphmod/ph.py')],
    'property-based testing of the eigenvalue equation and of analytic bands',
    'Random models and smooth band structures with known connectivity.')

prop('S17', 'Forces and force constants are derivatives of the free energy',
    'For any supercell, displacement, filling, temperature, smearing, and '
    'k mesh, forces and Hessian of charge-density-wave dynamics are the first '
    'and second derivative of the free energy at fixed number of electrons. '
    'Dense, sparse and k-mesh calculations of '
    'equivalent systems agree, the electron density adds up to the number of '
    'electrons, repeated evaluations do not depend on the history of '
    'displacements, and renormalized electron and phonon models agree with '
    'the distorted Hamiltonian and Hessian.',
    IH, 'all models, supercells, displacements, histories, smearings',
    'Tests compare energies of one distorted structure.',
    ['elphmod/md.py'],
    [('free_energy, jacobian, hessian, density, electrons, phonons, '
        'find_Fermi_level, superconductivity', 'elphmod/md.py')],
    'stateful property-based testing with numerical derivatives',
    'Random short-range models; Richardson-extrapolated differences and an '
    'independent dense free energy.')

prop('S18', 'Structures and simulations survive saving and loading',
    'Writing the positions of a simulation as trajectory or input file and '
    'reading them back restores the displacements, a saved and loaded '
    'simulation continues with identical energies, forces and settings, and '
    'the force-client protocol returns energy, forces and virial in the '
    'documented units for any positions sent. Files contain the right cell, '
    'species and order of atoms, and appended frames leave earlier ones '
    'intact.',
    IH, 'all displacements, cells and histories of saving and loading',
    'Tests do not touch these files.',
    ['elphmod/md.py', 'elphmod/ph.py'],
    [('to_xyz, from_xyz, to_pwi, save, load, __call__', 'elphmod/md.py'),
        ('to_pwi', 'elphmod/ph.py')],
    'property-based round-trip testing',
    'Random simulations and displacements; independent parsers.')

prop('S19', 'Model files round-trip',
    'Any electron, interaction, phonon or coupling model written in one of '
    'the supported file formats (Wannier90 Hamiltonian, force constants, '
    'quadrupoles, Coulomb tables, coupling matrices) and read again is the '
    'same model at every wave vector within the precision of the format, and '
    'files in the original format of the producing codes, including '
    'Wigner-Seitz degeneracies, shift vectors, dielectric data and XML, are '
    'read to exactly the model they define. Reading follows the documented '
    'unit, mass, sum-rule and degeneracy options.',
    IC, 'all models x all formats x all reading options',
    'Tests read a few fixed example files.',
    ['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elel.py', 'elphmod/elph.py',
        'elphmod/bravais.py'],
    [('read_hrdat, write_hrdat, read_wsvecdat', 'elphmod/el.py'),
        ('read_flfrc, write_flfrc, read_flfrc_xml, read_quadrupole_fmt, '
        'write_quadrupole_fmt, to_flfrc, read_q, write_q', 'elphmod/ph.py'),
        ('to_Wmat, Model.__init__', 'elphmod/elel.py'), ('to_epmatwp, '
        'Model.__init__', 'elphmod/elph.py'), ('read_wigner_file',
        'elphmod/bravais.py')],
    'property-based round-trip testing with independent reference writers',
    'Random models; reference writers for formats of the producing codes.')

prop('S20', 'Input files are parsed and written without loss',
    'Input files for the supported codes (plane-wave, phonon, Fourier '
    'transform, interpolation, Wannier and coupling programs) are parsed to '
    'the values they contain regardless of layout (comments, quotes, commas, '
    'case, whitespace, Fortran exponents, blank lines, card order), and '
    'structures written and read again are unchanged, without modifying the '
    'given structure.',
    I, 'all structures x all admissible layouts',
    'Tests read a few fixed files.',
    ['elphmod/bravais.py', 'elphmod/misc.py'],
    [('read_pwi, write_pwi, read_win, write_win, read_ph, write_ph, read_q2r, '
        'write_q2r, read_matdyn, write_matdyn, read_epw, write_epw, '
        'readPOSCAR', 'elphmod/bravais.py'), ('read_namelists, '
        'read_input_data, split', 'elphmod/misc.py')],
    'grammar-based generation and round-trip testing',
    'Random structures printed in random layouts; oracle is the structure.')

prop('S21', 'Data files round-trip',
    'Volumetric, band-structure, coupling, Coulomb, projection and q-point '
    'data written in a supported format and read again are the same data in '
    'the same order within the precision of the format, and outputs of the '
    'supported codes are parsed to the values they contain for any numbers of '
    'bands, k points, atoms and grid points.',
    I, 'all data shapes and values', 'Tests do not generate files.',
    ['elphmod/misc.py', 'elphmod/el.py', 'elphmod/elel.py',
        'elphmod/elph.py', 'elphmod/MPI.py'],
    [('read_cube, read_xsf, write_xsf, real_space_grid, read_dat_mat',
        'elphmod/misc.py'), ('read_bands, write_bands, read_bands_plot, '
        'read_pwo, read_projwfc_out, proj_sum', 'elphmod/el.py'),
        ('read_band_Coulomb_interaction, write_band_Coulomb_interaction',
        'elphmod/elel.py'), ('read_data, write_data, read_xml_files, '
        'write_xml_files, coupling, read_EPW_output', 'elphmod/elph.py'),
        ('Buffer, load', 'elphmod/MPI.py')],
    'property-based round-trip testing with independent reference writers',
    'Random data; reference writers for formats the library only reads.')

prop('S22', 'Results do not depend on the number of processes',
    'For any number of processes, load distribution and shared-memory '
    'setting, every parallelized operation returns on every process (or on '
    'the documented ones) the result of the serial calculation and '
    'terminates. Work is distributed completely and without overlap for any '
    'number of tasks and processes, including more processes than tasks.',
    ['inputs', 'configurations', 'schedules'],
    'all process counts x shared-memory options x inputs',
    'The suite runs with fixed process numbers on fixed inputs.',
    ['elphmod/MPI.py', 'elphmod/dispersion.py', 'elphmod/el.py',
        'elphmod/ph.py', 'elphmod/elph.py', 'elphmod/md.py',
        'elphmod/diagrams.py', 'elphmod/misc.py'],
    [('distribute, matrix, shm_split, shared_array, SharedArray, load',
        'elphmod/MPI.py')],
    'differential property-based testing of MPI runs (1-4 ranks) vs. serial',
    'Random inputs executed by persistent MPI workers.')

prop('S23', 'Superconductivity estimates obey McMillan and Allen-Dynes',
    'Critical temperatures equal the McMillan or Allen-Dynes formula in the '
    'given units for any parameters, vanish when the coupling cannot overcome '
    'the Coulomb repulsion, and the effective couplings, frequencies and '
    'temperatures from energies and couplings on any mesh equal the explicit '
    'double Fermi-surface sums (smeared or by triangles), invariant under '
    'mesh shifts and mode order.',
    I, 'all energies, couplings, frequencies, meshes and parameters',
    'Tests cover none or one sample of it.',
    ['elphmod/eliashberg.py', 'elphmod/diagrams.py'],
    [('Tc, McMillan', 'elphmod/eliashberg.py')],
    'property-based differential testing against explicit formulas',
    'Random parameters and meshes.')

prop('S24', 'Analytic example models agree with their stored counterparts',
    'The chain, graphene and TaS2 models return the same Hamiltonians, '
    'dynamical matrices and couplings analytically and via the lattice models '
    'or files they create, for any wave vectors and unit and mass '
    'conventions, with the symmetry of their lattices, vanishing acoustic '
    'modes, and consistent units and masses.',
    IC, 'all wave vectors and options',
    'Tests evaluate few high-symmetry points.',
    ['elphmod/models/chain.py', 'elphmod/models/graphene.py',
        'elphmod/models/tas2.py'],
    [('models', 'elphmod/models')],
    'property-based testing against independent definitions of the models',
    'Random parameters and wave vectors.')

prop('S25', 'Maps of the Brillouin zone show the data that were put in',
    'Images made from periodic data contain at each pixel the interpolated '
    'value at the wave vector this pixel represents, for any mesh, window, '
    'resolution and rotation; outlines enclose the zones shown; arranged, rectified and '
    'colored images keep every pixel at its documented place, and composition '
    'plots have the line width and order of the given weights.',
    I, 'all meshes, windows, resolutions, arrangements',
    'Tests do not check plotted content.',
    ['elphmod/plot.py'],
    [('plot, double_plot, arrange, toBZ, rectify, color, adjust_pixels, '
        'compline', 'elphmod/plot.py')],
    'property-based testing against pixel-wise evaluation',
    'Random data and windows.')


prop('S26', 'Auxiliary quantities and tools are exact',
    'Extrema of parabolas, trapezoidal integration weights, neighborhoods of '
    'points, Coulomb interactions in the band basis, Hartree energies, decay '
    'of the coupling, and centers of displacements are the ones defined in '
    'the documentation for all inputs, figures of simulations and progress bars '
    'show the present state, and the model interpolated from given '
    'dynamical matrices via Quantum ESPRESSO reproduces these matrices, with '
    'all documented files written or cleaned up and the input left alone.',
    I, 'all sizes, meshes, options',
    'Tests do not execute any of these functions.',
    ['elphmod/misc.py', 'elphmod/elel.py', 'elphmod/ph.py'],
    [('minimum, differential, group, vector_index', 'elphmod/misc.py'),
        ('orbital2band, hartree_energy', 'elphmod/elel.py'),
        ('interpolate_dynamical_matrices', 'elphmod/ph.py'),
        ('Model.decay_epmate, Model.decay_epmatp', 'elphmod/elph.py'),
        ('Driver.center_mass', 'elphmod/md.py')],
    'property-based testing against direct evaluation',
    'Executables of Quantum ESPRESSO are replaced by stand-ins.')


prop('S27', 'Representation of arguments is irrelevant',
    'Lattice, smearing, diagram, density-of-states, superconductivity, '
    'dispersion, model-building, and image functions return results that only '
    'depend on the values of their arguments, not on memory layout, '
    'contiguity, writability, integer type or (where documented) container of '
    'the arrays passed. They do not modify their arguments, except where '
    'working in place is their documented purpose, nor do results share memory '
    'with arguments or results of earlier calls.',
    I, 'all functions in vp/calls.py (about 70)',
    'Tests pass freshly made contiguous arrays only and never look at them '
    'again.',
    ['elphmod/bravais.py', 'elphmod/diagrams.py', 'elphmod/dispersion.py',
        'elphmod/dos.py', 'elphmod/el.py', 'elphmod/ph.py', 'elphmod/elph.py',
        'elphmod/elel.py', 'elphmod/plot.py', 'elphmod/misc.py'],
    [('all public functions of arrays', 'elphmod/*.py')],
    'metamorphic property-based testing (layout and type of arguments)',
    '')

prop('S28', 'Results scale with the units of the arguments',
    'When all energies, lengths, and couplings passed to a function (including '
    'its tolerances, broadenings, and temperatures) are expressed in other '
    'units, the results are the same physical quantities in these units: '
    'lattices, meshes, Fermi levels, diagrams, densities of states, critical '
    'temperatures, dispersions, lattice models, long-range electrostatics, '
    'forces, and images do not depend on the magnitude of the numbers.',
    I, 'all functions in vp/calls.py (about 70), scale factors from 2^-30 to '
    '2^24 (lengths 2^-4 to 2^6)',
    'Tests use one typical set of parameters, for which absolute thresholds '
    'are invisible.',
    ['elphmod/bravais.py', 'elphmod/diagrams.py', 'elphmod/dispersion.py',
        'elphmod/dos.py', 'elphmod/el.py', 'elphmod/ph.py', 'elphmod/elph.py',
        'elphmod/elel.py', 'elphmod/plot.py', 'elphmod/misc.py',
        'elphmod/eliashberg.py', 'elphmod/occupations.py', 'elphmod/md.py'],
    [('all public functions of quantities with units', 'elphmod/*.py')],
    'metamorphic property-based testing (exact scaling by powers of two)',
    '')


def main():
    claimed = []

    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as lines:
        for p, technique, note in P:
            lines.write(json.dumps(p) + '\n')

    checks = []
    missing = []

    for p, technique, note in P:
        id = p['id']

        if os.path.exists(os.path.join(HERE, 'vp', 'checks', id.lower()
                + '.py')):
            checks.append(dict(property=id, quick_cmd='./check %s' % id,
                thorough_cmd='./check %s --tier thorough' % id,
                evidence_file='evidence/%s.json' % id, technique=technique,
                level='exploration', level_note=note))
        else:
            missing.append(dict(property=id, reason='No check built yet.'))

    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as data:
        json.dump(dict(version=1, setup_cmd='./setup', checks=checks,
            not_applicable=missing), data, indent=1)
        data.write('\n')


if __name__ == '__main__':
    main()
