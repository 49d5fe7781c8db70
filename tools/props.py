"""The properties of abelcarreras/DynaPhoPy and how each is checked."""

NOTES = ('All checks: ./check.py <ID> [quick|thorough]; ./check.py --replay FILE runs one stored failing case again. '
         'C extensions are rebuilt from /repo/c into a scratch directory on every run.')

NOT_APPLICABLE = []

PROPS = []


def prop(**k):
    PROPS.append(k)


prop(id='P01', title='Displacements are minimum-image lattice equivalents of the motion',
     statement='For any periodic simulation cell (oblique, rotated or strongly sheared), the displacement reported for '
               'an atom at any step is its recorded position minus its equilibrium position, less an integer '
               'combination of the simulation cell vectors, with every component in cell units between -1/2 and 1/2. '
               'Wrapping atoms into the cell or adding whole cell vectors to any recorded position changes no '
               'displacement, and a motion smaller than half the cell is reported exactly as it is. '
               'The recorded trajectory is not modified.',
     over=['inputs'], quant='every cell shape, equilibrium position, trajectory and per-sample lattice shift',
     why='Tests use one cubic silicon cell with harmonic data whose atoms never cross the boundary.',
     mech=[('minimum-image folding in C', 'c/displacements.c: atomic_displacements'),
           ('relative trajectory of all atoms', 'dynaphopy/dynamics.py: Dynamics.get_relative_trajectory')],
     observe=['Dynamics.get_relative_trajectory()', 'dynaphopy.displacements.atomic_displacements()'],
     technique='property-based testing: generated cells and trajectories, lattice-equivalence and metamorphic oracle',
     note='Generated search with an explicit lattice oracle; half-cell boundary ties accepted on either side.')

prop(id='P02', title='Supercell expansion and primitive reduction describe one crystal',
     statement='Expanding a unit cell to an n1 x n2 x n3 supercell lists every atom of every cell image exactly once, '
               'in one fixed order (atom by atom, first lattice direction fastest) shared by positions, fractional '
               'coordinates, masses, elements, atomic numbers, charges and atom types; the supercell vectors, lengths '
               'and angles are those of the n1, n2, n3 multiples of the cell vectors. '
               'Two atoms get the same atom type exactly when they are the same species related by a primitive '
               'lattice vector, and elements and masses agree with the periodic table. '
               'No answer depends on which question was asked first.',
     over=['inputs', 'histories'], quant='every crystal, primitive matrix, supercell and order of queries',
     why='Tests only use orthogonal (or hexagonal, unexpanded) cells with contiguous species and one query order.',
     mech=[('expansion and types', 'dynaphopy/atoms.py: Structure.get_positions, get_cell, get_atom_type_index, '
                                   'get_masses, get_scaled_positions, get_cell_parameters')],
     technique='property-based testing: generated crystals vs an independent expansion; shuffled query histories',
     note='Generated search against an independent reference expansion.')

prop(id='P03', title='Exported crystal files describe the same crystal',
     statement='A structure exported as VASP POSCAR (Cartesian or direct) or LAMMPS data file for any supercell, parsed '
               'by an independent reader, has the same cell (LAMMPS: up to a rigid rotation), and every atom with its '
               'own element, mass and charge at its own place, once. '
               'The XSF export holds the primitive and conventional cells and exactly one atom of each primitive site. '
               'A written POSCAR read back gives the same structure.',
     over=['inputs'], quant='every crystal, species order, supercell and export option',
     why='No existing test exports a structure; oblique cells and interleaved species are never written.',
     mech=[('POSCAR / LAMMPS writers', 'dynaphopy/generate_cell.py: generate_VASP_structure, '
                                       'generate_LAMMPS_structure'),
           ('XSF writer', 'dynaphopy/interface/iofile/__init__.py: write_xsf_file')],
     technique='property-based testing: round trip through independent parsers',
     note='Generated search; agreement up to the printed precision; right-handed cells.')

prop(id='P04', title='Structures are read exactly as written in POSCAR and OUTCAR',
     statement='Reading any POSCAR (with or without a symbols line, direct or Cartesian, any positive scale factor, '
               'trailing blocks) or the structure part of an OUTCAR (any number of species) yields the cell, '
               'positions, fractional positions, elements, masses and atom order that the file states.',
     over=['inputs'], quant='every well-formed structure file',
     why='Tests read three fixed POSCAR files, all with scale factor 1 and direct coordinates.',
     mech=[('POSCAR reader', 'dynaphopy/interface/iofile/__init__.py: read_from_file_structure_poscar'),
           ('OUTCAR structure reader', 'dynaphopy/interface/iofile/__init__.py: read_from_file_structure_outcar')],
     technique='property-based testing: generated files from an independent writer',
     note='Generated search over well-formed files; selective dynamics and negative scale factors are not covered.')

prop(id='P05', title='Trajectory readers return exactly the requested steps of the run',
     statement='Reading an XDATCAR, LAMMPS dump (positions or velocities) or VASP OUTCAR, whichever the automatic '
               'detection picks, gives for the requested window (first step, last step, last N steps) exactly those '
               'steps: coordinates rotated to the orientation of the unit cell and reordered by the given template, as '
               'many times as steps spaced by the time step, the simulation cell, and the energies of an OUTCAR; '
               'memory mapping changes nothing. '
               'The same run read from any of the formats is the same trajectory. '
               'A file cut short is rejected or gives only its complete steps.',
     over=['inputs', 'configurations', 'crash_points'],
     quant='every trajectory, cell, window, template, memory-mapping setting and truncation point',
     why='Tests read three fixed files of one cubic crystal from the first step to the end, and never a cut file.',
     mech=[('readers', 'dynaphopy/interface/iofile/trajectory_parsers.py: read_vasp_trajectory, '
                       'read_lammps_trajectory, read_VASP_XDATCAR'),
           ('format detection', 'dynaphopy/interface/iofile/__init__.py: get_trajectory_parser')],
     technique='property-based testing: generated trajectory files, windows and truncations vs the written data',
     note='Generated search with independent writers; agreement to the printed precision.')

prop(id='P06', title='Saved HDF5 data is the data; windows and joins keep the steps',
     statement='Data saved to HDF5 (velocities with or without the trajectory, or the projection onto a wave vector) '
               'and loaded again is identical: values, times, supercell and wave vector; loading a window [from, to] '
               'gives exactly those steps with their times. '
               'Joining files with concath5 gives the steps of the files in order, each file without its first N '
               'steps, with one evenly spaced time per step.',
     over=['inputs', 'histories'], quant='every data set, window, file split and number of dropped steps',
     why='No existing test writes or reads an HDF5 file.',
     mech=[('HDF5 files', 'dynaphopy/interface/iofile/__init__.py: save_data_hdf5, initialize_from_hdf5_file'),
           ('joining', 'scripts/concath5')],
     technique='property-based testing: generated round trips, windows and file splits',
     note='Generated search, exact comparison of the stored arrays.')

prop(id='P07', title='Automatic atom order recovers the crystal order from any listing',
     statement='Whatever the order in which the trajectory file lists the atoms, and whichever periodic image it gives '
               'for each of them, the automatic order assigns every atom to its own crystal site, so that the reordered '
               'run is the run listed in the canonical order.',
     over=['inputs'], quant='every crystal, supercell, permutation and choice of periodic images',
     why='No existing test uses the automatic order.',
     mech=[('site matching', 'dynaphopy/interface/iofile/__init__.py: check_atoms_order, get_correct_arrangement')],
     technique='property-based testing: permuted and wrapped trajectories vs the canonical one (metamorphic)',
     note='Generated search; displacements small against the distance between sites.')

prop(id='P08', title='Wave-vector projection is the mass-weighted lattice Fourier sum',
     statement='For any wave vector (commensurate or not, of either sign, in any zone) the projection of each primitive '
               'atom is the sum over its copies of sqrt(mass) x velocity x exp(-i q.R), divided by the square root of the '
               'number of primitive cells, R being the equilibrium position; restricting it to one atom type zeroes '
               'the others and nothing else. '
               'Over all wave vectors commensurate with the supercell the squared projections add up to the sum of '
               'mass x velocity squared at every step.',
     over=['inputs'], quant='every crystal, supercell, velocity field, wave vector and atom restriction',
     why='Tests use one cubic silicon cell; the restriction to an atom and oblique cells are never projected.',
     mech=[('projection', 'dynaphopy/projection.py: project_onto_wave_vector'),
           ('mass weighting', 'dynaphopy/dynamics.py: Dynamics.get_velocity_mass_average'),
           ('wave vector', 'dynaphopy/__init__.py: Quasiparticle.get_q_vector, get_vc')],
     technique='property-based testing: reference sum and Parseval identity on generated crystals',
     note='Generated search against an independent reference sum.')

prop(id='P09', title='Phonon modes are those of the force constants; projection is unitary',
     statement='At commensurate wave vectors the harmonic frequencies and eigenvectors solve the dynamical matrix of '
               'the given force constants, and the eigenvectors are orthonormal. '
               'Projecting onto the modes keeps the norm at every step and can be inverted, and motion of a single '
               'mode projects on that mode alone with its own amplitude.',
     over=['inputs'], quant='every crystal, force-constant set, commensurate wave vector and motion',
     why='Tests use fixed force constants whose eigenvectors are compared only through final results.',
     mech=[('harmonic modes', 'dynaphopy/interface/phonopy_link.py: obtain_eigenvectors_and_frequencies'),
           ('mode projection', 'dynaphopy/projection.py: project_onto_phonon')],
     technique='property-based testing: independent dynamical matrix, norm and inversion invariants',
     note='Generated search; phonopy computes the modes, the check compares them with an independent assembly.')

prop(id='P10', title='FFT power spectra follow their definition in every back end',
     statement='The FFT spectrum of each column is the average over equal, evenly spaced (overlapping if needed) '
               'segments of round(1/(time step x resolution)) steps covering the run from its first to its last step '
               '(or of the whole run if shorter) of the modulus of the Fourier transform of the autocorrelation '
               '(divided by the segment length), times the time step, interpolated at the requested frequencies, '
               'in eV*ps. '
               'All back ends (Numpy, FFTW, CUDA, CuPy) give the same spectrum, which scales with the square of the '
               'data and does not depend on the other columns.',
     over=['inputs', 'configurations'], quant='every series, length, resolution, frequency window and back end',
     why='Tests run one long series with one resolution through Numpy only.',
     mech=[('segments', 'dynaphopy/power_spectrum/__init__.py: _division_of_data'),
           ('back ends', 'dynaphopy/power_spectrum/__init__.py: _numpy_power, _fftw_power, _cuda_power, _cupy_power')],
     technique='property-based testing: generated series vs the definition; differential between back ends',
     note='Generated search; GPU packages are replaced by stand-ins computing the same operations with numpy.')

prop(id='P11', title='Maximum entropy spectra are the Burg spectra of the data',
     statement='The maximum entropy spectrum is the sum of the Burg all-pole spectra (with the requested number of '
               'coefficients, from every data point) of the real and the imaginary part of the series, times the time '
               'step, in eV*ps; a part that vanishes, or leaves a sum of squared prediction errors below 1e-6, contributes nothing. '
               'It is the same on every call, whatever was analysed before, repeated calls do not make the process '
               'grow, and runs of not more steps than the number of coefficients plus one are refused.',
     over=['inputs', 'histories'], quant='every series, number of coefficients, time step and frequency list',
     why='Tests compare one long silicon run loosely, where single points do not matter.',
     mech=[('Burg recursion', 'c/mem.c: GetCoefficients, FrequencyEvaluation'),
           ('interface', 'dynaphopy/power_spectrum/__init__.py: get_mem_power_spectra')],
     technique='property-based testing: generated series vs an independent Burg recursion',
     note='Generated search against an independent implementation.')

prop(id='P12', title='Direct Fourier spectra are the transform of the autocorrelation',
     statement='For either integration method, any correlation step S not above the N steps and any frequency f, the '
               'direct spectrum is the sum over lags i = 0, S, 2S, ... of the real part of the sum over j < N-i-S of '
               'conj(v_j) v_(j+i) exp(2 pi i f i dt) (rectangles, counted twice), or of that plus the same term at lag '
               'i+S (trapezoids), times dt/(N//S), in eV*ps. '
               'Unknown integration methods are refused.',
     over=['inputs', 'configurations'], quant='every series, correlation step, integration method and frequency list',
     why='No stable test runs the direct Fourier transform.',
     mech=[('correlation', 'c/correlation.c: EvaluateCorrelation'),
           ('interface', 'dynaphopy/power_spectrum/__init__.py: get_fourier_direct_power_spectra')],
     technique='property-based testing: generated series vs the double sum written out',
     note='Generated search against an independent implementation.')

prop(id='P13', title='Spectra of the parts add up to the spectrum of the whole',
     statement='With every algorithm, the full power spectrum is the sum of the spectra saved or shown per atom type and '
               'coordinate, the sum of those restricted to each atom type, and each of these the sum over its '
               'coordinates; the wave-vector spectrum is the sum of those restricted to each atom type. '
               'With the direct Fourier transform the wave-vector spectrum is also the sum over its phonon modes, and the full '
               'spectrum the sum over all wave vectors commensurate with the simulation cell.',
     over=['inputs', 'configurations'], quant='every crystal, supercell, velocity field, algorithm and order of the requests',
     why='Tests compute single spectra of one crystal and never compare parts with the whole.',
     mech=[('full, partial and projected spectra', 'dynaphopy/__init__.py: Quasiparticle.get_power_spectrum_full, '
            'power_spectrum_partials, get_power_spectrum_wave_vector, get_power_spectrum_phonon'),
           ('projections', 'dynaphopy/projection.py: project_onto_wave_vector, project_onto_phonon')],
     technique='property-based testing: metamorphic sums on generated crystals and velocities',
     note='Generated search; GPU back ends through stand-ins.')

prop(id='P14', title='Results always belong to the current settings',
     statement='After any sequence of changes of settings (wave vector, algorithm and its parameters, restriction to an '
               'atom type, resolution, frequency limits, fitting function, band ranges, quasi-harmonic force constants, temperature, '
               'last steps) and of requests, every result is the one that a new calculation with the same data and settings '
               'gives when asked only for it. '
               'Requests leave the settings as they were, except for the announced change of frequency range.',
     over=['histories'], quant='every sequence of settings and requests',
     why='Tests build a new object for each quantity, or ask it once.',
     mech=[('caches and their invalidation', 'dynaphopy/__init__.py: Quasiparticle.full_clear, power_spectra_clear, '
            'set_* methods'), ('caches of the run', 'dynaphopy/dynamics.py: Dynamics')],
     technique='stateful property-based testing: operation histories vs a fresh object with the same settings',
     note='Generated histories of up to 12 operations.')

prop(id='P15', title='Analysing the last N steps equals analysing a run of those steps',
     statement='Restricting an analysis to the last N steps, at any moment (before or after results were read, once or '
               'repeatedly, from the calculation or from the run itself), gives for every quantity the result of '
               'a run made of only those steps; N = 0 or N not below the number of steps changes nothing. '
               'It does not matter whether velocities are given or derived (at the first kept step these may still use the '
               'step before it), nor whether data is memory mapped.',
     over=['inputs', 'histories'], quant='every run, number of steps kept, and set of results read before',
     why='No existing test crops a run.',
     mech=[('cropping', 'dynaphopy/dynamics.py: Dynamics.crop_trajectory'),
           ('cropping of a calculation', 'dynaphopy/__init__.py: Quasiparticle.crop_trajectory')],
     technique='property-based testing: differential between a cropped run and the run of those steps',
     note='Generated search; derived velocities are compared from the second kept step on.')

prop(id='P16', title='Peak fits recover the curve and report each mode as measured',
     statement='For a spectrum that is exactly a (symmetric or asymmetric) Lorentzian or damped-oscillator peak on a base '
               'line, resolved by the frequency grid, the corresponding fit gives back the curve, with its position, full '
               'width at half height, area and maximum. '
               'Mode analysis averages degenerate modes (of a calculation: when symmetry is used), adds the quasi-harmonic shift once to positions, gives 2 x area as '
               'the mean squared velocity, prints the same numbers, and reports a mode that cannot be fitted as such, with '
               'zeros, without affecting the others.',
     over=['inputs'], quant='every peak position, width, area, base line, asymmetry, grid and set of degenerate modes',
     why='Tests compare fits of one silicon run loosely with stored values.',
     mech=[('fits', 'dynaphopy/analysis/fitting/fitting_functions.py'),
           ('mode analysis', 'dynaphopy/analysis/fitting/__init__.py: phonon_fitting_analysis, degenerate_sets, '
                             'average_phonon')],
     technique='property-based testing: generated exact curves, recovered parameters vs numeric measurement',
     note='Generated search; peaks resolved by the grid and inside the window.')

prop(id='P17', title='Renormalized force constants carry exactly the given frequencies',
     statement='Force constants built from frequencies and eigenvectors at the commensurate wave vectors have, at each of '
               'these wave vectors, the dynamical matrix with those eigenvectors and (signed) squared frequencies; with the '
               'harmonic frequencies they are the harmonic force constants, for any supercell. '
               'The symmetrized ones are the average over the crystal symmetry, and the written file holds the '
               'same numbers.',
     over=['inputs'], quant='every crystal, supercell, force-constant set and set of renormalized frequencies',
     why='Tests compare one silicon crystal in one supercell.',
     mech=[('frequencies to force constants', 'dynaphopy/interface/phonopy_link.py: get_renormalized_force_constants'),
           ('file', 'dynaphopy/interface/phonopy_link.py: save_force_constants_to_file')],
     technique='property-based testing: round trip and independent dynamical matrix',
     note='Generated search against an independent Fourier sum.')

prop(id='P18', title='Known frequencies and linewidths are recovered from the motion',
     statement='For a run in which every phonon mode of the crystal oscillates with a known frequency, different from the '
               'harmonic one, and decays at a known rate g, the quasiparticle frequencies, their shifts from the harmonic ones and '
               'the linewidths (g/pi) at every commensurate wave vector are those of the run, and the renormalized force constants '
               'reproduce the frequencies; this holds also where harmonic frequencies are imaginary, and at Gamma only the three acoustic '
               'modes have zero frequency. '
               'A quasi-harmonic correction adds to each frequency the shift between the two sets of force constants at that '
               'wave vector; the frequency range is chosen to reach a fifth beyond the highest harmonic frequency.',
     over=['inputs', 'configurations'], quant='every crystal, supercell, set of mode frequencies and decay rates, symmetry and back end',
     why='Tests use one stored silicon run with a few modes.',
     mech=[('commensurate points', 'dynaphopy/__init__.py: Quasiparticle.get_commensurate_points_data, get_qha_shift'),
           ('projection, spectra and fits', 'dynaphopy/__init__.py: phonon_individual_analysis')],
     technique='property-based testing: simulated runs with known answer',
     note='Generated search; frequencies within a tenth of the linewidth, linewidths within 12 per cent.')

prop(id='P19', title='Only truly equivalent wave vectors are averaged',
     statement='Each wave vector treated as equivalent to q is related to q by a rotation of the crystal or time reversal, up to a '
               'reciprocal lattice vector of the primitive cell; q itself is always among them. '
               'With symmetry on, wave-vector and phonon spectra are the average over the equivalent vectors that fit the '
               'simulation cell (all of them if q itself does not fit it), each counted once whatever the rounding, leaving wave vector and projections as they were. '
               'Equivalent commensurate points share one result and others do not.',
     over=['inputs'], quant='every crystal symmetry, wave vector and supercell',
     why='Tests use one silicon crystal whose results barely change with the average.',
     mech=[('equivalent wave vectors', 'dynaphopy/interface/phonopy_link.py: get_equivalent_q_points_by_symmetry'),
           ('averages', 'dynaphopy/__init__.py: get_power_spectrum_wave_vector, get_power_spectrum_phonon')],
     technique='property-based testing: symmetry oracle (spglib) and metamorphic averages',
     note='Generated search; spglib used as the independent source of the crystal symmetry.')

prop(id='P20', title='Thermal properties follow from the density of states',
     statement='Free energy, entropy, heat capacity and total energy are the harmonic-oscillator integrals over the given density of '
               'states at any temperature (so F = U - TS, C = dU/dT, S = -dF/dT), per unit cell, from harmonic or renormalized force '
               'constants or from the power spectrum, projected on an atom or not; normalization divides them by the integral of the '
               'density of states. '
               'With renormalized force constants F and U are corrected by half the energy difference, U(harmonic) - U(renormalized). '
               'The printed table holds these values.',
     over=['inputs'], quant='every density of states, frequency grid, temperature, crystal and force-constant set',
     why='Tests use one crystal at one temperature.',
     mech=[('integrals', 'dynaphopy/analysis/thermal_properties.py'),
           ('properties and table', 'dynaphopy/__init__.py: get_thermal_properties, display_thermal_properties'),
           ('density of states', 'dynaphopy/interface/phonopy_link.py: obtain_phonopy_dos')],
     technique='property-based testing: single-oscillator reference, thermodynamic identities, table vs values',
     note='Generated search; energies with the physical constants of the code (CODATA 2014).')

prop(id='P21', title='Displacement statistics are those of the recorded run',
     statement='The mean square displacement matrix of each primitive atom, printed or not and in every coordinate type, is the '
               'average over its copies and all steps of the minimum-image displacement products (about the mean position where '
               'asked), in any order of the queries. '
               'Average positions lie inside the cell and equal the mean positions, folded to the unit cell or not, and the '
               'displacement distribution along a direction is the normalized histogram of each primitive atom, in the file as in memory.',
     over=['inputs', 'histories'], quant='every crystal, run, direction, number of bins and order of queries',
     why='Tests compare one harmonic silicon run at equilibrium, where offsets and order do not matter.',
     mech=[('displacement matrix, averages', 'dynaphopy/dynamics.py: get_mean_displacement_matrix, average_positions'),
           ('parameters and printing', 'dynaphopy/__init__.py: get_anisotropic_displacement_parameters, '
                                       'get_average_atomic_positions'),
           ('distribution', 'dynaphopy/analysis/coordinates.py')],
     technique='property-based testing: direct numpy statistics of generated displacements, shuffled queries',
     note='Generated search; the distances listed with the bins are a known finding.')

prop(id='P22', title='Derived velocities, mass weighting and temperature',
     statement='Without recorded velocities, the velocity is the time derivative of the minimum-image displacement (central '
               'differences with the average time step, one-sided at the ends), unaffected by wrapping of the positions, scaled '
               'coordinates or memory mapping; mass weighting multiplies it by the square root of the mass of each atom. '
               'The temperature is that of the mean kinetic energy, (m v^2)/(3 N k), unless the user sets one, which '
               'is then returned until withdrawn.',
     over=['inputs'], quant='every crystal, run, wrapping, time step and velocity distribution',
     why='Tests use one run at regular times with recorded velocities.',
     mech=[('velocities', 'dynaphopy/dynamics.py: velocity, get_velocity_mass_average, get_time_step_average'),
           ('derivatives in C', 'c/displacements.c; dynaphopy/derivative'),
           ('temperature', 'dynaphopy/analysis/energy.py; Quasiparticle.get_temperature, set_temperature')],
     technique='property-based testing: independent finite differences and kinetic temperature',
     note='Generated search; temperature within the precision of the maximum-likelihood search.')

prop(id='P23', title='Memory mapping is invisible and leaves nothing behind',
     statement='For any history of reading, querying, cropping and dropping several runs alive in one process, a memory-mapped run '
               'answers exactly as one held in memory. '
               'Temporary files lie in the folder chosen with DYNAPHOPY_TEMPDIR and none is left, nor kept open, once the runs are gone.',
     over=['histories'], quant='every sequence of operations over several runs and file formats',
     why='No test uses memory mapping.',
     mech=[('memory mapping', 'dynaphopy/dynamics.py: Dynamics.__init__, __del__, crop_trajectory, velocity'),
           ('readers', 'dynaphopy/interface/iofile/trajectory_parsers.py; iofile initialize_from_hdf5_file')],
     technique='stateful property-based testing: mapped run against an in-memory twin over random histories',
     note='Generated histories with up to three live runs.')

prop(id='P24', title='The input file sets exactly what it says',
     statement='Every section of an input file (structure file, force sets or constants, primitive and supercell matrices, bands '
               'with or without labels, mesh) gives its value, in any order and subset, with blank and comment lines between '
               'sections, remarks after a title, any number format and either line end; nothing else is set. '
               'The values reach the structure and the settings of the calculation.',
     over=['inputs'], quant='every input file built from the documented sections',
     why='Tests read one input file of one layout.',
     mech=[('parser', 'dynaphopy/interface/iofile/__init__.py: read_parameters_from_input_file'),
           ('settings', 'dynaphopy/parameters.py: get_data_from_dict; dynaphopy/atoms.py: get_data_from_dict')],
     technique='property-based testing: grammar-based generation and round trip',
     note='Generated search; file names without section titles.')

prop(id='P29', title='Bands and mesh data belong to the stated wave vectors',
     statement='Harmonic and renormalized dispersion bands (and the band limits and linewidths) hold, at each point of each given segment, '
               'the frequencies of the respective force constants at that wave vector, every branch exactly once, with '
               'shifts the difference of both, bounds and labels as given and distances measured along the path. '
               'Printed bands and the renormalized frequencies and linewidths of a mesh are likewise those of the force constants at '
               'the listed wave vectors, each linewidth beside its own frequency, with weights adding up to the size of the mesh, and the '
               'automatic path joins the special points of the crystal.',
     over=['inputs', 'configurations'], quant='every crystal, force constants, path, resolution, ordering option and mesh',
     why='Tests compare one silicon path with one stored result.',
     mech=[('bands', 'dynaphopy/__init__.py: get_renormalized_phonon_dispersion_bands, print_phonon_dispersion_bands'),
           ('phonopy', 'dynaphopy/interface/phonopy_link.py: obtain_phonon_dispersion_bands, '
                       'obtain_phonopy_mesh_from_force_constants'),
           ('mesh', 'dynaphopy/__init__.py: get_mesh_frequencies_and_linewidths')],
     technique='property-based testing: differential against phonopy run directly at each wave vector',
     note='Generated search; order of mesh linewidths checked at commensurate points with well separated frequencies.')

prop(id='P25', title='Output files hold exactly what was calculated',
     statement='Every spectrum, projection and partial spectrum written to a text file, read back, holds the frequency grid and the values '
               'in memory to the written digits, one row per frequency or step and one column per mode, and the printed '
               'area is the integral of the curve. '
               'The quasiparticle, mesh and band files are plain YAML lists with the wave vectors, frequencies, linewidths, shifts and '
               'multiplicities in memory, and group velocities, only when asked for, stand with the mode they belong to.',
     over=['inputs', 'configurations'], quant='every crystal, run, algorithm, range and set of files in any order',
     why='Tests read back one kind of file for one crystal.',
     mech=[('text files', 'dynaphopy/interface/iofile/__init__.py: write_curve_to_file'),
           ('YAML files', 'dynaphopy/interface/iofile/__init__.py: save_quasiparticle_data_to_file, save_mesh_data_to_yaml_file, '
                          'save_bands_data_to_file'),
           ('projections', 'dynaphopy/__init__.py: save_vc, save_vq, get_power_spectrum_partials'),
           ('group velocities', 'dynaphopy/__init__.py: get_commensurate_points_properties')],
     technique='property-based testing: round trip through plain parsers, differential against phonopy',
     note='Generated search; eight decimals in YAML files, ten digits in spectra.')

prop(id='P26', title='The command line does what its options say',
     statement='Run with an input file, a stored run and any combination of settings (wave vector, range, number of steps, window, '
               'algorithm, coefficients, resolution, projection, symmetry, fit, temperature, thermal expansion, force-constant '
               'symmetry) and outputs, the dynaphopy script writes and prints for each output what a fresh library calculation with '
               'those settings gives. '
               'Structure files exported for VASP and LAMMPS are the supercell asked for.',
     over=['configurations'], quant='every combination of the supported options and stored runs',
     why='Tests call the library and never run the script.',
     mech=[('script', 'scripts/dynaphopy'), ('calculation', 'dynaphopy/__init__.py: Quasiparticle'),
           ('export', 'dynaphopy/generate_cell.py')],
     technique='property-based testing: differential of the script against one library calculation per output',
     note='Random subsets of options; interactive mode and plots excluded.')

prop(id='P27', title='The companion scripts keep frequencies, fits and force constants consistent',
     statement='rfc_calc lists each commensurate wave vector once and, from a file of frequencies in any order, writes force constants '
               'whose dynamical matrix at each of them has these frequencies on the harmonic eigenvectors, also for another supercell. '
               'fitdata fits and saves the spectra of the file, averaged over the groups of columns given and smoothed by local '
               'regression if asked. qha_extract writes the force constants interpolated to the equilibrium volume at the temperature, '
               'whatever the order of the volumes.',
     over=['inputs'], quant='every crystal, supercell, frequency file, spectra file and set of volumes',
     why='No test runs these scripts.',
     mech=[('rfc_calc', 'scripts/rfc_calc; dynaphopy/interface/phonopy_link.py: get_renormalized_force_constants, get_commensurate_points'),
           ('fitdata', 'scripts/fitdata; dynaphopy/analysis/fitting'), ('qha_extract', 'scripts/qha_extract')],
     technique='property-based testing: dynamical-matrix, fitting and equation-of-state oracles',
     note='scripts/qha_quasiparticle.py (development script with fixed file names) is left out.')

prop(id='P28', title='Generated harmonic trajectories are made of the phonons of the force constants',
     statement='A trajectory generated from force constants has the number of steps, times, supercell and energy asked for, and its '
               'displacements are a sum of the phonons at all wave vectors commensurate with the supercell: each mode above the lower '
               'limit oscillates at its own harmonic frequency only (at its absolute value if it is imaginary), every mode with the kinetic energy '
               'of the temperature, and modes below it are left out. '
               'The script writes the same run.',
     over=['inputs'], quant='every crystal, force constants, supercell, time step, duration and temperature',
     why='Tests only check that the frequencies come back for one crystal at a time.',
     mech=[('generator', 'dynaphopy/interface/iofile/__init__.py: generate_test_trajectory'),
           ('script', 'scripts/dynaphopy: --generate_trajectory')],
     technique='property-based testing: projection onto phonons calculated by phonopy directly',
     note='Kinetic energy 3/2 of the expected one is an open finding.')

prop(id='P30', title='Plots draw the data they are named after',
     statement='Plots of the run and its projections draw each requested coordinate against the time of its steps, plots of spectra '
               'draw the spectrum (and densities of states) over its frequencies and print its area, displacement histograms cover '
               'the displacements of each atom with unit area (with the mean and deviation of their best Gaussian), and mode plots draw atoms at their places with arrows along the '
               'mass-scaled eigenvector with the phase of the wave vector. '
               'Plots of bands, linewidths, shifts, densities of states and meshes draw every value that the library returns, with the '
               'labels at the ends of their segments.',
     over=['inputs'], quant='every crystal, run, wave vector, path, selection of atoms, coordinates and modes',
     why='No test draws a figure.',
     mech=[('plots', 'dynaphopy/__init__.py: plot_*'), ('modes', 'dynaphopy/analysis/modes.py: plot_phonon_modes')],
     technique='property-based testing: figures drawn off screen compared with returned values and phonopy',
     note='Fonts, colours and window handling are not judged, except that a colour means what the legend says.')

prop(id='P31', title='The scan of MEM coefficients reports the weighted width and the best fit',
     statement='For every phonon, the scan reports the average of the fitted widths over the requested numbers of maximum entropy '
               'coefficients, weighted by the inverse square root of the fitting error, and position, area, error and number of '
               'coefficients of the fit with the smallest error; its figures draw these data. '
               'Numbers of coefficients that give no spectrum or no fit are left out, as are phonons without any, and the '
               'settings of the calculation stay as they were.',
     over=['inputs'], quant='every run, wave vector, list of numbers of coefficients and fitting function',
     why='No test runs the scan.',
     mech=[('scan', 'dynaphopy/power_spectrum/__init__.py: mem_coefficient_scan_analysis'),
           ('entry', 'dynaphopy/__init__.py: phonon_width_scan_analysis')],
     technique='property-based testing: one spectrum and one fit at a time as reference',
     note='Spectra and fits themselves are decided by P14 and P16.')

prop(id='P32', title='Interactive menus and plot options do what the library does',
     statement='A session in the interactive menus shows the same windows, figures, tables and frequencies as the corresponding library '
               'calls made in the same order, so every setting changed in a menu takes effect on what is shown afterwards; the main menu shows '
               'the current wave vector, frequency range, resolution and sizes, and keys that are no choice are ignored or asked again. '
               'Plot options of the command line show the same figures as the library.',
     over=['inputs', 'histories'], quant='every sequence of menu choices, settings and plot options',
     why='No test starts the menus or plots.',
     mech=[('menus', 'dynaphopy/interface/interactive_ui.py'), ('script', 'scripts/dynaphopy')],
     technique='stateful property-based testing: scripted terminal, library session as model',
     note='The layout of the menus (which key is which choice) is taken from the texts of the menus as they are.')

prop(id='P33', title='Runs made by LAMMPS arrive unaltered, atom by atom',
     statement='Molecular dynamics run by LAMMPS from the library or the script gives velocities, trajectory, energies and times of exactly the '
               'steps asked for (after the relaxation, one per sampling interval), for every atom in the order of the crystal structure and its '
               'supercell, whatever order LAMMPS keeps the atoms in, and with the simulation cell of LAMMPS. '
               'Replication, time step, thermostat and initial velocities are commanded as requested, and the run is closed at the end.',
     over=['inputs', 'histories'], quant='every crystal, cell origin, supercell, order and numbering of atoms, time step and options',
     why='No test runs LAMMPS.',
     mech=[('link', 'dynaphopy/interface/lammps_link.py: generate_lammps_trajectory'),
           ('order', 'dynaphopy/interface/iofile/__init__.py: get_correct_arrangement'), ('script', 'scripts/dynaphopy: --run_lammps')],
     technique='property-based testing: scripted stand-in of the lammps module with a known run',
     note='LAMMPS itself is not installed; the stand-in follows its documented Python interface.')

prop(id='P34', title='Harmonic phonons follow from force sets, force constants and Born charges',
     statement='Force sets and force constants files, for any supercell matrix, give the frequencies, eigenvectors, force constants, bands and '
               'thermal properties of their model in the library and in the scripts, including the bands drawn by rfc_calc; with '
               'non-analytical corrections on, bands and thermal properties include the charges of the BORN file, and switched off they do not. '
               'Force sets of a supercell of another size, or force sets and force constants at once, are refused.',
     over=['inputs', 'histories'], quant='every crystal, spring model, supercell matrix (diagonal or not), charges and order of switching',
     why='Tests use one crystal with force sets of a diagonal supercell and no charges.',
     mech=[('forces', 'dynaphopy/interface/phonopy_link.py: get_phonon, get_force_sets_from_file'), ('supercell', 'dynaphopy/atoms.py: get_force_sets'),
           ('figure', 'scripts/rfc_calc: plot_renormalized_phonon_bands'), ('switch', 'dynaphopy/__init__.py: set_NAC')],
     technique='property-based testing: phonopy run directly on the generated model as oracle',
     note='Charges of crystals with two elements; the symmetry of the charges is that of the crystal.')

prop(id='P35', title='Inputs that do not fit are refused',
     statement='A calculation in which something does not fit stops with a message or an error, in the library and in the script, before any '
               'output file is written: missing files, trajectories of no known format, simulation cells that are no multiple of the unit cell, force '
               'constants of another supercell or none at all, force sets and constants at once, atoms, coordinates, algorithms and fitting functions that do '
               'not exist, more maximum entropy coefficients than steps, bands that are no list. A refused call leaves the results as they were.',
     over=['inputs', 'histories'], quant='every calculation with one thing wrong',
     why='No test gives wrong input.',
     mech=[('cell', 'dynaphopy/dynamics.py: get_supercell_matrix'), ('forces', 'dynaphopy/atoms.py: get_force_constants, get_force_sets'),
           ('choices', 'dynaphopy/__init__.py: select_power_spectra_algorithm, set_projection_onto_atom_type, set_band_ranges'),
           ('script', 'scripts/dynaphopy'), ('formats', 'dynaphopy/interface/iofile/trajectory_parsers.py: check_atoms_order, get_trajectory_parser')],
     technique='property-based testing: fault injection into valid calculations',
     note='Which exception or exit code is left open; the same calculation without the fault must work (sub-check nothing, P26).')

prop(id='P36', title='Results do not depend on how crystal and run are described',
     statement='Rotating, inverting or moving the whole crystal and run, listing atoms in another order or from other cells, doubling the unit cell, '
               'choosing other axes or primitive vectors, or counting time from elsewhere leaves spectra, frequencies, linewidths, bands, temperature '
               'and (rotated) displacement matrices the same; scaling velocities by x or time by t scales spectra by x^2 t. A structure given '
               'by elements, atomic numbers or masses, in Cartesian or fractional coordinates, is the same structure.',
     over=['inputs'], quant='every crystal, run and combination of changes of description',
     why='Tests use one description of each crystal.',
     mech=[('structure', 'dynaphopy/atoms.py: Structure'), ('projection', 'dynaphopy/projection.py'), ('wave vectors', 'dynaphopy/__init__.py: get_q_vector'),
           ('spectra', 'dynaphopy/power_spectrum/__init__.py')],
     technique='property-based testing: metamorphic relations between two descriptions',
     note='Rotations with the direct Fourier transform only: FFT and maximum entropy spectra are not quadratic, so they depend on the Cartesian axes. '
          'With symmetry on, only wave vectors without negative components are averaged, so inversion and other primitive vectors are left out there.')
