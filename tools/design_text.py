"""How each property is decided: (text, limits)."""
TEXT = {
    'P01': (
        'Cells of every kind with shears far beyond the usual reduced range; positions with arbitrary whole-cell '
        'shifts per atom and step, exact motions below half a cell. Oracle: (position - equilibrium - '
        'displacement) is an integer combination of cell vectors, components within 1/2, exact motion recovered; '
        'compiled routine and `get_relative_trajectory` both.',
        'Ties at exactly half a cell are accepted on either side.'),
    'P02': (
        'Crystals x supercells x shuffled order of queries; independent expansion (index arithmetic written anew), '
        'primitive-lattice equivalence for the types; decorated cells (two species on one sublattice), late change '
        'of the primitive matrix, structures built from masses only, the periodic table of phonopy.',
        None),
    'P03': (
        'Writers are read back by the independent parsers of `vlib/files.py`; LAMMPS cells are compared through '
        'their metric tensor and the positions through the rotation that maps the cells; atoms of one element may have '
        'masses of their own (isotopes).',
        'Left-handed cells are not written to LAMMPS (the format has none).'),
    'P04': (
        'Files from an independent writer with optional symbol line, direct/Cartesian, scale factor, any '
        'whitespace, masses in OUTCAR; compared with the generated values.',
        None),
    'P05': (
        'Formats x windows x steps x memory mapping x truncated files; independent writers; window arithmetic done '
        'on the generated list of frames; different formats of one run must agree.',
        None),
    'P06': (
        'Saved and loaded with random windows; several files joined by `scripts/concath5` run as from the shell '
        'with any order of options.',
        None),
    'P07': (
        'Runs whose atoms are shuffled and displaced, optionally rigidly shifted by cells; the order found must '
        'map every atom to its own site.',
        None),
    'P08': (
        'Independent double sum of mass-weighted velocities with phases for every commensurate and other wave '
        'vector, Parseval sum over all commensurate wave vectors of the cell.',
        None),
    'P09': (
        'Force constants of the generator; own dynamical matrix; projection on eigenvectors, completeness (sum '
        'over modes = wave-vector projection), single-mode runs appear in one mode only.',
        None),
    'P10': (
        'Direct definition of windowed averages of FFT power (numpy FFT, pyFFTW, and GPU back ends through stand- '
        'in modules that implement the used calls with numpy).',
        'GPU hardware is absent; the stand-ins decide the host code only.'),
    'P11': (
        'Own Burg recursion in numpy and evaluation of the maximum-entropy density; noise of 4..300 steps, also so small that the recursion stops; '
        'memory growth over many calls.',
        'Below a sum of squared prediction errors of 1e-6 (in the units of the data) the code takes a series as predicted without error '
        'and its spectrum as zero: stated in the property, and only kept away from rounding.'),
    'P12': (
        'Definition of the correlation function and its trapezoidal or rectangular Fourier integral, written as '
        'loops.',
        None),
    'P13': (
        'Full = sum over atoms and coordinates, wave-vector = sum over atoms, partials add up, all back ends, sum '
        'rule over all commensurate modes.',
        None),
    'P14': (
        'Random sequences of settings and queries; after each one the answer of the used calculation must equal '
        'that of a new calculation with the same settings. All ordered pairs of (setting, query) are drawn, and '
        'longer random histories; wave vectors are also turned into others of the same components (opposite, other axes), '
        'which a comparison of lengths or sorted components would take for unchanged.',
        None),
    'P15': (
        'A cropped run must equal a run read with the last n steps only: velocities, projections, spectra, '
        'statistics; memory mapping; loaded projections; repeated crops.',
        None),
    'P16': (
        'Exact curves sampled on random grids; recovered position, width, height and area against numeric '
        'measurement; degenerate sets against the definition (chains within the limit).',
        'Curves are resolved by the grid and inside the window.'),
    'P17': (
        'Own Fourier sum of the written force constants gives back eigenvectors and signed squared frequencies; '
        'harmonic frequencies give the harmonic constants; symmetrized = group average with spglib operations; '
        'file against memory.',
        None),
    'P18': (
        'Runs in which every mode is a damped oscillator of known frequency and rate, with frequency maps f -> '
        'f(1+x) - s f^2/2; QHA constants scaled by a known factor; also differences of two spring models, with imaginary harmonic frequencies (at Gamma too).',
        'Frequencies within a tenth of the linewidth, linewidths within 12 %: fitting of a finite run.'),
    'P19': (
        'spglib operations decide which wave vectors are equivalent; averages are recomputed from calculations '
        'without symmetry at the equivalent vectors; wave vectors close to commensurate ones are not taken for them.',
        None),
    'P20': (
        'Single-oscillator formulas integrated with the same rule, thermodynamic identities by differences, table '
        'against values, normalization, corrections; harmonic, renormalized and power-spectrum densities, '
        'projections on atoms.',
        'Energies with the physical constants of the code.'),
    'P21': (
        'Covariance, mean positions and histograms of the generated displacements, shuffled queries, printed '
        'output parsed.',
        'Distances of the bins: known finding (section 4).'),
    'P22': (
        'Finite differences of the true displacements before wrapping; kinetic temperature from the generated '
        'velocities.',
        None),
    'P23': (
        'Stateful histories (new, read, crop, forget) over up to three runs in one process against twins without '
        'memory mapping; list of files at the end.',
        None),
    'P24': (
        'Grammar of input files (sections, comments, remarks on titles, disabled sections, number formats, line ends), values '
        'compared after parsing and after being applied to the structure and the settings.',
        'File names do not contain section titles (titles are searched in every line).'),
    'P29': (
        'Runs of known phonons (as P18) give renormalized force constants; phonopy is called directly on harmonic, '
        'renormalized and limit force constants at each point of each segment; branches compared as sets, each '
        'exactly once; printed bands parsed; mesh with order of linewidths at commensurate points; automatic path: special points of seekpath, compared by lengths and distances to the reciprocal lattice.',
        None),
    'P25': (
        'Random calculations write random sets of files, read back with numpy.loadtxt and yaml.safe_load; bands given as lists, '
        'arrays, from an input file or automatic; group velocities against phonopy called directly on the renormalized force '
        'constants, also for runs whose frequencies reverse the harmonic order.',
        None),
    'P26': (
        'The script is run in-process on written files (POSCAR or OUTCAR structure, HDF5, XDATCAR or projected velocities) with '
        'random sets of settings and outputs; every file and printed table is compared with the one produced by a fresh library '
        'calculation holding the same settings, so an output that depends on the outputs asked for beside it is seen.',
        'Interactive mode, plots and live LAMMPS are left out; printed remarks of first use are not compared.'),
    'P27': (
        'The scripts are run in-process on generated files. rfc_calc: frequencies are a random function of the harmonic ones, the '
        'expected dynamical matrices are built from phonopy eigenvectors and compared with phonopy run on the written force '
        'constants. fitdata: independent averages and local regression, fits of the library. qha_extract: thermal data made from a '
        'Vinet equation of state whose equilibrium volume is a known function of temperature and force constants quadratic in volume.',
        'scripts/qha_quasiparticle.py is a development script bound to fixed files and is not checked.'),
    'P28': (
        'Displacements of generated runs (library and script) are projected onto eigenvectors calculated by phonopy directly; every '
        'coordinate is fitted by its two exponentials (no residual allowed), energies compared with equipartition and the '
        'projections must add up to the whole displacement.',
        'Runs much shorter than the period of a mode do not decide its energy.'),
    'P30': (
        'The plot methods run with the off-screen back end of matplotlib; curves, bars, filled bands, tick labels, markers and arrows '
        'are taken from the figures and matched, in any order, with the values returned by the library for the same settings, with '
        'phonopy (harmonic bands) and with the generated run (times, coordinates, histograms, displacement directions).',
        'What is in the axes is checked, not the pixels; densities of states are compared with those the library returns.'),
    'P31': (
        'Runs of damped oscillators on random crystals (with and without motion of the centre of mass, shorter than some numbers of '
        'coefficients) are scanned; printed report and figures are compared with spectra and fits made one by one.',
        'The number of coefficients one below the number of steps is left out (the two spectrum entry points disagree about it), and so are '
        'peaks whose reference fit itself changes when the last digits of the velocities do (maximum entropy spectra of few steps).'),
    'P32': (
        'The script runs in-process in interactive mode against a stand-in of the curses module that types a generated list of keys and '
        'records the screen; every plt.show is captured. A model session calls the library for each choice. Sequences that repeat an output '
        'around a setting find settings that do not take effect. Plot options are compared in the same way.',
        'The real terminal and waiting times are not exercised.'),
    'P33': (
        'A stand-in of the lammps module replicates generated crystals, numbers and wraps the atoms, moves them along a generated run and '
        'sorts them anew in memory after every run command, as LAMMPS does; library and script (through its HDF5 file) must return '
        'exactly that run, and the commands given are checked.',
        'The physics of LAMMPS is outside; interfaces of three generations of the module (global data) are imitated.'),
    'P34': (
        'Spring models on random supercells (diagonal or not) are turned into forces on the displaced supercells of phonopy and written to '
        'FORCE_SETS (or FORCE_CONSTANTS, BORN); the dynamical matrix rebuilt from the eigenvectors and frequencies of the library is compared with that '
        'of the model, as are bands, thermal properties, printed frequencies and the figure of rfc_calc; NAC is switched on and off in random order, and bands, densities of states (total and projected), and thermal properties from both phonopy and the densities are compared each time for harmonic and renormalized force constants.',
        'Group velocities are calculated without charges by design; densities of states that rounding moves (tetrahedra of degenerate modes) are skipped.'),
    'P35': (
        'Valid calculations (library, and script with generated files) get exactly one fault; the call must stop (exit or exception), no requested '
        'output may exist afterwards, and, in the library, spectra asked again (cached and recalculated) are those from before.',
        'Messages are not read. Cells whose lengths fit but whose angles do not are accepted by design and left out.'),
    'P36': (
        'Each generated crystal and run is rewritten by a random combination of changes of description, force constants are generated anew for it, and '
        'library results are compared through the known map between both (atoms, wave vectors, rotations); degenerate phonons are compared as sums.',
        'Fitted values of degenerate phonons only roughly (their eigenvectors are a matter of choice); the automatic frequency range is set by hand there.'),
}
