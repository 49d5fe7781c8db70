"""P20: thermodynamic properties."""
import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub

PROPERTY = 'P20'
RULE = ('random densities of states on random grids, temperatures from 0.05 to 5000 K: the single-oscillator formulas, '
        'F = U - T S, C = dU/dT, S = -dF/dT and the classical limit; harmonic crystals: sums over the phonons of a mesh, normalization, '
        'atom projections, renormalized against harmonic values and the printed table; non-trivial when the grid does not start at '
        'zero or the temperature is below 10 K or force constants are renormalized')

N_A, K_B, H = 6.022140857e23, 1.38064852e-23, 6.626070040e-22


def strategy():
    return st.fixed_dictionaries({
        'n': st.integers(3, 80), 'f0': st.integers(0, 300), 'res': st.integers(1, 100), 'T': st.integers(-130, 370),
        'seed': gen.seeds(), 'zero': st.booleans(), 'size': st.integers(1, 64)})


def mode(T, f):
    """U, F, S, C of one oscillator (J, J, J/K, J/K)"""
    x = H * f / (K_B * T)
    e = np.exp(-x)
    U = H * f * (0.5 + e / -np.expm1(-x))
    F = H * f / 2 + K_B * T * np.log(-np.expm1(-x))
    C = K_B * x ** 2 * e / np.expm1(-x) ** 2
    return U, F, (U - F) / T, C


def run(case, ctx):
    from scipy.integrate import simpson
    from dynaphopy.analysis import thermal_properties as thm
    r = gen.rng(case['seed'])
    f = case['f0'] / 50. + np.arange(case['n']) * case['res'] / 100.
    dos = r.uniform(0, 3, size=len(f))
    if case['f0'] == 0:
        dos[0] = 0
    T = 10 ** (case['T'] / 100.)
    ctx.nontrivial(case['f0'] > 0 or T < 10)
    ctx.event('T < 1 K' if T < 1 else 'T < 100 K' if T < 100 else 'T > 100 K')
    keep = dos.copy()
    if not (T > 0.5 or f[-1] * 48 / T < 700):
        ctx.event('far below the gap')
    # ----- the reference values
    pos = f > 0
    U, F, S, C = [np.zeros(len(f)) for _ in range(4)]
    U[pos], F[pos], S[pos], C[pos] = mode(T, f[pos])
    want = {k: simpson(dos * y, x=f) * N_A for k, y in zip('UFSC', (U, F, S, C))}

    def four(T, dos=dos):
        return {'U': thm.get_total_energy(T, f, dos) * 1000, 'F': thm.get_free_energy(T, f, dos) * 1000,
                'S': thm.get_entropy(T, f, dos), 'C': thm.get_cv(T, f, dos)}
    got = four(T)
    ctx.check(np.array_equal(keep, dos), 'the density of states was modified')
    top = max(abs(want['U']), N_A * K_B * T * dos.sum() * 1e-6, 1e-9)
    for k in 'UFSC':
        unit = top if k in 'UF' else max(top / T, N_A * K_B)
        ctx.close(got[k], want[k], k + ' at %g K' % T, rtol=1e-6, atol=1e-8 * unit)
    ctx.close(got['F'], got['U'] - T * got['S'], 'F = U - T S', rtol=1e-7, atol=1e-8 * top)
    h = 1e-4 * T
    a, b = four(T - h), four(T + h)
    ctx.close((b['U'] - a['U']) / (2 * h), got['C'], 'C = dU/dT', rtol=1e-3, atol=1e-6 * top / T)
    ctx.close(-(b['F'] - a['F']) / (2 * h), got['S'], 'S = -dF/dT', rtol=1e-3, atol=1e-6 * top / T)
    hot = four(1e6)
    d = dos.copy()
    ctx.close(hot['C'], N_A * K_B * simpson(d, x=f), 'classical heat capacity', rtol=1e-4,
              atol=1e-6 * N_A * K_B * np.abs(d).sum())
    # renormalization correction: half of the energy difference, with opposite sign
    dos2 = r.uniform(0, 3, size=len(f))
    corr = thm.get_free_energy_correction_dos(T, f, dos, dos2) * 1000
    if f[0] == 0:
        dos2[0] = 0
    ctx.close(corr, (got['U'] - four(T, dos2)['U']) / 2, 'free energy correction', rtol=1e-6, atol=1e-8 * top)
    # entropy from occupations
    ctx.close(thm.get_entropy2(T, f, dos), got['S'], 'entropy from occupations', rtol=1e-5, atol=1e-6 * max(top / T, N_A * K_B))
    # uniform shift of all frequencies: half of the change of energy of oscillators of fixed occupation, with opposite sign
    shift = r.uniform(-1, 1)
    per = np.zeros(len(f))
    per[pos] = U[pos] / f[pos]
    ctx.close(thm.get_free_energy_correction_shift(T, f, dos, shift) * 1000, -shift / 2 * simpson(dos * per, x=f) * N_A,
              'free energy correction of a shift', rtol=1e-6, atol=1e-8 * top)
    # power spectrum to density of states (classical equipartition)
    ps = r.uniform(0, 1, size=len(f))
    want = np.zeros(len(f))
    want[pos] = 2 * 1.60217662e-19 * ps[pos] / (U[pos] * case['size'])
    got = np.array(thm.get_dos(T, f, ps, case['size'], bose_einstein_statistics=True))
    ctx.close(got[pos], want[pos], 'density of states of a power spectrum with quantum statistics', rtol=1e-6)
    ctx.close(thm.get_dos(T, f, ps, case['size']), 2 * 1.60217662e-19 * ps / (K_B * T * case['size']),
              'density of states of a power spectrum', rtol=1e-6)


def crystal_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I', 'F'), lo=350, hi=600),
        'dim': gen.dims(2, 3, 12), 'seed': gen.seeds(), 'T': st.integers(100, 900), 'ratio': st.integers(-15, 15),
        'normalize': st.booleans(), 'full': st.booleans(), 'reference': st.booleans()})


def run_crystal(case, ctx):
    from dynaphopy.interface.phonopy_link import ForceConstants
    from scipy.integrate import simpson
    from phonopy import Phonopy
    from phonopy.structure.atoms import PhonopyAtoms
    c = gen.build_crystal(case['crystal'])
    harmonic = gen.spring_force_constants(c, case['dim'], case['seed'] % 97)
    mesh = (9, 9, 9)
    T = float(case['T'])
    qp, u, v = calc.quasiparticle(c, case['dim'], nstep=40, seed=case['seed'], noise=0.2, mesh_phonopy=mesh, silent=True,
                                  power_spectra_algorithm=2)
    qp.set_temperature(T)
    ctx.check(qp.get_temperature() == T, 'the temperature is not the one given')
    N = len(c.elements)

    def phonons(fc):
        cell = PhonopyAtoms(symbols=c.elements, scaled_positions=c.scaled, cell=c.cell)
        p = Phonopy(cell, np.diag(case['dim']), primitive_matrix=c.primitive_matrix, log_level=0)
        p.force_constants = fc
        p.run_mesh(mesh, is_mesh_symmetry=False, is_gamma_center=False)
        f = p.get_mesh_dict()['frequencies']
        return f.ravel()[f.ravel() > 0.01], f.size

    def sums(fc):
        f, n = phonons(fc)
        U, F, S, C = mode(T, f)
        k = N_A * 3 * N / n
        return np.array([F.sum() * k / 1000, S.sum() * k, C.sum() * k, U.sum() * k / 1000])
    def exact(fc, atom=-1):
        """integrals over the density of states of the phonons"""
        cell = PhonopyAtoms(symbols=c.elements, scaled_positions=c.scaled, cell=c.cell)
        p = Phonopy(cell, np.diag(case['dim']), primitive_matrix=c.primitive_matrix, log_level=0)
        p.force_constants = fc
        if atom < 0:
            p.run_mesh(mesh)
            p.run_total_dos(freq_min=0.01, freq_max=qp.get_frequency_range()[-1],
                            freq_pitch=qp.parameters.spectrum_resolution, use_tetrahedron_method=True)
            x, y = p.total_dos.frequency_points, p.total_dos.dos
        else:
            p.run_mesh(mesh, with_eigenvectors=True, is_mesh_symmetry=False)
            p.run_projected_dos(freq_min=0.01, freq_max=qp.get_frequency_range()[-1])
            x, y = p.projected_dos.frequency_points, p.projected_dos.projected_dos[atom]
        y = y * N / float(c.nprim)
        U, F, S, C = mode(T, x)
        return np.array([simpson(y * F, x=x) * N_A / 1000, simpson(y * S, x=x) * N_A, simpson(y * C, x=x) * N_A,
                         simpson(y * U, x=x) * N_A / 1000, simpson(y, x=x) / (3 * N)])

    fh, total = phonons(harmonic)
    if not len(fh) or fh.max() < 2:
        ctx.event('no force')
        return
    low = 1 - np.sum(fh > 0.8) / float(total)
    if fh.max() > 38 or low > 0.05:
        ctx.event('out of range')
        return
    scale = (1 + case['ratio'] / 100.) ** 2
    ctx.nontrivial(case['ratio'] != 0)
    want = sums(harmonic)
    unit = np.array([1 + abs(want[3]), want[2] + 1, want[2] + 1, 1 + abs(want[3])])
    got = np.array(qp.get_thermal_properties(normalize_dos=False))
    ctx.close(got, exact(harmonic), 'harmonic properties', rtol=1e-5)
    norm = got[4]
    ctx.close(norm, 1.0, 'integral of the density of states', rtol=0, atol=0.4)
    # normalization of the sum of all atoms
    gotn = np.array(qp.get_thermal_properties(normalize_dos=True))
    ctx.close(gotn, np.append(got[:4] / norm, 1.0), 'normalized properties', rtol=1e-9)
    ctx.check((np.abs(gotn[:4] - want) < 0.4 * unit).all(),
              lambda: 'harmonic properties %s, sums over phonons %s' % (gotn[:4], want))
    ctx.close(got[0], got[3] - T * got[1] / 1000, 'F = U - T S', rtol=1e-5, atol=1e-6 * unit[0])
    # renormalized force constants: same functions, with the correction in F and U
    fc = ForceConstants(harmonic * scale, supercell=np.diag(case['dim']))
    ren = np.array(qp.get_thermal_properties(force_constants=fc, normalize_dos=case['normalize']))
    a, b = exact(harmonic), exact(harmonic * scale)
    if case['normalize']:
        a /= a[4]
        b /= b[4]
    corr = -(b[3] - a[3]) / 2
    ctx.close(ren, b + np.array([corr, 0, 0, corr, 0]), 'properties with other force constants', rtol=1e-5,
              atol=1e-6 * unit[0])
    ctx.close(ren[0], ren[3] - T * ren[1] / 1000, 'F = U - T S with other force constants', rtol=1e-5, atol=1e-6 * unit[0])
    if c.nprim > 1:
        # projections onto the atoms of the primitive cell
        parts = []
        for i in range(c.nprim):
            qp.set_projection_onto_atom_type(i)
            parts.append(np.array(qp.get_thermal_properties()))
            ctx.close(parts[-1], exact(harmonic, i), 'properties of atom %d' % i, rtol=1e-5)
            ctx.close(parts[-1][4], 1. / c.nprim, 'integral of the density of states of one atom', rtol=0, atol=0.25)
            n = np.array(qp.get_thermal_properties(normalize_dos=True))
            ctx.close(n, np.append(parts[-1][:4] / parts[-1][4] / c.nprim, 1. / c.nprim),
                      'normalized properties of one atom', rtol=1e-9)
        parts = np.sum(parts, axis=0)
        ctx.check((np.abs(parts[:4] / parts[4] - gotn[:4]) < 0.4 * unit).all(),
                  lambda: 'sum over atoms %s, total %s' % (parts, gotn))


def table_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C'), kinds=('cubic', 'hex', 'ortho'), lo=350, hi=600),
        'dim': gen.dims(1, 2, 8), 'seed': gen.seeds(), 'T': st.integers(100, 900),
        'normalize': st.booleans(), 'full': st.booleans(), 'reference': st.booleans(), 'atom': st.one_of(st.none(), st.integers(0, 7))})


def run_table(case, ctx):
    """the printed table is made of the values of get_thermal_properties"""
    from scipy.integrate import simpson
    from phonopy import Phonopy
    from phonopy.structure.atoms import PhonopyAtoms
    c = gen.build_crystal(case['crystal'])
    harmonic = gen.spring_force_constants(c, case['dim'], case['seed'] % 97)
    if np.abs(harmonic).max() < 0.5:
        return
    qp, u, v = calc.quasiparticle(c, case['dim'], nstep=60, seed=case['seed'], noise=0.2, mesh_phonopy=(4, 4, 4), silent=True,
                                  power_spectra_algorithm=2, spectrum_resolution=0.5)
    T = float(case['T'])
    qp.set_temperature(T)
    if case['atom'] is not None:
        qp.set_projection_onto_atom_type(case['atom'] % c.nprim)
        ctx.event('of one atom')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        qp.display_thermal_properties(from_power_spectrum=case['full'], normalize_dos=case['normalize'],
                                      print_phonopy=case['reference'])
    text = out.getvalue()
    head, text = text[:text.index('[From DoS')], text[text.index('[From DoS'):]
    rows = []
    for label in ('Free energy', 'Entropy', 'Cv', 'Total energy', 'Integration'):
        m = re.search('^' + label + r'[^:]*:(.*)$', text, re.M)
        ctx.check(m is not None, lambda: 'no line %s in %s' % (label, text))
        rows.append([float(x) for x in m.group(1).split()])
    ctx.nontrivial(case['full'])
    cols = [qp.get_thermal_properties(normalize_dos=case['normalize']),
            qp.get_thermal_properties(force_constants=qp.get_renormalized_force_constants(), normalize_dos=case['normalize'])]
    if case['full']:
        f = np.array(qp.get_frequency_range())
        dos = 2 * 1.60217662e-19 * np.array(qp.get_power_spectrum_full()) / (K_B * T * np.prod(case['dim']))
        integral = simpson(dos, x=f) / (3 * len(c.elements))
        if case['normalize']:
            share = 1. if case['atom'] is None else 1. / c.nprim
            dos = dos / integral * share
            integral = share
        pos = f > 0
        Y = np.zeros((4, len(f)))
        U, F, S, C = mode(T, f[pos])
        Y[0, pos], Y[1, pos], Y[2, pos], Y[3, pos] = F / 1000, S, C, U / 1000
        cols.append([simpson(dos * y, x=f) * N_A for y in Y] + [integral])
    want = np.array(cols).T
    ctx.close(np.array(rows), want, 'printed table', rtol=1e-4, atol=2e-4)
    if not case['reference']:
        return
    # sums over the phonons of the mesh
    for col, fc in enumerate((harmonic, qp.get_renormalized_force_constants().get_array())):
        cell = PhonopyAtoms(symbols=c.elements, scaled_positions=c.scaled, cell=c.cell)
        p = Phonopy(cell, np.diag(case['dim']), primitive_matrix=c.primitive_matrix, log_level=0)
        p.force_constants = fc
        p.run_mesh((4, 4, 4))
        weights = np.repeat(p.get_mesh_dict()['weights'], 3 * c.nprim)
        f = p.get_mesh_dict()['frequencies'].ravel()
        if (np.abs(f) < 0.1).any():
            ctx.event('zero frequencies')
            continue
        ctx.event('sums over phonons')
        U, F, S, C = mode(T, f[f > 0])
        k = N_A * 3 * len(c.elements) * weights[f > 0] / weights.sum()
        for label, y in (('Free energy', F / 1000), ('Entropy', S), ('Cv', C)):
            m = re.search('^' + label + r'[^:]*:(.*)$', head, re.M)
            ctx.check(m is not None, lambda: 'no line %s in %s' % (label, head))
            ctx.close(float(m.group(1).split()[col]), np.sum(y * k), 'reference ' + label, rtol=1e-4, atol=2e-4)


SUBS = [Sub('formulas', strategy, run, quick=600, thorough=20000, shards=2, tshards=4),
        Sub('crystals', crystal_strategy, run_crystal, quick=48, thorough=1500, shards=6, tshards=8),
        Sub('table', table_strategy, run_table, quick=40, thorough=800, shards=4, tshards=4)]
