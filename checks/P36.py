"""P36: results do not depend on how crystal and run are described."""
import copy
import itertools

import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub, quiet, reset_globals
from checks import P29


PROPERTY = 'P36'
RULE = ('a generated crystal and run described a second time: rotated, inverted or moved as a whole, atoms in another order or taken from '
        'other cells, a unit cell twice as large, its axes or the primitive vectors chosen differently, time counted from elsewhere, units of '
        'velocity and time scaled; non-trivial: at least two of these changes together')
ASSUMPTIONS = ['the spring model of the generator depends on distances and elements only, so it gives the force constants of both descriptions']

UNIMODULAR = [np.array(m) for m in ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[1, 1, 0], [0, 1, 0], [0, 0, 1]],
                                    [[1, 0, 0], [-1, 1, 0], [0, 1, 1]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, -1], [0, 1, 0], [0, 0, 1]])]


def changes():
    return st.fixed_dictionaries({
        'rotate': st.one_of(st.none(), st.integers(1, 10 ** 6)), 'invert': st.booleans(), 'shift': st.one_of(st.none(), st.integers(0, 10 ** 6)),
        'order': st.one_of(st.none(), st.integers(0, 10 ** 6)), 'images': st.one_of(st.none(), st.integers(0, 10 ** 6)),
        'double': st.one_of(st.none(), st.integers(0, 2)), 'axes': st.integers(0, 2), 'prim': st.integers(0, len(UNIMODULAR) - 1)})


def plain(ch):
    """How many changes"""
    return sum([ch['rotate'] is not None, ch['invert'], ch['shift'] is not None, ch['order'] is not None, ch['images'] is not None,
                ch['double'] is not None, ch['axes'] > 0, ch['prim'] > 0])


class Other(object):
    """The crystal c with supercell dim, described in another way"""

    def __init__(self, c, dim, ch):
        old, oi = gen.supercell_positions(c, dim)
        cell, prim, s, els, dim = c.cell.copy(), c.prim.copy(), c.scaled.copy(), list(c.elements), list(dim)
        move = np.zeros(3)
        self.sign, self.R, self.T = 1, np.eye(3), UNIMODULAR[ch['prim']]
        if ch['double'] is not None and dim[ch['double']] % 2 == 0:
            k = ch['double']
            two = s.copy()
            two[:, k] += 1
            s = np.array([x for pair in zip(s, two) for x in pair])
            els = [e for e in els for _ in range(2)]
            s[:, k] /= 2
            cell[k] *= 2
            dim[k] //= 2
        if ch['axes']:
            p = [(i + ch['axes']) % 3 for i in range(3)]
            cell, s, dim = cell[p], s[:, p], [dim[i] for i in p]
        prim = self.T.dot(prim)
        if ch['images'] is not None:
            s = s + gen.rng(ch['images']).randint(-1, 2, size=s.shape)
        if ch['shift'] is not None:
            move = gen.rng(ch['shift']).uniform(-1, 1, size=3)
            s = s + move
            move = move.dot(cell)
        if ch['invert']:
            s, self.sign = -s, -1
        if ch['rotate'] is not None:
            self.R = gen.rotation(ch['rotate'])
            cell, prim = cell.dot(self.R.T), prim.dot(self.R.T)
        if ch['order'] is not None:
            p = gen.rng(ch['order']).permutation(len(s))
            s, els = s[p], [els[i] for i in p]
        self.move = move
        o = copy.copy(c)
        o.cell, o.prim, o.scaled, o.elements, o.positions = cell, prim, s, els, s.dot(cell)
        o.primitive_matrix = np.linalg.inv(cell.T).dot(prim.T)
        self.c, self.dim = o, dim
        new, ni = gen.supercell_positions(o, dim)
        S = np.diag(dim).dot(cell)
        f = self.place(old).dot(np.linalg.inv(S))
        g = new.dot(np.linalg.inv(S))
        d = g[:, None] - f[None]
        d = np.linalg.norm((d - np.round(d)).dot(S), axis=2)
        # old atom of each new one
        self.of = d.argmin(axis=1)
        assert sorted(self.of) == list(range(len(old))) and d.min(axis=1).max() < 1e-6
        # types are numbered by first appearance
        kind = [c.ptype[oi[self.of[list(ni).index(i)]]] for i in range(len(s))]
        seen = {}
        o.ptype = np.array([seen.setdefault(t, len(seen)) for t in kind])
        self.type_of = [t for t, _ in sorted(seen.items(), key=lambda x: x[1])]

    def place(self, x):
        return (self.sign * (x + self.move)).dot(self.R.T)

    def vectors(self, v):
        """velocities (steps x atoms x 3)"""
        return self.sign * v[:, self.of].dot(self.R.T)

    def run(self, x):
        return self.place(x)[:, self.of]

    def q(self, q):
        return self.sign * self.T.dot(q)


def groups(f):
    """Degenerate modes"""
    out = [[0]]
    for i in range(1, len(f)):
        if f[i] - f[i - 1] < 2e-3:
            out[-1].append(i)
        else:
            out.append([i])
    return out


def calculation(c, dim, fc, x, v, dt, t0, case):
    import dynaphopy
    from dynaphopy.dynamics import Dynamics
    from dynaphopy.interface.phonopy_link import ForceConstants
    reset_globals()
    s = gen.make_structure(c)
    s.set_force_constants(ForceConstants(fc, supercell=np.diag(dim)))
    d = Dynamics(structure=s, velocity=None if v is None else v.astype(complex), trajectory=None if x is None else x.astype(complex),
                 time=t0 + np.arange(len(v if x is None else x)) * dt, supercell=np.diag(dim).dot(c.cell))
    qp = dynaphopy.Quasiparticle(d)
    p = qp.parameters
    p.silent = True
    p.use_symmetry = case['symmetry']
    return qp


def spectra_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=3, centerings=('P', 'C', 'I', 'F')), 'dim': gen.dims(1, 3, 6), 'seed': gen.seeds(), 'change': changes(),
        'algorithm': st.sampled_from([0, 2, 3]), 'symmetry': st.booleans(), 'velocity': st.booleans(), 't0': st.sampled_from([0., 5., -0.5]),
        'q': st.integers(0, 10 ** 6), 'wrap': st.booleans(), 'nstep': st.integers(20, 60)})


def spectra(case, ctx):
    c, dim, ch = gen.build_crystal(case['crystal']), case['dim'], case['change']
    # the spectra of the FFT are moduli of each column: they depend on the choice of the axes
    fft = case['algorithm'] > 0
    if fft:
        ch = dict(ch, rotate=None)
    o = Other(c, dim, ch)
    # of the equivalent wave vectors those without negative components (in the primitive vectors chosen) are averaged
    symmetry = case['symmetry'] and len(c.elements) == len(o.c.elements) and ch['prim'] == 0 and not ch['invert']
    case = dict(case, symmetry=symmetry)
    n, dt = case['nstep'], 0.02
    pos, idx = gen.supercell_positions(c, dim)
    u, v = gen.smooth_displacements(case['seed'], n, len(pos), 0.1, dt)
    x = pos[None] + u
    k = case['seed'] % 97
    fc, ofc = gen.spring_force_constants(c, dim, k), gen.spring_force_constants(o.c, o.dim, k)
    ox = o.run(x)
    if case['wrap']:
        S = np.diag(o.dim).dot(o.c.cell)
        f = ox.dot(np.linalg.inv(S))
        ox = (f - np.floor(f)).dot(S)
    one = calculation(c, dim, fc, x, v if case['velocity'] else None, dt, 0., case)
    two = calculation(o.c, o.dim, ofc, ox, o.vectors(v) if case['velocity'] else None, dt, case['t0'], case)
    qs = calc.commensurate_reference(c, dim)
    q = qs[case['q'] % len(qs)]
    if symmetry:
        ctx.event('symmetry')
    ctx.nontrivial(plain(ch) >= 2)
    for qp, w in ((one, q), (two, o.q(q))):
        qp.select_power_spectra_algorithm(case['algorithm'])
        qp.set_frequency_limits([0, 20])
        qp.set_spectra_resolution(1.)
        qp.set_reduced_q_vector(np.array(w))
    # velocities derived from displacements of a shifted time lose digits
    tol = 1e-9 if case['velocity'] and case['t0'] == 0 else 1e-7

    def same(a, b, what):
        a, b = np.array(a), np.array(b)
        ctx.close(b, a, what, rtol=tol, atol=tol * (np.abs(a).max() if a.size else 0) + 1e-13)
    with quiet():
        f1, f2 = np.array(one.get_frequencies()), np.array(two.get_frequencies())
    ctx.close(np.sign(f2) * f2 ** 2, np.sign(f1) * f1 ** 2, 'squared harmonic frequencies', rtol=1e-7, atol=1e-6 * max(1, np.abs(f1).max() ** 2))
    with quiet():
        same(one.dynamic.get_time_step_average(), two.dynamic.get_time_step_average(), 'time step')
        same(one.get_power_spectrum_full(), two.get_power_spectrum_full(), 'full spectrum')
        same(one.get_power_spectrum_wave_vector(), two.get_power_spectrum_wave_vector(), 'wave vector spectrum at %s' % q)
        p1, p2 = np.array(one.get_power_spectrum_phonon()), np.array(two.get_power_spectrum_phonon())
        g = groups(f1)
        scale = np.abs(p1).sum(1).max()
        for m in g:
            if fft and len(m) > 1:
                continue
            gap = min([abs(f1[i] - f1[j]) for i in m for j in range(len(f1)) if j not in m] + [9])
            ctx.close(p2[:, m].sum(1), p1[:, m].sum(1), 'spectrum of phonons %s at %s' % (m, q), rtol=tol,
                      atol=scale * max(tol, 1e-8 / gap / max(0.1, abs(f1[m[0]]))))
        same(one.dynamic.get_relative_trajectory()[:, o.of].dot(o.R.T) * o.sign, two.dynamic.get_relative_trajectory(), 'displacements')
        m1, m2 = np.array(one.dynamic.get_mean_displacement_matrix()), np.array(two.dynamic.get_mean_displacement_matrix())
        same([o.R.dot(m1[t]).dot(o.R.T) for t in o.type_of], m2, 'mean square displacements')
        ctx.close(two.get_temperature(), one.get_temperature(), 'temperature', rtol=5e-3)
    for t, old in enumerate(o.type_of):
        spectrum = []
        for qp, k in ((one, old), (two, t)):
            with quiet():
                qp.set_projection_onto_atom_type(k)
                spectrum.append([qp.get_power_spectrum_full().tolist(), qp.get_power_spectrum_wave_vector().tolist()])
        same(spectrum[0], spectrum[1], 'spectra of atom type %d' % old)


def units_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I', 'F')), 'dim': gen.dims(1, 2, 4), 'seed': gen.seeds(),
        'algorithm': st.integers(0, 3), 'symmetry': st.just(False), 'scale': st.integers(2, 40), 'time': st.integers(3, 40),
        'q': st.integers(0, 10 ** 6), 'nstep': st.integers(40, 90), 'step': st.integers(1, 12), 'coefficients': st.integers(4, 30)})


def units(case, ctx):
    c, dim = gen.build_crystal(case['crystal']), case['dim']
    n, dt = case['nstep'], 0.02
    pos, idx = gen.supercell_positions(c, dim)
    r = gen.rng(case['seed'] + 3)
    u, v = gen.smooth_displacements(case['seed'], n, len(pos), 0.1, dt)
    v = v + 0.1 * r.normal(size=v.shape) * np.abs(v).max()
    fc = gen.spring_force_constants(c, dim, case['seed'] % 97)
    lam, tau = case['scale'] / 10., case['time'] / 10.
    one = calculation(c, dim, fc, None, v, dt, 0., case)
    two = calculation(c, dim, fc, None, v * lam, dt * tau, 0., case)
    qs = calc.commensurate_reference(c, dim)
    q = qs[case['q'] % len(qs)]
    ctx.nontrivial()
    ctx.event('algorithm %d' % case['algorithm'])
    for qp, k in ((one, 1.), (two, 1 / tau)):
        qp.select_power_spectra_algorithm(case['algorithm'])
        qp.set_spectra_resolution(1. * k)
        # the limits alone leave the number of frequencies to rounding
        qp.parameters.frequency_range = np.arange(0, 21) * k
        qp.parameters.correlation_function_step = case['step']
        qp.parameters.number_of_coefficients_mem = case['coefficients']
        qp.set_reduced_q_vector(np.array(q))
    for name in ('get_power_spectrum_full', 'get_power_spectrum_wave_vector', 'get_power_spectrum_phonon'):
        with quiet():
            a, b = np.array(getattr(one, name)()), np.array(getattr(two, name)())
        ctx.close(b, a * lam ** 2 * tau, '%s of velocities x %g, times x %g' % (name, lam, tau), rtol=1e-6, atol=1e-8 * lam ** 2 * tau * np.abs(a).max() + 1e-13)
    with quiet():
        ctx.close(two.get_temperature(), one.get_temperature() * lam ** 2, 'temperature', rtol=5e-3)


def phonons_strategy():
    return st.fixed_dictionaries(dict(P29.base(), change=changes(), res=st.integers(2, 5), path=st.integers(0, 10 ** 6)))


def phonons(case, ctx):
    got = P29.build(case, band_resolution=case['res'])
    if got is None:
        ctx.event('frequencies do not suit')
        return
    c, dim, one = got
    ch = case['change']
    o = Other(c, dim, ch)
    pos, _ = gen.supercell_positions(c, dim)
    scale = one.harmonic[0, 0, 0, 0] / gen.spring_force_constants(c, dim, case['seed'] % 97)[0, 0, 0, 0]
    ofc = gen.spring_force_constants(o.c, o.dim, case['seed'] % 97) * scale
    v = np.array(one.dynamic.velocity).real
    symmetric = len(c.elements) == len(o.c.elements) and ch['prim'] == 0 and not ch['invert']
    two = calculation(o.c, o.dim, ofc, o.run(np.repeat(pos[None], len(v), 0)), o.vectors(v), 0.02, 0., {'symmetry': case['symmetry'] and symmetric})
    for p in (one.parameters, two.parameters):
        p.use_symmetry = case['symmetry'] and symmetric
        p.symmetrize = case['fcsymm'] and symmetric
        p.spectrum_resolution = 0.08
        p.mesh_phonopy = (4, 4, 4)
        p.band_resolution = case['res']
    two.select_power_spectra_algorithm(3)
    ctx.nontrivial(plain(ch) >= 2)
    r = gen.rng(case['path'])
    a, b = np.round(r.uniform(-.6, .6, size=(2, 3)), 3)
    one.set_band_ranges([[a, b]])
    two.set_band_ranges([[o.q(a), o.q(b)]])
    # the automatic range is that of a mesh along the primitive vectors
    for qp in (one, two):
        qp.set_frequency_limits([0, 20])
    d1, d2 = one.get_commensurate_points_data(auto_range=False), two.get_commensurate_points_data(auto_range=False)
    q1, q2 = np.array([o.q(q) for q in d1['q_points']]), np.array(d2['q_points'])
    ctx.check(len(q1) == len(q2), '%d commensurate points, %d of the other description' % (len(q1), len(q2)))
    fmax = np.abs(d1['frequencies']).max()
    harmonic = P29.phonopy_frequencies(c, dim, one.harmonic, d1['q_points'])
    # degenerate phonons are fitted one by one, along eigenvectors that are a matter of choice
    degenerate = np.diff(np.sort(harmonic, axis=1), axis=1).min(axis=1) < 1e-3
    tols = np.where(degenerate, 0.1, 1e-4) * fmax
    ctx.event('degenerate' if degenerate.any() else 'not degenerate')
    for i, q in enumerate(q1):
        d = q2 - q
        j = np.abs(d - np.round(d)).max(axis=1).argmin()
        ctx.check(np.abs(d[j] - np.round(d[j])).max() < 1e-4, lambda: 'wave vector %s is not among those of the other description' % q)
        f1, f2 = np.sort(d1['frequencies'][i]), np.sort(d2['frequencies'][j])
        ctx.close(f2, f1, 'frequencies at %s' % q, rtol=0, atol=tols[i])
        if not degenerate[i]:
            ctx.close(np.sort(d2['linewidths'][j]), np.sort(d1['linewidths'][i]), 'linewidths at %s' % q, rtol=1e-3, atol=1e-3)
    b1 = one.get_renormalized_phonon_dispersion_bands()[0]
    b2 = two.get_renormalized_phonon_dispersion_bands()[0]
    for name in ('harmonic_frequencies', 'renormalized_frequencies'):
        w1, w2 = (np.sort(np.array([b[name][k] for k in sorted(b[name])]), axis=0) for b in (b1, b2))
        ctx.close(np.sign(w2) * w2 ** 2, np.sign(w1) * w1 ** 2, name, rtol=0, atol=2 * (tols.max() if name[0] == 'r' else 1e-6 * fmax) * max(fmax, w1.max()))
    ctx.close(b2['q_path_distances'], b1['q_path_distances'], 'distances along the path', rtol=1e-6, atol=1e-9)


def structure_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=4, centerings=('P', 'C', 'I', 'F')), 'dim': gen.dims(1, 3, 8), 'kind': st.sampled_from([
            'elements', 'numbers', 'masses', 'elements and masses', 'all']), 'cartesian': st.booleans(), 'both': st.booleans(),
        'elements': st.integers(0, 10 ** 6), 'isotopes': st.integers(0, 10 ** 6), 'types': st.sampled_from([list, tuple, np.array]).map(lambda x: x.__name__),
        'moved': st.booleans(), 'read': st.booleans(), 'remass': st.booleans()})


def structure(case, ctx):
    from dynaphopy.atoms import Structure
    from phonopy.structure.atoms import atom_data
    c, dim = gen.build_crystal(case['crystal']), case['dim']
    r = gen.rng(case['elements'])
    # elements without standard atomic weight left out
    table = [a for a in atom_data if a[3] is not None and a[0] not in [0, 43, 61] + list(range(84, 90)) and a[0] < 93]
    kinds = [table[r.randint(len(table))] for _ in range(c.nprim)]
    numbers = [kinds[t][0] for t in c.ptype]
    elements = [kinds[t][1] for t in c.ptype]
    masses = [kinds[t][3] for t in c.ptype]
    given = {'list': list, 'tuple': tuple, 'array': np.array}[case['types']]
    kw = {}
    if case['kind'] in ('elements', 'elements and masses', 'all'):
        kw['atomic_elements'] = list(elements)
    if case['kind'] in ('numbers', 'all'):
        kw['atomic_numbers'] = given(numbers)
    if case['kind'] in ('elements and masses', 'all'):
        # isotopes: one mass for all the copies of an atom
        w = gen.rng(case['isotopes']).uniform(0.5, 1.9, size=c.nprim)
        masses = [masses[i] * w[t] for i, t in enumerate(c.ptype)]
    if case['kind'] in ('elements and masses', 'all', 'masses'):
        kw['masses'] = given(masses)
    if case['cartesian'] or case['both']:
        kw['positions'] = c.positions.copy()
    if not case['cartesian'] or case['both']:
        kw['scaled_positions'] = c.scaled.copy()
    s = Structure(cell=c.cell.tolist() if case['types'] == 'list' else c.cell, primitive_matrix=c.primitive_matrix, **kw)
    ctx.nontrivial(case['kind'] != 'elements')
    ctx.event(case['kind'])
    positions = c.positions
    if case['read']:
        s.get_positions(), s.get_scaled_positions(), s.get_masses()
    if case['moved']:
        positions = positions + gen.rng(case['elements'] + 1).uniform(-1, 1, size=3)
        s.set_positions(positions.copy())
    if case['remass']:
        masses = [m * 1.25 for m in masses]
        s.set_masses(given(masses))
    if case['kind'] == 'masses':
        # elements with the same mass as another cannot be told apart (transuranium elements)
        same = [[a[1] for a in table if abs(a[3] - m) < 1e-6] for m in [kinds[t][3] for t in c.ptype]]
        got = s.get_atomic_elements()
        ctx.check(all(e in x or abs([a[3] for a in table if a[1] == e][0] - kinds[t][3]) < 0.02 for e, x, t in zip(got, same, c.ptype)),
                  lambda: 'elements %s of masses %s' % (got, masses))
        if got != elements:
            return
    ctx.check(list(s.get_atomic_elements()) == elements, lambda: 'elements %s instead of %s' % (list(s.get_atomic_elements()), elements))
    ctx.check([int(i) for i in s.get_atomic_numbers()] == numbers, lambda: 'atomic numbers %s instead of %s' % (list(s.get_atomic_numbers()), numbers))
    ctx.close(np.array(s.get_masses(), dtype=float), masses, 'masses', rtol=2e-3)
    ctx.close(s.get_positions(), positions, 'positions', rtol=0, atol=1e-9)
    ctx.close(s.get_scaled_positions(), positions.dot(np.linalg.inv(c.cell)), 'fractional positions', rtol=0, atol=1e-9)
    ctx.check(list(s.get_atom_type_index()) == list(c.ptype), lambda: 'atom types %s instead of %s' % (list(s.get_atom_type_index()), list(c.ptype)))
    n = int(np.prod(dim))
    ctx.check(list(s.get_atomic_elements(supercell=dim)) == [e for e in elements for _ in range(n)], 'elements of the supercell')
    ctx.check([int(i) for i in s.get_atomic_numbers(supercell=dim)] == [e for e in numbers for _ in range(n)], 'atomic numbers of the supercell')
    ctx.close(s.get_masses(supercell=dim), np.repeat(masses, n), 'masses of the supercell', rtol=2e-3)
    moved = copy.copy(c)
    moved.positions = positions
    ctx.close(s.get_positions(supercell=dim), gen.supercell_positions(moved, dim)[0], 'positions of the supercell', rtol=0, atol=1e-9)


SUBS = [Sub('structure', structure_strategy, structure, quick=200, thorough=5000, shards=1, tshards=2),
        Sub('spectra', spectra_strategy, spectra, quick=220, thorough=5000, shards=3, tshards=4),
        Sub('units', units_strategy, units, quick=120, thorough=3000, shards=2, tshards=2),
        Sub('phonons', phonons_strategy, phonons, quick=60, thorough=1200, shards=3, tshards=4)]
