"""P19: symmetry-equivalent wave vectors."""
import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub

PROPERTY = 'P19'
RULE = ('random crystals (symmetric and not, centred cells, rotated), random commensurate and other wave vectors; '
        'each vector offered as equivalent is compared with the rotations of the crystal found by spglib, and its '
        'harmonic frequencies with those of the original; spectra with symmetry are compared with the average of the spectra of the '
        'commensurate equivalent vectors, and equivalent commensurate points with each other; non-trivial when there is '
        'more than one equivalent vector')


DIMS = [[2, 2, 1], [2, 2, 2], [2, 1, 2], [1, 2, 2], [3, 3, 1], [1, 1, 1], [1, 3, 3], [2, 1, 1], [1, 2, 1], [3, 2, 1]]


def crystals():
    return gen.crystal_spec(max_atoms=2, kinds=('cubic', 'cubic', 'tetra', 'hex', 'hex', 'ortho', 'tric'))


def strategy():
    return st.fixed_dictionaries({
        'crystal': crystals(), 'dim': gen.dims(1, 3, 8), 'seed': gen.seeds(), 'q': st.integers(0, 30),
        'free': st.booleans(), 'coord': st.lists(st.integers(0, 6), min_size=3, max_size=3)})


def symmetry_rotations(c):
    """Cartesian rotations of the crystal, with time reversal"""
    import spglib
    numbers = [gen.ELEMENTS.index(e) + 1 for e in c.elements]
    sym = spglib.get_symmetry((c.cell, c.scaled, numbers), symprec=1e-5)
    out = []
    inv = np.linalg.inv(c.cell.T)
    for W in sym['rotations']:
        R = c.cell.T.dot(W).dot(inv)
        out += [R, -R]
    return out


def symmetric_crystals():
    return st.one_of(crystals(), gen.crystal_spec(max_atoms=1, kinds=('cubic', 'tetra', 'hex')),
                     gen.crystal_spec(max_atoms=2, kinds=('cubic', 'tetra', 'hex')).map(lambda s: dict(s, sites=s['sites'] // 3 * 3)))


def related(c, rots, p, q):
    B = np.linalg.inv(c.prim).T             # rows: reciprocal vectors
    x = np.dot(q, B)
    for R in rots:
        d = (np.dot(p, B) - R.dot(x)).dot(c.prim.T)
        if np.abs(d - np.round(d)).max() < 1e-5:
            return True
    return False


def run(case, ctx):
    from dynaphopy.interface import phonopy_link as pl
    c = gen.build_crystal(case['crystal'])
    s = gen.structure_with_fc(c, case['dim'], case['seed'] % 97)
    qs = calc.commensurate_reference(c, case['dim'])
    q = np.array(case['coord']) / 6. if case['free'] else qs[case['q'] % len(qs)]
    got = np.array(pl.get_equivalent_q_points_by_symmetry(q, s))
    rots = symmetry_rotations(c)
    ctx.nontrivial(len(got) > 1)
    ctx.event('%d rotations' % (len(rots) // 2))
    ctx.check(any(np.abs(p - q).max() < 1e-9 for p in got), 'the vector itself is missing')
    for i in range(len(got)):
        for j in range(i):
            ctx.check(np.abs(got[i] - got[j]).max() > 1e-7, lambda: '%s is given twice: %r' % (got[i], got.tolist()))
    # every image without negative components (images on a boundary count, whatever the rounding)
    x = q.dot(np.linalg.inv(c.prim).T)
    for R in rots:
        y = R.dot(x).dot(c.prim.T)
        if (y > -1e-9).all():
            ctx.check(any(np.abs(p - y).max() < 1e-6 for p in got), lambda: 'the equivalent vector %s is missing' % y)
    for p in got:
        ctx.check(related(c, rots, p, q), lambda: '%s is not equivalent to %s' % (p, q))
    fits = [k for k in got if any(np.abs(k - x - np.round(k - x)).max() < 1e-6 for x in qs)]
    if not case['free']:
        f0 = pl.obtain_eigenvectors_and_frequencies(s, q, print_data=False)[1]
        for p in fits[:6]:
            f = pl.obtain_eigenvectors_and_frequencies(s, p, print_data=False)[1]
            ctx.close(f, f0, 'harmonic frequencies at %s and %s' % (p, q), rtol=1e-4, atol=2e-3)


def symmetric_images(c, q, qs):
    """Images of q without negative components that are commensurate"""
    out = []
    x = q.dot(np.linalg.inv(c.prim).T)
    for R in symmetry_rotations(c):
        y = R.dot(x).dot(c.prim.T)
        if (y > -1e-9).all() and not any(np.abs(y - z).max() < 1e-6 for z in out) and \
                any(np.abs(y - k - np.round(y - k)).max() < 1e-6 for k in qs):
            out.append(y)
    return out


def spectra_strategy():
    return st.fixed_dictionaries({
        'crystal': symmetric_crystals(), 'dim': st.sampled_from(DIMS),
        'seed': gen.seeds(), 'q': st.integers(0, 30), 'pick': st.sampled_from([True, True, True, False]),
        'alg': st.sampled_from([0, 1, 2]), 'n': st.integers(24, 40), 'first': st.booleans(),
        'off': st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 2), st.sampled_from([2e-3, 4e-3, 0.04, 0.1])))})


def run_spectra(case, ctx):
    from dynaphopy.interface import phonopy_link as pl
    c = gen.build_crystal(case['crystal'])
    qs = calc.commensurate_reference(c, case['dim'])
    q = qs[case['q'] % len(qs)]
    if case.get('pick'):
        # wave vectors with equivalent ones that are commensurate too
        many = [k for k in qs if len(symmetric_images(c, k, qs)) > 1]
        if many:
            q = many[case['q'] % len(many)]
    off = case.get('off')
    if off:
        # next to a commensurate point, but not on it: every equivalent vector counts
        q = np.array(q, dtype=float)
        q[off[0]] += off[1]
    freqs = np.arange(0, 30, 2.1)
    qp, u, v = calc.quasiparticle(c, case['dim'], nstep=case['n'], seed=case['seed'], noise=0.3,
                                  power_spectra_algorithm=case['alg'], frequency_range=freqs, use_symmetry=True,
                                  number_of_coefficients_mem=6, correlation_function_step=3)
    qp.set_reduced_q_vector(q)
    if case['first']:
        vc0 = np.array(qp.get_vc())
    phonon = np.array(qp.get_power_spectrum_phonon())
    wave = np.array(qp.get_power_spectrum_wave_vector())
    ctx.close(np.array(qp.get_reduced_q_vector()), q, 'wave vector afterwards', atol=0)
    if case['first']:
        ctx.close(np.array(qp.get_vc()), vc0, 'projection afterwards', atol=1e-12)
    got = pl.get_equivalent_q_points_by_symmetry(q, qp.dynamic.structure)
    fits = got if off else [k for k in got if any(np.abs(k - x - np.round(k - x)).max() < 1e-6 for x in qs)]
    ctx.nontrivial(len(fits) > 1)
    ctx.check(qp.check_commensurate(q) == (not off), lambda: '%s: check_commensurate gives %s' % (q, qp.check_commensurate(q)))
    ctx.event('%d of %d equivalent vectors are commensurate' % (len(fits), len(got)))
    qp.parameters.use_symmetry = False
    want_p, want_w = [], []
    for k in fits:
        qp.full_clear()
        qp.set_reduced_q_vector(k)
        want_p.append(np.array(qp.get_power_spectrum_phonon()))
        want_w.append(np.array(qp.get_power_spectrum_wave_vector()))
    a, b = np.mean(want_p, axis=0), np.mean(want_w, axis=0)
    ctx.close(wave, b, 'wave-vector spectrum', rtol=1e-6, atol=1e-8 * np.abs(b).max())
    # modes of a degenerate set may be mixed differently: only their sum counts, and only if the spectrum is quadratic
    fr = np.array(qp.get_frequencies())
    groups = np.split(np.arange(len(fr)), np.where(np.diff(fr) > 1e-2)[0] + 1)
    for m in groups:
        if len(m) == 1 or case['alg'] == 0:
            ctx.close(phonon[:, m].sum(axis=1), a[:, m].sum(axis=1), 'phonon spectrum of modes %s' % m, rtol=1e-4, atol=1e-6 * np.abs(a).max())


def share_strategy():
    return st.fixed_dictionaries({
        'crystal': symmetric_crystals(),
        'dim': st.sampled_from(DIMS), 'seed': gen.seeds()})


def run_share(case, ctx):
    from dynaphopy.interface import phonopy_link as pl
    c = gen.build_crystal(case['crystal'])
    if np.abs(gen.spring_force_constants(c, case['dim'], case['seed'] % 97)).max() < 1e-3:
        return
    qp, u, v = calc.quasiparticle(c, case['dim'], nstep=60, seed=case['seed'], noise=0.1, power_spectra_algorithm=2,
                                  spectrum_resolution=0.6, use_symmetry=True, mesh_phonopy=(3, 3, 3))
    data = qp.get_commensurate_points_data()
    rots = symmetry_rotations(c)
    qs = np.array(data['q_points'])
    pairs = 0
    for i in range(len(qs)):
        for p in pl.get_equivalent_q_points_by_symmetry(qs[i], qp.dynamic.structure):
            for j in range(len(qs)):
                if j < i and np.allclose(qs[j], p, rtol=0, atol=1e-7):
                    pairs += 1
                    ctx.check(related(c, rots, qs[i], qs[j]), lambda: '%s and %s' % (qs[i], qs[j]))
                    for k in ('frequencies', 'linewidths'):
                        ctx.close(np.array(data[k][i]), np.array(data[k][j]), '%s at %s and %s' % (k, qs[i], qs[j]), atol=1e-9)
    # points that are not equivalent keep their own values: with random velocities all frequencies differ
    for i in range(len(qs)):
        for j in range(i):
            if not related(c, rots, qs[i], qs[j]):
                same = np.abs(np.array(data['linewidths'][i]) - np.array(data['linewidths'][j]))
                big = (np.array(data['linewidths'][i]) != 0) | (np.array(data['linewidths'][j]) != 0)
                ctx.check(not big.any() or same[big].max() > 1e-12,
                          lambda: '%s and %s are not equivalent but have the same linewidths' % (qs[i], qs[j]))
    ctx.nontrivial(pairs > 0)


SUBS = [Sub('equivalents', strategy, run, quick=300, thorough=8000, shards=4, tshards=4),
        Sub('average', spectra_strategy, run_spectra, quick=120, thorough=2000, shards=4, tshards=4),
        Sub('shared', share_strategy, run_share, quick=70, thorough=1000, shards=4, tshards=4)]
