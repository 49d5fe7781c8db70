"""P29: phonon dispersion bands and mesh data."""
import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub, quiet
from checks.P18 import evolve

PROPERTY = 'P29'
RULE = ('random crystals, force constants, supercells and runs of decaying phonons; random paths (commensurate or not, '
        'with repeated points, one or several segments, labels or none), resolutions and meshes; every branch is compared '
        'with phonopy run directly on the force constants; non-trivial when linewidths are asked or there are several '
        'segments')
ASSUMPTIONS = ['phonopy itself, called directly, gives the frequencies at a wave vector for given force constants']


def base():
    return {
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I', 'F'), lo=350, hi=600),
        'dim': gen.dims(1, 2, 2), 'seed': gen.seeds(), 'symmetry': st.booleans(), 'shift': st.integers(-12, 10),
        'invert': st.sampled_from([False, False, False, True]), 'gamma': st.integers(120, 180), 'slope': st.integers(0, 6), 'fcsymm': st.sampled_from([False, False, True])}


def uneven():
    """crystals and supercells where symmetrized force constants are different ones"""
    return {'crystal': gen.crystal_spec(max_atoms=1, kinds=('cubic', 'tetra', 'hex'), lo=350, hi=600), 'symmetry': st.sampled_from([False, False, True]),
            'dim': st.sampled_from([[2, 1, 1], [1, 2, 1], [2, 2, 1]]), 'fcsymm': st.sampled_from([True, True, False])}


def build(case, **par):
    """A calculation on a run of phonons of known frequency and linewidth; None if the crystal does not suit."""
    import dynaphopy
    from dynaphopy.dynamics import Dynamics
    c = gen.build_crystal(case['crystal'])
    dim = case['dim']
    # force constants of a larger supercell than that of the run
    fcdim = [n * 2 if i == case['wide'] else n for i, n in enumerate(dim)] if case.get('wide') is not None else dim
    qp, _, _ = calc.quasiparticle(c, dim, nstep=2, seed=case['seed'], fcdim=fcdim)
    every = calc.commensurate_reference(c, dim)
    fc = gen.spring_force_constants(c, fcdim, case['seed'] % 97)
    fmax = phonopy_frequencies(c, fcdim, fc, every).max()
    if fmax < 1:
        return None
    if fmax > 15:
        from dynaphopy.interface.phonopy_link import ForceConstants
        fc = fc * (15 / fmax) ** 2
        s = qp.dynamic.structure
        s.set_force_constants(ForceConstants(fc, supercell=np.diag(fcdim)))
        qp = dynaphopy.Quasiparticle(Dynamics(structure=s, velocity=qp.dynamic.velocity, time=np.arange(2.), trajectory=
                                              qp.dynamic.trajectory, supercell=np.diag(dim).dot(c.cell)))
    dt, n = 0.02, 600
    x, s = case['shift'] / 100., case['slope'] / 1000.
    fmax = min(fmax, 15)
    # harmonic order kept, reversed, or (2) with the upper branches below the others
    v = evolve(qp, c, dim, every, n, dt, lambda f: (f * 1.1 if f < 0.6 * fmax else 0.35 * f) if case['invert'] == 2 else
               1.1 * fmax - f if case['invert'] else f * (1 + x) - s * f * f / 2,
               lambda f: case['gamma'] / 100. * (1 + 0.3 * np.sin(f)), case['seed'])
    pos, idx = gen.supercell_positions(c, dim)
    d = Dynamics(structure=qp.dynamic.structure, velocity=v.astype(complex), time=np.arange(n) * dt,
                 trajectory=np.repeat(pos[None], n, 0).astype(complex), supercell=np.diag(dim).dot(c.cell))
    one = dynaphopy.Quasiparticle(d)
    p = one.parameters
    p.use_symmetry = case['symmetry']
    p.mesh_phonopy = (4, 4, 4)
    p.silent = True
    p.spectrum_resolution = 0.08
    p.symmetrize = case['fcsymm']
    p.use_MD_cell_commensurate = fcdim is not dim
    for k, w in par.items():
        setattr(p, k, w)
    one.select_power_spectra_algorithm(3)
    one.harmonic = fc
    return c, dim, one


def phonopy(c, dim, fc):
    from phonopy import Phonopy
    from phonopy.structure.atoms import PhonopyAtoms
    ph = Phonopy(PhonopyAtoms(symbols=c.elements, scaled_positions=c.scaled, cell=c.cell), np.diag(dim),
                 primitive_matrix=c.primitive_matrix)
    ph.force_constants = np.array(fc)
    return ph


def phonopy_frequencies(c, dim, fc, qs):
    ph = phonopy(c, dim, fc)
    ph.run_qpoints(np.array(qs))
    return np.array(ph.get_qpoints_dict()['frequencies'])


def overlap(c, dim, qs, H, fc, B, fc2):
    """Overlap of the eigenvectors of the branches H and B along the path, and the best of all orders of B; None where modes are degenerate"""
    from scipy.optimize import linear_sum_assignment
    metric = 0
    modes = []
    for F, force in ((H, fc), (B, fc2)):
        ph = phonopy(c, dim, force)
        ph.run_qpoints(np.array(qs), with_eigenvectors=True)
        d = ph.get_qpoints_dict()
        f, e = np.array(d['frequencies']), np.array(d['eigenvectors'])
        if f.shape[1] > 1 and np.diff(np.sort(f, axis=1), axis=1).min() < 2e-2:
            return None, None
        modes.append([e[k][:, [np.abs(f[k] - F[b, k]).argmin() for b in range(len(F))]] for k in range(len(qs))])
    for x, y in zip(*modes):
        metric = metric + np.abs(x.conj().T.dot(y))
    i, j = linear_sum_assignment(-metric)
    return np.trace(metric), metric[i, j].sum()


def bands_strategy():
    common = dict(base(), turn=st.booleans(), nseg=st.integers(1, 3), labels=st.booleans(), res=st.integers(1, 8),
                  linewidths=st.booleans(), inter=st.booleans(), connect=st.booleans(),
                  commensurate=st.booleans(), chain=st.booleans(), type=st.sampled_from(['list', 'array']), before=st.booleans(),
                  soft=st.sampled_from([False, False, True]))
    some = st.fixed_dictionaries(common)
    # connected branches are worth more where the order of the frequencies changes
    return st.one_of(some, some, st.fixed_dictionaries(dict(common, **uneven()))).map(
        lambda d: dict(d, invert=d['turn']) if d['connect'] and d['linewidths'] else d)


def path(case, c, dim):
    r = gen.rng(case['seed'] + 11)
    qs = calc.commensurate_reference(c, dim)

    def point():
        if case['commensurate']:
            return np.round(qs[r.randint(len(qs))], 6) + r.randint(-1, 2, size=3)
        return np.round(r.uniform(-0.6, 0.6, size=3), 3)
    out = []
    last = point()
    for _ in range(case['nseg']):
        nxt = point()
        while np.abs(nxt - last).max() < 1e-6:
            nxt = nxt + r.randint(-1, 2, size=3)
        out.append([last.tolist(), nxt.tolist()])
        last = nxt if case['chain'] else point()
    return out


def bands(case, ctx):
    got = build(case, band_resolution=case['res'])
    if got is None:
        ctx.event('frequencies do not suit')
        return
    c, dim, qp = got
    from dynaphopy.interface import phonopy_link
    ranges = path(case, c, dim)
    names = ['GAMMA', 'X', 'L', 'M']
    labels = [(names[i % 4], names[(i + 1) % 4]) for i in range(len(ranges))]
    given = [[np.array(a), np.array(b)] for a, b in ranges] if case['type'] == 'array' else ranges
    if case['before']:
        qp.set_band_ranges([[[0, 0, 0], [.5, .5, 0]]])
        qp.get_renormalized_phonon_dispersion_bands()
        with quiet():
            qp.print_phonon_dispersion_bands()
    qp.set_band_ranges({'ranges': given, 'labels': labels} if case['labels'] else list(given))
    data = qp.get_commensurate_points_data()
    if case.get('soft') and not case['before']:
        # overdamped and unstable modes: limits below zero
        ctx.event('limits below zero')
        r = gen.rng(case['seed'] + 31)
        keep = np.array(data['frequencies']) != 0
        factor = r.choice([1, 0.1, 0.03, -0.2], size=keep.shape)
        data = dict(data, frequencies=np.where(keep, data['frequencies'] * factor, 0),
                    linewidths=np.where(keep, r.uniform(0.5, 3, size=keep.shape), 0))
        qp.get_commensurate_points_data = lambda *args, **kwargs: data
    out = qp.get_renormalized_phonon_dispersion_bands(with_linewidths=case['linewidths'], interconnect_bands=case['inter'],
                                                      band_connection=case['connect'])
    ctx.nontrivial(case['linewidths'] or case['nseg'] > 1)
    ctx.event('branches connected' if case['connect'] else 'branches sorted')
    ctx.check(len(out) == len(ranges), '%d segments for %d' % (len(out), len(ranges)))
    fc_r = qp.get_renormalized_force_constants().get_array()
    f, w = np.array(data['frequencies']), np.array(data['linewidths'])
    e, S = data['eigenvectors'], data['fc_supercell']
    lim = {}
    for name, sign in (('linewidth_plus', 1), ('linewidth_minus', -1)):
        lim[name] = phonopy_link.get_renormalized_force_constants(f + sign * w / 2, e, qp.dynamic.structure, S,
                                                                  symmetrize=case['fcsymm']).get_array()
    inv = np.linalg.inv(c.prim)
    last = None
    start = 0.0
    n3 = 3 * c.nprim
    for i, seg in enumerate(out):
        a, b = np.array(ranges[i])
        qs = np.array([a + (b - a) * k / case['res'] for k in range(case['res'] + 1)])
        ctx.close(np.array(seg['q_bounds']['inf'], dtype=float), a, 'start of segment', rtol=1e-12)
        ctx.close(np.array(seg['q_bounds']['sup'], dtype=float), b, 'end of segment', rtol=1e-12)
        if case['labels']:
            ctx.check((seg['labels']['inf'], seg['labels']['sup']) == labels[i], 'labels %s' % (seg['labels'],))
        else:
            ctx.check('labels' not in seg, 'labels invented')
        step = np.linalg.norm(inv.dot(b - a)) / case['res']
        ctx.close(np.array(seg['q_path_distances']), start + step * np.arange(case['res'] + 1), 'distances along the path',
                  rtol=1e-8, atol=1e-9)
        start += step * case['res']

        def branches(name):
            ctx.check(sorted(seg[name]) == sorted('branch_%d' % k for k in range(n3)), 'branches of %s' % name)
            return np.array([seg[name]['branch_%d' % k] for k in range(n3)])

        def compare(name, fc):
            B = branches(name)
            ctx.check(B.shape == (n3, len(qs)), '%s: shape %s' % (name, B.shape))
            ref = phonopy_frequencies(c, dim, fc, qs)
            ctx.close(np.sort(B.T, axis=1), np.sort(ref, axis=1), '%s of segment %d' % (name, i), rtol=1e-5, atol=2e-4)
            return B
        H = compare('harmonic_frequencies', qp.harmonic)
        R = compare('renormalized_frequencies', fc_r)
        ctx.close(branches('frequency_shifts'), R - H, 'frequency shifts', rtol=1e-12, atol=1e-12)
        if case['linewidths']:
            P, M = compare('linewidth_plus', lim['linewidth_plus']), compare('linewidth_minus', lim['linewidth_minus'])
            ctx.close(branches('linewidth'), P - M, 'linewidths', rtol=1e-12, atol=1e-12)
        else:
            P = M = None
            ctx.check('linewidth' not in seg, 'linewidths not asked for')
        # branches go on over the joints of segments
        if case['inter'] and i and np.abs(a - last[0]).max() < 1e-12:
            ctx.event('branches across segments')
            ctx.close(H[:, 0], last[1], 'harmonic branches after the joint at %s' % a, rtol=1e-5, atol=5e-3)
        last = (b, H[:, -1])
        if case['connect']:
            for name, B, fc in (('renormalized frequencies', R, fc_r), ('upper limits', P, lim['linewidth_plus']), ('lower limits', M, lim['linewidth_minus'])):
                if B is not None:
                    got, best = overlap(c, dim, qs, H, qp.harmonic, B, fc)
                    if got is not None:
                        ctx.event('overlap of branches')
                        ctx.check(got > best - 1e-4, lambda: '%s of segment %d belong to other branches than the harmonic ones (overlap %g, possible %g)'
                                  % (name, i, got, best))
        if not case['connect'] and not case['inter']:
            ctx.check(np.all(np.diff(H, axis=0) > -1e-9), 'harmonic branches are not in ascending order')
    # the harmonic bands printed
    with quiet() as text:
        qp.print_phonon_dispersion_bands()
    rows = []
    for line in text.getvalue().splitlines():
        x = line.split()
        if len(x) == 1 + n3:
            try:
                rows.append([float(k) for k in x])
            except ValueError:
                pass
    printed = np.array(rows)
    allq = np.concatenate([[np.array(a) + (np.array(b) - np.array(a)) * k / 30. for k in range(31)] for a, b in ranges])
    ctx.check(printed.shape == (len(allq), n3 + 1), 'printed bands: shape %s, %s expected' % (printed.shape, (len(allq), n3 + 1)))
    ref = phonopy_frequencies(c, dim, qp.harmonic, allq)
    ctx.close(printed[:, 1:], ref, 'printed bands', rtol=1e-6, atol=2e-4)


def mesh_strategy():
    third = st.sampled_from([[3, 1, 1], [1, 3, 1], [1, 1, 3]])
    return st.one_of(
        st.fixed_dictionaries(dict(base(), **dict(uneven(), mesh=st.lists(st.sampled_from([1, 2, 3]), min_size=3, max_size=3)))),
        st.fixed_dictionaries(dict(base(), dim=st.one_of(gen.dims(1, 2, 2), third),
                                   mesh=st.lists(st.sampled_from([1, 2, 3, 4]), min_size=3, max_size=3))),
        st.fixed_dictionaries(dict(base(), dim=third, mesh=st.lists(st.sampled_from([3, 3, 1]), min_size=3, max_size=3),
                                   symmetry=st.just(True), fcsymm=st.just(False))))


def mesh(case, ctx):
    got = build(case)
    if got is None:
        ctx.event('frequencies do not suit')
        return
    c, dim, qp = got
    from dynaphopy.interface import phonopy_link
    data = qp.get_commensurate_points_data()
    qp.parameters.mesh_phonopy = tuple(case['mesh'])
    f, w, e = np.array(data['frequencies']), np.array(data['linewidths']), np.array(data['eigenvectors'])
    lw_fc = phonopy_link.get_renormalized_force_constants(w, e, qp.dynamic.structure, data['fc_supercell'],
                                                          symmetrize=case['fcsymm']).get_array()
    fc_r = qp.get_renormalized_force_constants().get_array()
    points, weights, freq, width = [np.array(x) for x in qp.get_mesh_frequencies_and_linewidths()]
    n3 = 3 * c.nprim
    ctx.check(freq.shape == (len(points), n3) and width.shape == freq.shape and weights.shape == (len(points),),
              'shapes of the mesh data')
    ctx.check(int(weights.sum()) == np.prod(case['mesh']), 'weights add up to %d, not %d' % (weights.sum(), np.prod(case['mesh'])))
    ctx.close(freq, phonopy_frequencies(c, dim, fc_r, points), 'frequencies of the mesh', rtol=1e-5, atol=2e-4)
    ctx.close(np.sort(width, axis=1), phonopy_frequencies(c, dim, lw_fc, points), 'linewidths of the mesh', rtol=1e-5, atol=2e-4)
    qs = np.array(data['q_points'])
    if case['fcsymm'] or not case['symmetry']:
        return
    for k, q in enumerate(points):
        x = qs - q
        m = np.where(np.abs(x - np.round(x)).max(axis=1) < 1e-6)[0]
        if not len(m):
            continue
        ctx.event('commensurate point of the mesh')
        ctx.close(np.sort(freq[k]), np.sort(f[m[0]]), 'frequencies of the mesh at %s' % q, rtol=3e-2, atol=3e-2 * np.abs(f).max())
        if abs(np.array(q)).max() > 1e-6:
            ctx.close(np.sort(width[k]), np.sort(w[m[0]]), 'linewidths of the mesh at %s' % q, rtol=5e-2,
                      atol=5e-2 * np.abs(w).max())
            o = np.argsort(f[m[0]])
            if np.diff(f[m[0]][o]).min(initial=9) > 0.1:
                ctx.event('each linewidth with its frequency')
                ctx.close(width[k], w[m[0]][o], 'linewidths in the order of the frequencies at %s' % q, rtol=5e-2,
                          atol=5e-2 * w.max())
    ctx.nontrivial(len(points) > 1)


def automatic_strategy():
    return st.fixed_dictionaries({'crystal': gen.crystal_spec(max_atoms=2), 'primitive': st.booleans(), 'seed': gen.seeds()})


def automatic(case, ctx):
    """Without bands in the input file: the path of seekpath, in the wave vectors of the primitive cell of the calculation."""
    import warnings
    import seekpath
    warnings.simplefilter('ignore')
    c = gen.build_crystal(case['crystal'])
    qp, _, _ = calc.quasiparticle(c, [1, 1, 1], nstep=2, seed=case['seed'], fc=False, primitive=case['primitive'])
    prim = np.array(c.prim) if case['primitive'] else np.array(c.cell)
    got = qp.get_band_ranges_and_labels()
    kinds = sorted(set(c.elements))
    std = seekpath.get_path((c.cell, c.scaled, [1 + kinds.index(e) for e in c.elements]))
    ctx.check([tuple(x) for x in got['labels']] == [tuple(x) for x in std['path']], 'labels %s instead of %s' % (
        got['labels'], std['path']))
    ctx.check(len(got['ranges']) == len(std['path']), 'number of segments')
    inv, sinv = np.linalg.inv(prim), np.linalg.inv(np.array(std['primitive_lattice']))
    full = np.linalg.inv(np.array(c.prim))
    images = np.array(np.meshgrid(*[[-2, -1, 0, 1, 2]] * 3)).reshape(3, -1).T

    def distance(k, rec):
        """Distance of a Cartesian wave vector to the nearest reciprocal lattice point."""
        g = images.dot(rec.T)
        for _ in range(4):
            d = np.linalg.norm(k[None] - g, axis=1)
            k = k - g[np.argmin(d)]
        return d.min()
    for (a, b), (la, lb) in zip(got['ranges'], std['path']):
        pa, pb = np.array(std['point_coords'][la]), np.array(std['point_coords'][lb])
        ka, kb, ja, jb = inv.dot(a), inv.dot(b), sinv.dot(pa), sinv.dot(pb)
        ctx.close(np.linalg.norm(kb - ka), np.linalg.norm(jb - ja), 'length of the segment %s-%s' % (la, lb), rtol=1e-4)
        for l, k, j in ((la, ka, ja), (lb, kb, jb)):
            ctx.close(np.linalg.norm(k), np.linalg.norm(j), 'length of the wave vector %s' % l, rtol=1e-4, atol=1e-6)
            # the same distance to the origin of the first zone, so that it is a boundary point where it should be
            ctx.close(distance(k, full), distance(j, sinv), 'distance of %s to the reciprocal lattice' % l, rtol=1e-4, atol=1e-6)
    ctx.nontrivial(not np.allclose(prim, std['primitive_lattice'], atol=1e-4))


SUBS = [Sub('bands', bands_strategy, bands, quick=120, thorough=800, shards=5, tshards=5),
        Sub('mesh', mesh_strategy, mesh, quick=80, thorough=500, shards=3, tshards=3),
        Sub('automatic', automatic_strategy, automatic, quick=300, thorough=6000, shards=2, tshards=2)]
