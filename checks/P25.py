"""P25: output files hold what was calculated."""
import os
import re

import numpy as np
import yaml
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub, quiet
from checks import P29

PROPERTY = 'P25'
RULE = ('random crystals, runs, algorithms and frequency ranges: every text and YAML file written is read back with plain '
        'parsers (numpy.loadtxt, yaml.safe_load) and compared with the values in memory; group velocities are compared with '
        'finite differences of the frequencies given by phonopy; non-trivial when two or more files are written')


def curve_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2), 'dim': gen.dims(1, 3, 4), 'n': st.integers(20, 60), 'seed': gen.seeds(),
        'alg': st.sampled_from([0, 1, 2, 3]), 'q': st.lists(st.integers(0, 5), min_size=3, max_size=3),
        'fmin': st.integers(0, 5), 'nfreq': st.integers(3, 40), 'res': st.sampled_from([0.05, 0.1, 0.25, 0.125]),
        'project': st.booleans(), 'scale': st.sampled_from([1e-3, 1., 50.]),
        'files': st.lists(st.sampled_from(['full', 'wave', 'phonon', 'partials', 'vc', 'vq']), min_size=1, max_size=6,
                          unique=True)})


def curves(case, ctx):
    c = gen.build_crystal(case['crystal'])
    qp, u, v = calc.quasiparticle(c, case['dim'], nstep=case['n'], dt=0.01, seed=case['seed'], noise=case['scale'],
                                  number_of_coefficients_mem=8, use_symmetry=False)
    qp.select_power_spectra_algorithm(case['alg'])
    qp.set_spectra_resolution(case['res'])
    qp.set_frequency_limits([case['fmin'], case['fmin'] + case['nfreq'] * case['res']])
    qp.set_reduced_q_vector(np.array(case['q']) / 5.)
    if case['project']:
        qp.set_projection_onto_atom_type(c.nprim - 1)
    d = ctx.tempdir()
    ctx.nontrivial(len(case['files']) > 1)
    for k in case['files']:
        ctx.event(k)
        path = os.path.join(d, k)
        f = np.array(qp.get_frequency_range())
        if k in ('full', 'wave', 'phonon'):
            write = {'full': qp.write_power_spectrum_full, 'wave': qp.write_power_spectrum_wave_vector,
                     'phonon': qp.write_power_spectrum_phonon}[k]
            with quiet() as out:
                write(path)
            want = np.array({'full': qp.get_power_spectrum_full, 'wave': qp.get_power_spectrum_wave_vector,
                             'phonon': qp.get_power_spectrum_phonon}[k]())
            want = want.reshape(len(f), -1)
            got = np.loadtxt(path, ndmin=2)
            ctx.check(got.shape == (len(f), 1 + want.shape[1]), '%s: file of shape %s for %s' % (k, got.shape, want.shape))
            ctx.close(got[:, 0], f, '%s: frequencies in the file' % k, rtol=0, atol=5.1e-5)
            ctx.close(got[:, 1:], want, '%s: spectrum in the file' % k, rtol=1e-9, atol=0)
            if k != 'phonon':
                m = re.search(r'^Total Area .*: *([-+0-9.einf]+) eV', out.getvalue(), re.M)
                ctx.check(m is not None, 'no total area is printed with the %s' % k)
                from scipy.integrate import simpson
                ctx.close(float(m.group(1)), simpson(want[:, 0], x=f), '%s: printed area' % k, rtol=1e-8)
            else:
                ctx.check(want.shape[1] == 3 * c.nprim, 'one column for each phonon')
        elif k == 'partials':
            res = np.array(qp.get_power_spectrum_partials(save_to_file=path))
            got = np.loadtxt(path, ndmin=2)
            ctx.close(got[:, 0], f, 'partials: frequencies in the file', rtol=1e-12, atol=1e-12)
            ctx.close(got[:, 1:], res, 'partials in the file', rtol=1e-12, atol=0)
        elif k == 'vc':
            for atom in range(1, c.nprim + 1):
                qp.save_vc(path, atom)
                got = np.loadtxt(path, dtype=complex, ndmin=2)
                ctx.close(got, np.array(qp.get_vc())[:, atom - 1], 'wave-vector projection of atom %d in the file' % atom,
                          rtol=2e-8, atol=1e-300)
            for atom in (0, c.nprim + 1):
                try:
                    qp.save_vc(path, atom)
                except Exception:
                    continue
                ctx.fail('the projection of atom %d of %d was written' % (atom, c.nprim))
        else:
            qp.save_vq(path)
            ctx.close(np.loadtxt(path, dtype=complex, ndmin=2), np.array(qp.get_vq()), 'phonon projection in the file',
                      rtol=2e-8, atol=1e-300)


def yaml_strategy():
    return st.fixed_dictionaries(dict(P29.base(), files=st.lists(
        st.sampled_from(['data', 'extra', 'data', 'extra', 'mesh', 'bands', 'text']), min_size=1, max_size=4), nseg=st.integers(1, 2),
        labels=st.booleans(), res=st.integers(1, 6), type=st.sampled_from(['list', 'array', 'file', 'seekpath']), invert=st.sampled_from([False, True, 2, 2]),
        mesh=st.lists(st.integers(1, 4), min_size=3, max_size=3), wide=st.sampled_from([None, None, 0, 1, 2])))


def load(ctx, path):
    with open(path) as f:
        try:
            return yaml.safe_load(f)
        except yaml.YAMLError as e:
            ctx.fail('%s is not plain YAML: %s' % (os.path.basename(path), str(e)[:200]))


def plain(ctx, got, want, what):
    """Same structure; numbers with eight decimals."""
    if isinstance(want, dict):
        ctx.check(isinstance(got, dict) and set(got) == set(want), lambda: '%s: %s instead of %s' % (
            what, sorted(got) if isinstance(got, dict) else type(got), sorted(want)))
        for k in want:
            plain(ctx, got[k], want[k], '%s / %s' % (what, k))
    elif isinstance(want, str):
        ctx.check(got == want, '%s: %r instead of %r' % (what, got, want))
    else:
        try:
            a = np.array(got, dtype=float)
        except (TypeError, ValueError):
            ctx.fail('%s: no numbers in the file: %r' % (what, got))
        ctx.close(a, np.array(want, dtype=float), what, rtol=1e-12, atol=5.1e-9)


def group_velocity(ctx, c, dim, fc, q, got, freq):
    """Group velocities by phonopy (in the order of its frequencies) against those listed with the frequencies `freq`."""
    from phonopy import Phonopy
    from phonopy.structure.atoms import PhonopyAtoms
    ph = Phonopy(PhonopyAtoms(symbols=c.elements, scaled_positions=c.scaled, cell=c.cell), np.diag(dim),
                 primitive_matrix=c.primitive_matrix)
    ph.force_constants = np.array(fc)
    f0 = P29.phonopy_frequencies(c, dim, fc, [q])[0]
    want = np.array(ph.get_group_velocity_at_q(np.array(q)))
    gap = np.min(np.abs(f0[:, None] - f0[None]) + 9 * np.eye(len(f0)), axis=1)
    order = np.argsort(freq)
    if np.abs(freq).min() < 0.3 or not np.allclose(freq[order], f0, atol=0.05):
        return
    for k, m in enumerate(order):
        if gap[k] > 0.15:
            ctx.event('group velocity' if m == k else 'group velocity, changed order')
            ctx.close([got[m][x] for x in 'xyz'], want[k], 'group velocity of mode %d at %s' % (m, q), rtol=1e-4, atol=1e-4)


def yamls(case, ctx):
    got = P29.build(case, band_resolution=case['res'], save_renormalized_frequencies=True)
    if got is None:
        ctx.event('no force')
        return
    c, dim, qp = got
    if case.get('wide') is not None:
        ctx.event('force constants of a larger supercell')
    d = ctx.tempdir()
    os.chdir(d)
    qp.get_commensurate_points_data()
    qp.parameters.mesh_phonopy = tuple(case['mesh'])
    r = gen.rng(case['seed'] + 3)
    ranges = [np.round(r.uniform(-.5, .5, size=(2, 3)), 3) for _ in range(case['nseg'])]
    labels = [('G%d' % i, 'X') for i in range(case['nseg'])]
    if case['type'] == 'list':
        qp.set_band_ranges({'ranges': [x.tolist() for x in ranges], 'labels': labels} if case['labels'] else
                           [x.tolist() for x in ranges])
    elif case['type'] == 'array':
        qp.set_band_ranges({'ranges': ranges, 'labels': labels} if case['labels'] else list(ranges))
    elif case['type'] == 'file':
        from dynaphopy.interface.iofile import read_parameters_from_input_file
        with open('input', 'w') as f:
            f.write('BANDS\n' + ''.join('%g, %g, %g   %g, %g, %g%s\n' % (tuple(x.ravel()) + (' : %s, %s' % l if case['labels'] else
                                                                                            '',)) for x, l in zip(ranges, labels)))
        qp.parameters.get_data_from_dict(read_parameters_from_input_file('input'))
    ctx.nontrivial(len(case['files']) > 1)
    for i, k in enumerate(case['files']):
        path = os.path.join(d, '%s%d.yaml' % (k, i))
        ctx.event(k)
        data = qp.get_commensurate_points_data()
        if k in ('data', 'extra'):
            qp.write_quasiparticles_data(path, with_extra=k == 'extra')
            out = load(ctx, path)
            data = qp.get_commensurate_points_data()
            qs = calc.commensurate_reference(c, dim)
            ctx.check(isinstance(out, list) and len(out) == len(qs), '%d wave vectors written' % len(out))
            for j, o in enumerate(out):
                o = dict(o)
                gv = o.pop('group_velocity', None)
                ctx.check((gv is not None) == (k == 'extra'), 'group velocities %s' % ('missing' if gv is None else 'not asked for'))
                plain(ctx, o, {'reduced_wave_vector': data['q_points'][j], 'frequencies': data['frequencies'][j],
                               'linewidths': data['linewidths'][j], 'frequency_shifts': data['frequency_shifts'][j]},
                      'quasiparticle data of %s' % data['q_points'][j])
                if gv is not None:
                    ctx.check(len(gv) == 3 * c.nprim and all(set(g) == set('xyz') for g in gv), 'group velocities: %s' % gv)
                    group_velocity(ctx, c, dim, qp.get_renormalized_force_constants().get_array(), np.array(data['q_points'][j]),
                                   gv, np.array(data['frequencies'][j]))
        elif k == 'mesh':
            qp.write_mesh_data(path)
            out = load(ctx, path)
            points, weights, freq, width = [np.array(x) for x in qp.get_mesh_frequencies_and_linewidths()]
            ctx.check(len(out) == len(points), '%d points of the mesh written' % len(out))
            for j, o in enumerate(out):
                plain(ctx, o, {'reduced_wave_vector': points[j], 'frequencies': freq[j], 'linewidths': width[j],
                               'multiplicity': weights[j]}, 'mesh data of %s' % points[j])
                ctx.check(type(o['multiplicity']) is int, 'multiplicity is no integer')
        elif k == 'bands':
            qp.write_renormalized_phonon_dispersion_bands(path)
            out = load(ctx, path)
            want = qp.get_renormalized_phonon_dispersion_bands(with_linewidths=True, band_connection=True)
            ctx.check(len(out) == len(want), '%d segments written' % len(out))
            for j, (a, b) in enumerate(zip(out, want)):
                plain(ctx, a, b, 'band segment %d' % j)
            if case['type'] != 'seekpath':
                ctx.close([[x['q_bounds']['inf'], x['q_bounds']['sup']] for x in out], ranges, 'ends of the segments', rtol=1e-5,
                          atol=1e-5)
        else:
            ctx.close(np.loadtxt('renormalized_frequencies', ndmin=2), data['frequencies'], 'renormalized frequencies file',
                      rtol=1e-12, atol=1e-12)


SUBS = [Sub('curves', curve_strategy, curves, quick=200, thorough=4000, shards=4, tshards=4),
        Sub('yaml', yaml_strategy, yamls, quick=100, thorough=800, shards=4, tshards=4)]
