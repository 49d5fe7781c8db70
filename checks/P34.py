"""P34: force sets, force constants and Born charges."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import calc, files, gen, plots
from vlib.core import Sub, quiet
from checks.P26 import sort_elements
from checks import P30
from checks.P29 import base, build

PROPERTY = 'P34'
RULE = ('random crystals and spring models; forces on the displaced supercells of phonopy (any supercell matrix) are written to FORCE_SETS, '
        'the force constants to FORCE_CONSTANTS, Born charges to BORN; frequencies, eigenvectors, bands, densities of states and thermal '
        'properties of library and scripts are compared with phonopy run on the model itself; non-trivial when the supercell '
        'matrix is not diagonal, or the charges move a frequency')
ASSUMPTIONS = ['phonopy itself, called directly with force constants and charges, gives the frequencies at a wave vector']

MATRICES = [np.diag([1, 1, 1]), np.diag([2, 1, 1]), np.diag([1, 2, 1]), np.diag([1, 1, 2]), np.diag([2, 2, 1]), np.diag([1, 3, 1]),
            [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 1], [0, -1, 1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
            [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[1, 0, 1], [0, 1, 0], [0, 0, 1]], [[2, 1, 0], [0, 1, 0], [0, 0, 1]], [[1, 2, 0], [0, 1, 0], [1, 0, 2]]]


def phonopy(c, M, fc=None, nac=None):
    from phonopy import Phonopy
    from phonopy.structure.atoms import PhonopyAtoms
    p = Phonopy(PhonopyAtoms(symbols=list(c.elements), scaled_positions=c.scaled, cell=c.cell), M, primitive_matrix=c.primitive_matrix)
    if nac is not None:
        p.nac_params = nac
    if fc is not None:
        p.force_constants = np.array(fc)
    return p


def model(case):
    """crystal, supercell matrix, force constants"""
    c = gen.build_crystal(case['crystal'])
    sort_elements(c)
    M = np.array(MATRICES[case['matrix']])
    s = phonopy(c, M).supercell
    fc = gen.springs(c, s.positions, list(s.symbols), s.cell, case['seed'] % 97)
    return c, M, fc


def write_sets(c, M, fc, name, amplitude):
    from phonopy.file_IO import write_FORCE_SETS
    p = phonopy(c, M)
    p.generate_displacements(distance=amplitude)
    d = p.dataset
    for x in d['first_atoms']:
        x['forces'] = -np.einsum('jab,b->ja', fc[:, x['number']], np.array(x['displacement']))
    write_FORCE_SETS(d, filename=name)


def write_structure(c, M, what, extra=''):
    with open('POSCAR', 'w') as f:
        f.write(files.poscar(c.cell, c.elements, c.scaled, fmt='%22.15f'))
    with open('input', 'w') as f:
        f.write('STRUCTURE FILE POSCAR\nPOSCAR\n\n' + what + '\n\n')
        f.write('PRIMITIVE MATRIX\n' + '\n'.join(' '.join('%.15f' % x for x in r) for r in c.primitive_matrix) + '\n\n')
        f.write('SUPERCELL MATRIX\n' + '\n'.join(' '.join('%d' % x for x in r) for r in M) + '\n\n' + extra)


def common():
    return {'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'P', 'C', 'I', 'F'), lo=350, hi=600),
            'matrix': st.integers(0, len(MATRICES) - 1), 'seed': gen.seeds(), 'amplitude': st.sampled_from([0.01, 0.03]),
            'q': st.lists(st.lists(st.integers(-12, 12), min_size=3, max_size=3), min_size=1, max_size=3)}


def same_modes(ctx, ev, f, p, q, what):
    """frequencies and eigenvectors, through the dynamical matrix they make"""
    want = p.get_dynamical_matrix_at_q(q)
    x = np.linalg.eigvalsh(want)
    unit = 15.633302
    ev, f = np.array(ev), np.array(f)
    v = ev.reshape(len(f), -1).T
    ctx.close(v.conj().T.dot(v), np.eye(len(f)), what + ': eigenvectors are orthonormal', rtol=0, atol=1e-8)
    got = (v * (np.sign(f) * (f / unit) ** 2)).dot(v.conj().T)
    ctx.close(got, want, what + ': dynamical matrix at %s' % q, rtol=1e-5, atol=1e-6 * max(1, np.abs(x).max()))


def strategy():
    return st.fixed_dictionaries(dict(common(), source=st.sampled_from(['sets', 'sets', 'constants']), type=st.sampled_from(['list', 'array']),
                                      first=st.sampled_from(['modes', 'bands', 'thermal', 'dos'])))


def run(case, ctx):
    from dynaphopy.interface import phonopy_link as link
    from phonopy.file_IO import write_FORCE_CONSTANTS
    c, M, fc = model(case)
    if np.abs(fc).max() < 1e-3:
        ctx.event('no force')
        return
    d = ctx.tempdir()
    os.chdir(d)
    s = gen.make_structure(c)
    given_M = M.tolist() if case['type'] == 'list' else M
    if case['source'] == 'sets':
        write_sets(c, M, fc, 'forces.dat', case['amplitude'])
        s.set_force_set(link.get_force_sets_from_file('forces.dat', fs_supercell=given_M))
    else:
        write_FORCE_CONSTANTS(fc, filename='forces.dat')
        s.set_force_constants(link.get_force_constants_from_file('forces.dat', fc_supercell=given_M))
    ctx.event(case['source'])
    ctx.nontrivial(np.any(M != np.diag(np.diag(M))))
    p = phonopy(c, M, fc)
    qs = np.array(case['q']) / 12.

    def modes():
        for q in qs:
            ev, f = link.obtain_eigenvectors_and_frequencies(s, q, print_data=False)
            same_modes(ctx, ev, f, p, q, case['source'])

    def bands():
        got = link.obtain_phonon_dispersion_bands(s, [[[0, 0, 0], list(qs[0])]], band_resolution=4)
        want = np.array([p.get_frequencies(qs[0] / 4 * i) for i in range(5)])
        # sign(f) f^2 is what is accurate
        w, g = np.sign(want) * want ** 2, np.array(got[2][0])
        ctx.close(np.sign(g) * g ** 2, w, 'bands', rtol=1e-5, atol=1e-4 * (1 + np.abs(w).max()))

    def thermal():
        got = link.obtain_phonopy_thermal_properties(s, 300, mesh=[2, 2, 2])
        p.run_mesh([2, 2, 2])
        if p.get_mesh_dict()['frequencies'].min() < 0.3:
            return                                          # soft modes have no reliable thermal energy
        p.run_thermal_properties(t_min=300, t_max=300, t_step=1)
        t = p.get_thermal_properties_dict()
        k = len(c.elements) / float(c.nprim)
        ctx.close(got, [t['free_energy'][0] * k, t['entropy'][0] * k, t['heat_capacity'][0] * k], 'thermal properties', rtol=1e-3, atol=1e-2)
        ctx.event('thermal')

    def dos():
        got = link.obtain_phonopy_dos(s, mesh=[3, 3, 3], freq_min=0, freq_max=20, freq_pitch=0.5)
        ctx.check(np.all(np.isfinite(got[1])), 'density of states')
    todo = {'modes': modes, 'bands': bands, 'thermal': thermal, 'dos': dos}
    todo[case['first']]()
    for k in ('modes', 'bands', 'thermal'):
        todo[k]()
    got = s.get_force_constants()
    ctx.check(got is not None, 'the structure has no force constants')
    ctx.close(np.array(got.get_array()), fc, 'force constants', rtol=1e-5, atol=2e-6 * max(1, np.abs(fc).max()))
    ctx.close(np.array(got.get_supercell(), dtype=float), M.astype(float), 'supercell of the force constants', rtol=0)
    ctx.close(np.array(s.get_supercell_phonon(), dtype=float), M.astype(float), 'supercell of the structure', rtol=0)
    link.save_force_constants_to_file(got, filename='saved')
    again = link.get_force_constants_from_file('saved', fc_supercell=M)
    ctx.close(again.get_array(), np.array(got.get_array()), 'force constants written and read', rtol=0, atol=1e-12)


def refused_strategy():
    return st.fixed_dictionaries(dict(common(), other=st.integers(0, len(MATRICES) - 1), script=st.sampled_from(['library', 'script', 'both'])))


def refused(case, ctx):
    from dynaphopy.interface import phonopy_link as link
    from phonopy.file_IO import write_FORCE_CONSTANTS
    c, M, fc = model(case)
    N = np.array(MATRICES[case['other']])
    d = ctx.tempdir()
    os.chdir(d)
    write_sets(c, M, fc, 'FS', case['amplitude'])
    write_FORCE_CONSTANTS(fc, filename='FC')
    match = int(round(abs(np.linalg.det(M)))) == int(round(abs(np.linalg.det(N))))
    ctx.event(case['script'])
    if case['script'] == 'both':
        ctx.nontrivial()
        write_structure(c, M, 'FORCE SETS\nFS\n\nFORCE CONSTANTS\nFC')
        code, text = calc.run_script('dynaphopy', ['input', '--generate_trajectory', 0.01, 0.005, 300, '-sv', 'out.h5', '--silent'], d)
        ctx.check(not os.path.exists('out.h5'), 'force sets and force constants at once were accepted')
        return
    if case['script'] == 'script':
        write_structure(c, N, 'FORCE SETS\nFS')
        if match:
            return
        ctx.nontrivial()
        try:
            code, text = calc.run_script('dynaphopy', ['input', '--generate_trajectory', 0.01, 0.005, 300, '-sv', 'out.h5', '--silent'], d)
        except Exception:
            pass
        ctx.check(not os.path.exists('out.h5'), 'force sets of another supercell were accepted')
        return
    s = gen.make_structure(c)
    s.set_force_set(link.get_force_sets_from_file('FS', fs_supercell=N))
    ctx.nontrivial(not match)
    try:
        with quiet():
            link.obtain_eigenvectors_and_frequencies(s, [0, 0, 0], print_data=False)
    except BaseException:
        ctx.check(not match or np.any(M != N), 'force sets refused')
        return
    ctx.check(match, lambda: 'force sets of supercell %s accepted for %s' % (M.tolist(), N.tolist()))


def write_born(case, p, ctx):
    """A BORN file in the current directory for a crystal of two elements; returns what phonopy needs."""
    from phonopy.structure.symmetry import Symmetry
    prim = p.primitive
    z, e = np.eye(3) * case['z'] / 100., np.eye(3) * case['eps'] / 100.
    sym = Symmetry(prim)
    ops = sym.symmetry_operations['rotations']
    if case['aniso'] and len(ops) <= 2:
        r = gen.rng(case['seed'] + 3)
        z = z + r.uniform(-.3, .3, size=(3, 3))
        x = r.uniform(-.3, .3, size=(3, 3))
        e = e + (x + x.T) / 2
        ctx.event('anisotropic')
    L = prim.cell.T
    cart = [L.dot(w).dot(np.linalg.inv(L)) for w in ops]
    z = np.mean([w.dot(z).dot(w.T) for w in cart], axis=0)
    e = np.mean([w.dot(e).dot(w.T) for w in cart], axis=0)
    first = prim.symbols[0]
    born = np.array([z if s == first else -z for s in prim.symbols])
    with open('BORN', 'w') as f:
        f.write('%.6f\n' % case['factor'])
        f.write(' '.join('%.10f' % x for x in e.ravel()) + '\n')
        for i in sym.get_independent_atoms():
            f.write(' '.join('%.10f' % x for x in born[i].ravel()) + '\n')
    return {'born': born, 'dielectric': e, 'factor': case['factor']}


def nac_strategy():
    return st.fixed_dictionaries(dict(base(), z=st.integers(50, 300), eps=st.integers(150, 900), aniso=st.booleans(),
                                      factor=st.sampled_from([14.399652, 14.4]), order=st.lists(st.booleans(), min_size=2, max_size=5)))


def nac(case, ctx):
    """non-analytical corrections follow their switch"""
    from dynaphopy.interface import phonopy_link as link
    crystal = dict(case['crystal'])
    crystal['elements'] = ['Na', 'O'] if case['seed'] % 2 else ['Ga', 'N']
    got = build(dict(case, crystal=crystal), use_MD_cell_commensurate=False, band_resolution=5)
    if got is None:
        ctx.event('frequencies do not suit')
        return
    c, dim, qp = got
    d = ctx.tempdir()
    os.chdir(d)
    M = np.diag(dim)
    p = phonopy(c, M, qp.harmonic)
    params = write_born(case, p, ctx)
    on = phonopy(c, M, qp.harmonic, params)
    ranges = [[[0.0, 0.0, 0.0], [0.5, 0.0, 0.0]], [[0.1, 0.2, 0.3], [0.0, 0.0, 0.0]]]
    qp.set_band_ranges([[list(a), list(b)] for a, b in ranges])
    r_fc = qp.get_renormalized_force_constants()
    ron = phonopy(c, M, r_fc.get_array(), params)
    roff = phonopy(c, M, r_fc.get_array())

    def reference(ph):
        path = [[np.array(a) + (np.array(b) - a) * i / 5. for i in range(6)] for a, b in ranges]
        ph.run_band_structure(path)
        return [np.array(x) for x in ph.get_band_structure_dict()['frequencies']]
    want = {(k, 'h'): reference(x) for k, x in ((True, on), (False, p))}
    want.update({(k, 'r'): reference(x) for k, x in ((True, ron), (False, roff))})
    ctx.nontrivial(any(np.abs(np.array(a) - b).max() > 0.05 for a, b in zip(want[True, 'h'], want[False, 'h'])))

    def same(got, w, what):
        for x, y in zip(got, w):
            x, y = np.array(x), np.array(y)
            ctx.check(x.shape == y.shape, '%s: shape %s, expected %s' % (what, x.shape, y.shape))
            ctx.close(np.sign(x) * x ** 2, np.sign(y) * y ** 2, what, rtol=1e-5, atol=2e-5 * (1 + np.abs(y).max() ** 2))
    state = bool(qp.parameters.use_NAC)
    for turn, flag in enumerate(case['order']):
        if turn or flag:           # off until it is switched on
            qp.set_NAC(flag)
        name = 'NAC ' + ('on' if flag else 'off')
        b = qp.get_renormalized_phonon_dispersion_bands()
        for seg, h, r in zip(b, want[flag, 'h'], want[flag, 'r']):
            hh = np.array([seg['harmonic_frequencies']['branch_%d' % k] for k in range(h.shape[1])]).T
            rr = np.array([seg['renormalized_frequencies']['branch_%d' % k] for k in range(h.shape[1])]).T
            same([np.sort(hh, 1)], [np.sort(h, 1)], name + ': harmonic bands')
            same([np.sort(rr, 1)], [np.sort(r, 1)], name + ': renormalized bands')
        first = (case['seed'] + turn) % 2      # printed before they are plotted
        if first:
            with quiet() as text:
                qp.print_phonon_dispersion_bands()
        with plots.shown() as windows:
            qp.plot_phonon_dispersion_bands()
        curves = windows[0][0]['axes'][0]['curves']
        ph = on if flag else p
        nb = 3 * c.nprim
        lines = [x for x in curves if x.shape[1] > 2][:2 * nb]
        n = lines[0].shape[1]
        path = [[np.array(a) + (np.array(bb) - a) * i / (n - 1.) for i in range(n)] for a, bb in ranges]
        ph.run_band_structure(path)
        same([np.array([x[1] for x in lines[:nb]]).T, np.array([x[1] for x in lines[nb:]]).T],
             [np.array(x) for x in ph.get_band_structure_dict()['frequencies']], name + ': plotted bands')
        if not first:
            with quiet() as text:
                qp.print_phonon_dispersion_bands()
        rows = numbers(text.getvalue(), nb + 1)
        path = [[np.array(a) + (np.array(bb) - a) * i / 30. for i in range(31)] for a, bb in ranges]
        ph.run_band_structure(path)
        same([np.array(rows)[:, 1:]], [np.concatenate(ph.get_band_structure_dict()['frequencies'])], name + ': printed bands')
        for fc, ph, what in ((None, on if flag else p, 'harmonic'), (r_fc, ron if flag else roff, 'renormalized')):
            kw = {} if fc is None else {'force_constants': fc}
            got = link.obtain_phonopy_thermal_properties(qp.dynamic.structure, 300, mesh=[3, 3, 3], NAC=flag, **kw)
            ph.run_mesh([3, 3, 3])
            if ph.get_mesh_dict()['frequencies'].min() < 0.05:
                continue
            ph.run_thermal_properties(t_min=300, t_max=300, t_step=1)
            t = ph.get_thermal_properties_dict()
            k = len(c.elements) / float(c.nprim)
            ctx.close(got, [t['free_energy'][0] * k, t['entropy'][0] * k, t['heat_capacity'][0] * k], name + ': %s thermal properties' % what,
                      rtol=1e-4, atol=1e-3)
        if turn == case['order'].index(flag):
            printed_properties(ctx, qp, (on if flag else p, ron if flag else roff), len(c.elements) / float(c.nprim), name)
            densities(case, ctx, qp, c, M, flag, r_fc, params, name)


def numbers(text, columns):
    rows = []
    for line in text.splitlines():
        try:
            x = [float(k) for k in line.split()]
        except ValueError:
            continue
        if len(x) == columns:
            rows.append(x)
    return rows


def printed_properties(ctx, qp, both, k, name):
    """the thermal properties of reference in the table"""
    import re
    T = qp.get_temperature()
    want = []
    for ph in both:
        ph.run_mesh(list(qp.parameters.mesh_phonopy))
        if ph.get_mesh_dict()['frequencies'].min() < 0.05:
            ctx.event('unstable on the mesh')
            return
        ph.run_thermal_properties(t_min=T, t_max=T, t_step=1)
        t = ph.get_thermal_properties_dict()
        want.append([t['free_energy'][0] * k, t['entropy'][0] * k, t['heat_capacity'][0] * k])
    with plots.shown(), quiet() as text:
        qp.display_thermal_properties(print_phonopy=True)
    text = text.getvalue()
    text = text[:text.index('[From DoS')]
    for i, label in enumerate(('Free energy', 'Entropy', 'Cv')):
        m = re.search('^' + label + r'[^:]*:(.*)$', text, re.M)
        ctx.check(m is not None, lambda: 'no line %s in %s' % (label, text))
        got = [float(x) for x in m.group(1).split()[:2]]
        ctx.close(got, [w[i] for w in want], '%s: printed %s' % (name, label), rtol=1e-4, atol=1e-3)
    ctx.event('printed thermal properties')


def densities(case, ctx, qp, c, M, flag, r_fc, params, name):
    """densities of states and the thermal properties computed from them"""
    from scipy.integrate import simpson
    from dynaphopy.interface import phonopy_link as link
    from checks.P20 import N_A, mode
    k = len(c.elements) / float(c.nprim)
    pitch, top = 0.5, 25.0

    def density(fc, atom, mesh, low, high, step):
        ph = phonopy(c, M, fc, params if flag else None)
        if atom < 0:
            ph.run_mesh(mesh)
            ph.run_total_dos(freq_min=low, freq_max=high, freq_pitch=step, use_tetrahedron_method=True)
            x, y = ph.total_dos.frequency_points, ph.total_dos.dos
        else:
            ph.run_mesh(mesh, with_eigenvectors=True, is_mesh_symmetry=False)
            ph.run_projected_dos(freq_min=low, freq_max=high)
            x, y = ph.projected_dos.frequency_points, ph.projected_dos.projected_dos[atom]
        return np.array(x), np.array(y) * k

    def steady(fc, *args):
        """the density, where rounding does not move it"""
        x, y = density(fc, *args)
        z = density(fc * (1 + 1e-12), *args)[1]
        return (x, y) if np.abs(y - z).max() < 1e-6 * (1 + np.abs(y).max()) else None
    harmonic, new = np.array(qp.harmonic), r_fc.get_array()
    for atom in [-1, case['seed'] % c.nprim]:
        for fc, what in ((None, 'harmonic'), (r_fc, 'renormalized')):
            args = (atom, [4, 4, 4], 0.1, top, pitch)
            ref = steady(harmonic if fc is None else new, *args)
            if ref is None:
                ctx.event('density depends on rounding')
                continue
            got = link.obtain_phonopy_dos(qp.dynamic.structure, mesh=[4, 4, 4], freq_min=0.1, freq_max=top, freq_pitch=pitch, NAC=flag,
                                          projected_on_atom=atom, **({} if fc is None else {'force_constants': fc}))
            ctx.close(got[0], ref[0], name + ': grid of the density of states', rtol=1e-9)
            ctx.close(got[1], ref[1], '%s: %s density of states, atom %d' % (name, what, atom), rtol=1e-4, atol=1e-4 * (1 + np.abs(ref[1]).max()))
    T = qp.get_temperature()
    for atom in [-1, case['seed'] % c.nprim]:
        qp.set_projection_onto_atom_type(atom) if atom >= 0 else None
        args = (atom, list(qp.parameters.mesh_phonopy), 0.01, qp.get_frequency_range()[-1], qp.parameters.spectrum_resolution)
        refs = [steady(x, *args) for x in (harmonic, new)]
        if any(x is None for x in refs):
            continue

        def four(ref):
            x, y = ref
            U, F, S, C = mode(T, x)
            return np.array([simpson(y * F, x=x) * N_A / 1000, simpson(y * S, x=x) * N_A, simpson(y * C, x=x) * N_A, simpson(y * U, x=x) * N_A / 1000,
                             simpson(y, x=x) / (3 * len(c.elements))])
        a, b = [four(x) for x in refs]
        ctx.close(qp.get_thermal_properties(), a, name + ': harmonic thermal properties from the density of states', rtol=1e-4, atol=1e-4)
        corr = -(b[3] - a[3]) / 2
        ctx.close(qp.get_thermal_properties(force_constants=r_fc), b + np.array([corr, 0, 0, corr, 0]),
                  name + ': renormalized thermal properties from the density of states', rtol=1e-4, atol=1e-4)
        ctx.event('thermal properties from the density')
        grids = [steady(x, atom, list(qp.parameters.mesh_phonopy), None, None, None) for x in (harmonic, new)]
        if any(x is None for x in grids):
            continue
        P30.close()
        with quiet():
            qp.plot_dos_phonopy(force_constants=r_fc)
        curves = [np.array(l.get_data(), dtype=float) for f in P30.figures() for l in f.axes[0].get_lines() if len(l.get_xdata()) > 2]
        P30.close()
        ctx.check(len(curves) == 2, '%s: %d densities of states drawn' % (name, len(curves)))
        for (x, y), (rx, ry), what in zip(curves, grids, ('harmonic', 'renormalized')):
            ctx.close(x, rx, '%s: frequencies of the %s density drawn' % (name, what), rtol=1e-6, atol=1e-6)
            ctx.close(y, ry, '%s: %s density drawn' % (name, what), rtol=1e-3, atol=1e-3 * (1 + np.abs(ry).max()))
        ctx.event('densities drawn')
    qp.parameters.project_on_atom = -1


def script_strategy():
    return st.fixed_dictionaries(dict(common(), source=st.sampled_from(['sets', 'constants']), dim=st.sampled_from([[1, 1, 1], [2, 1, 1], [1, 1, 2]])))


def scripts(case, ctx):
    import h5py
    from phonopy.file_IO import parse_FORCE_CONSTANTS, write_FORCE_CONSTANTS
    c, M, fc = model(case)
    if np.abs(fc).max() < 1e-3:
        ctx.event('no force')
        return
    d = ctx.tempdir()
    os.chdir(d)
    if case['source'] == 'sets':
        write_sets(c, M, fc, 'FORCES', case['amplitude'])
        write_structure(c, M, 'FORCE SETS\nFORCES')
    else:
        write_FORCE_CONSTANTS(fc, filename='FORCES')
        write_structure(c, M, 'FORCE CONSTANTS\nFORCES')
    ctx.event(case['source'])
    ctx.nontrivial(np.any(M != np.diag(np.diag(M))))
    p = phonopy(c, M, fc)
    dim = case['dim']
    n = len(c.elements) * int(np.prod(dim))
    r = gen.rng(case['seed'])
    with h5py.File('run.h5', 'w') as f:
        f.create_dataset('velocity', data=r.normal(size=(20, n, 3)).astype(complex))
        f.create_dataset('time', data=np.arange(20) * 0.01)
        f.create_dataset('super_cell', data=np.array(dim))
    qs = calc.commensurate_reference(c, dim)
    q = qs[r.randint(len(qs))]
    code, text = calc.run_script('dynaphopy', ['input', '-lv', 'run.h5', '--velocity_only', '-q'] + ['%.10f' % x for x in q] + ['-r', 0, 10, '--resolution', 1,
                                               '-sp', 'modes.out', '--silent'], d)
    ctx.check(code == 0, lambda: 'dynaphopy ended with code %s: %s' % (code, text[-500:]))
    at = text.index('Harmonic frequencies (THz):')
    listed = text[at:]
    listed = listed[listed.index('[') + 1:listed.index(']')]
    got = np.array([float(x) for x in listed.split()])
    want = p.get_frequencies(q)
    ctx.close(np.sign(got) * got ** 2, np.sign(want) * want ** 2, 'frequencies printed by dynaphopy', rtol=1e-4, atol=1e-4 * (1 + np.abs(want).max() ** 2))
    # rfc_calc with unchanged frequencies gives the force constants back; its figure draws both
    import yaml
    code, text = calc.run_script('rfc_calc', ['input', '-cp'], d)
    ctx.check(code == 0, lambda: 'rfc_calc -cp ended with code %s: %s' % (code, text[-500:]))
    points = np.array([[float(x) for x in l.strip(' []').split()] for l in text.splitlines() if l.strip().startswith('[')])
    scale = 1 + (case['seed'] % 7) / 10.
    if min(p.get_frequencies(x).min() for x in points) < -1e-2:
        ctx.event('unstable')
        return
    data = [{'reduced_wave_vector': [float(v) for v in x], 'frequencies': [float(v) for v in np.abs(p.get_frequencies(x)) * scale]} for x in points]
    with open('f.yaml', 'w') as f:
        yaml.safe_dump(data, f)
    with open('input', 'a') as f:
        f.write('BANDS\n0.0, 0.0, 0.0    0.5, 0.0, 0.0\n0.5, 0.0, 0.0   0.1, 0.2, 0.3\n')
    with plots.shown() as windows:
        code, text = calc.run_script('rfc_calc', ['input', 'f.yaml', '-s', 'FCOUT', '-p'], d)
    ctx.check(code == 0, lambda: 'rfc_calc ended with code %s: %s' % (code, text[-500:]))
    out = parse_FORCE_CONSTANTS('FCOUT')
    new = phonopy(c, M, out)
    for x in points:
        ctx.close(new.get_dynamical_matrix_at_q(x), p.get_dynamical_matrix_at_q(x) * scale ** 2, 'dynamical matrix of rfc_calc at %s' % x, rtol=1e-4,
                  atol=1e-5 * max(1, np.abs(fc).max()))
    ctx.check(len(windows) == 1 and len(windows[0]) == 1, '%d windows' % len(windows))
    axes = [a for a in windows[0][0]['axes']]
    ctx.check(len(axes) == 1, '%d sets of axes in the figure of the bands' % len(axes))
    curves = [x for x in axes[0]['curves'] if x.shape[1] > 2]
    nb = 3 * c.nprim
    ctx.check(len(curves) == 4 * nb, '%d curves, expected %d' % (len(curves), 4 * nb))
    n = curves[0].shape[1]
    want = []
    for ph in (p, new):
        path = [[np.array(a) + (np.array(b) - np.array(a)) * i / (n - 1.) for i in range(n)] for a, b in (([0, 0, 0], [.5, 0, 0]), ([.5, 0, 0], [.1, .2, .3]))]
        ph.run_band_structure(path)
        b = ph.get_band_structure_dict()
        want += [np.array([b['distances'][k], np.sort(b['frequencies'][k], axis=1)[:, j]]) for k in range(2) for j in range(nb)]
    left = list(range(len(curves)))
    for w in want:
        y = np.sign(w[1]) * w[1] ** 2
        hit = [i for i in left if np.allclose(curves[i][0], w[0], atol=1e-6) and
               np.allclose(np.sign(curves[i][1]) * curves[i][1] ** 2, y, rtol=1e-3, atol=2e-3 * (1 + np.abs(y).max()))]
        ctx.check(hit, lambda: 'no curve of the bands is %s' % w[1])
        left.remove(hit[0])


SUBS = [Sub('forces', strategy, run, quick=120, thorough=3000, shards=2, tshards=4),
        Sub('refused', refused_strategy, refused, quick=60, thorough=1500, shards=1, tshards=2),
        Sub('nac', nac_strategy, nac, quick=32, thorough=800, shards=8, tshards=6),
        Sub('scripts', script_strategy, scripts, quick=50, thorough=1000, shards=2, tshards=4)]
