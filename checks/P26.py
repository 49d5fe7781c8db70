"""P26: the command line does what its options say."""
import os
import re

import numpy as np
import yaml
from hypothesis import strategies as st

from vlib import calc, files, gen
from vlib.core import Sub, quiet, reset_globals
from checks import P29

PROPERTY = 'P26'
RULE = ('random crystals and runs stored in files; the dynaphopy script is run with random sets of options and its files and printed '
        'tables are compared with those of the corresponding calls of the library on the generated arrays, one new calculation for each '
        'output; non-trivial when three or more options are given')
ASSUMPTIONS = ['library calls behave as decided by the other properties']

SETTINGS = ['q', 'r', 'n', 'psm', 'cf', 'project', 'no_symmetry', 'resolution', 'read_from', 'read_to', 'memmap', 'symprec',
            'MD_commensurate', 'velocity_only', 'temperature', 'fitting']
OUTPUTS = ['sd', 'sw', 'sp', 'partials', 'vq', 'vc', 'sv', 'svc', 'sad', 'adp', 'average', 'pa']


def strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I', 'F')), 'dim': gen.dims(1, 3, 4), 'n': st.integers(26, 46),
        'seed': gen.seeds(), 'source': st.sampled_from(['hdf5', 'hdf5', 'xdatcar', 'xdatcar', 'vc']), 'structure': st.sampled_from(['POSCAR', 'POSCAR', 'OUTCAR']),
        'settings': st.lists(st.sampled_from(SETTINGS), unique=True, max_size=7),
        'outputs': st.lists(st.sampled_from(OUTPUTS), unique=True, min_size=1, max_size=4),
        'q': st.lists(st.sampled_from(['0', '1/2', '1/3', '0.25', '1', '-0.5', '2/3']), min_size=3, max_size=3),
        'r': st.tuples(st.integers(0, 4), st.integers(5, 12)).map(list), 'last': st.integers(14, 46), 'psm': st.sampled_from([0, 1, 2, 3]),
        'cf': st.integers(3, 5), 'res': st.sampled_from([0.125, 0.25, 0.5]), 'from': st.integers(1, 6), 'cut': st.integers(0, 5),
        'dir': st.lists(st.sampled_from(['1', '0', '1/2', '-1', '2']), min_size=3, max_size=3).filter(lambda x: set(x) != {'0'}),
        'fit': st.sampled_from([0, 1]), 'shuffled': st.sampled_from([False, False, True])})


def as_written(m):
    """The numbers as the input file holds them: the tetrahedron method chooses between equal diagonals by rounding."""
    return np.array([[float('%.15f' % x) for x in r] for r in m])


def read_text(path):
    with open(path) as f:
        return f.read()


def same_h5(ctx, a, b, what, rtol=1e-12):
    import h5py
    with h5py.File(a, 'r') as x, h5py.File(b, 'r') as y:
        ctx.check(sorted(x) == sorted(y), '%s: holds %s, expected %s' % (what, sorted(x), sorted(y)))
        for k in x:
            ctx.close(np.array(x[k]), np.array(y[k]), '%s: %s' % (what, k), rtol=rtol, atol=1e-12)


def write_case(case, c, d, pos, u, v, dt, fc):
    from phonopy.file_IO import write_FORCE_CONSTANTS
    idx = gen.supercell_positions(c, case['dim'])[1]
    S = np.diag(case['dim']).dot(c.cell)
    if case['structure'] == 'POSCAR':
        with open(os.path.join(d, 'POSCAR'), 'w') as f:
            f.write(files.poscar(c.cell, c.elements, c.scaled, fmt='%22.15f'))
    else:
        with open(os.path.join(d, 'OUTCAR'), 'w') as f:
            f.write(files.outcar(c.cell, c.elements, [gen.MASSES[e] for e in c.elements], c.scaled, c.positions))
    write_FORCE_CONSTANTS(fc, filename=os.path.join(d, 'FC'))
    with open(os.path.join(d, 'input'), 'w') as f:
        f.write('STRUCTURE FILE %s\n%s\n\nFORCE CONSTANTS\nFC\n\n' % (case['structure'], case['structure']))
        f.write('PRIMITIVE MATRIX\n' + '\n'.join(' '.join('%.15f' % x for x in r) for r in c.primitive_matrix) + '\n\n')
        f.write('SUPERCELL MATRIX\n' + '\n'.join(' '.join('%d' % x for x in r) for r in np.diag(case['dim'])) + '\n\n')
        f.write('MESH PHONOPY\n4 4 4\n')
    if case['source'] == 'xdatcar':
        with open(os.path.join(d, 'XDATCAR'), 'w') as f:
            f.write(files.xdatcar(S, [c.elements[i] for i in idx], (pos + u).dot(np.linalg.inv(S)), fmt='%20.15f'))
        with open(os.path.join(d, 'XDATCAR_given'), 'w') as f:
            # any order of the atoms, which --auto_order finds
            perm = gen.rng(case['seed'] + 5).permutation(len(pos)) if case['shuffled'] else np.arange(len(pos))
            f.write(files.xdatcar(S, [c.elements[idx[i]] for i in perm], (pos + u)[:, perm].dot(np.linalg.inv(S)), fmt='%20.15f'))


def sort_elements(c):
    o = sorted(range(len(c.elements)), key=lambda i: c.elements[i])
    c.elements = [c.elements[i] for i in o]
    c.scaled, c.ptype = c.scaled[o], np.array(c.ptype)[o]
    c.positions = c.scaled.dot(c.cell)
    # types are numbered in the order of the atoms
    seen = []
    for t in c.ptype:
        if t not in seen:
            seen.append(t)
    c.ptype = np.array([seen.index(t) for t in c.ptype])


def run(case, ctx):
    import dynaphopy
    import h5py
    from dynaphopy.dynamics import Dynamics
    from dynaphopy.interface import iofile
    from dynaphopy.interface.phonopy_link import get_force_constants_from_file
    c = gen.build_crystal(case['crystal'])
    sort_elements(c)
    dim, n, dt = case['dim'], case['n'], 0.02
    pos, idx = gen.supercell_positions(c, dim)
    S = np.diag(dim).dot(c.cell)
    u, v = gen.smooth_displacements(case['seed'], n, len(pos), 0.1, dt)
    v = v + 0.2 * gen.rng(case['seed'] + 1).normal(size=v.shape)
    fc = gen.spring_force_constants(c, dim, case['seed'] % 97)
    d = ctx.tempdir()
    os.environ['DYNAPHOPY_TEMPDIR'] = ctx.tempdir()
    os.chdir(d)
    write_case(case, c, d, pos, u, v, dt, fc)
    sets, outs = list(case['settings']), list(case['outputs'])
    if case['source'] == 'hdf5':
        with h5py.File('run.h5', 'w') as f:
            f['trajectory'], f['velocity'] = (pos + u).astype(complex), v.astype(complex)
            f['time'], f['super_cell'] = np.arange(n) * dt, np.array(dim)
        source = ['-lv', 'run.h5']
    elif case['source'] == 'xdatcar':
        source = ['XDATCAR_given', '-ts', repr(dt)] + (['--auto_order'] if case['shuffled'] else [])
        if case['shuffled']:
            ctx.event('order of the atoms found')
    velocity_only = 'velocity_only' in sets and case['source'] == 'hdf5'
    first = case['from'] if 'read_from' in sets else 1
    last = n - case['cut'] if 'read_to' in sets else None
    if velocity_only or case['source'] == 'vc':
        outs = [k for k in outs if k not in ('sad', 'adp', 'average')]
    if case['source'] == 'xdatcar':
        sets = [k for k in sets if k != 'memmap']      # not available for this file
    stored_q = None
    if case['source'] == 'vc':
        outs = [k for k in outs if k in ('sw', 'sp', 'vq', 'vc', 'pa')]
        sets = [k for k in sets if k not in ('q', 'n', 'no_symmetry', 'project')]
    if not outs:
        return

    def structure():
        if case['structure'] == 'POSCAR':
            s = iofile.read_from_file_structure_poscar('POSCAR')
        else:
            s = iofile.read_from_file_structure_outcar('OUTCAR')
        s.set_primitive_matrix(as_written(c.primitive_matrix))
        s.set_force_constants(get_force_constants_from_file('FC', fc_supercell=np.diag(dim)))
        return s

    def dynamics():
        w = slice(first - 1, last)
        if case['source'] == 'xdatcar':
            return iofile.get_trajectory_parser('XDATCAR')('XDATCAR', structure(), dt, initial_cut=first, end_cut=last)
        k = {} if velocity_only else {'trajectory': (pos + u)[w].astype(complex)}
        return Dynamics(structure=structure(), velocity=v[w].astype(complex), time=(np.arange(n) * dt)[w], supercell=S, **k)

    if case['source'] == 'vc':
        reset_globals()
        one = dynaphopy.Quasiparticle(Dynamics(structure=structure(), velocity=v.astype(complex), time=np.arange(n) * dt, supercell=S))
        stored_q = np.array([0.5, 0, 1. / 3])
        one.set_reduced_q_vector(stored_q)
        vc_all = np.array(one.get_vc())
        with h5py.File('vc.h5', 'w') as f:
            f['vc'], f['reduced_q_vector'] = vc_all, stored_q
            f['time'], f['super_cell'] = np.arange(n) * dt, np.array(dim)
        source = ['-lv', 'vc.h5']
    argv = ['input'] + source + ['--silent']
    text_options = {
        'q': ['-q'] + case['q'], 'r': ['-r'] + case['r'], 'n': ['-n', case['last']], 'psm': ['-psm', case['psm']], 'cf': ['-cf', case['cf']],
        'project': ['--project_on_atom', c.nprim - 1], 'no_symmetry': ['--no_symmetry'], 'resolution': ['--resolution', case['res']],
        'read_from': ['--read_from', first], 'read_to': ['--read_to', last], 'memmap': ['--memmap'], 'symprec': ['--symprec', '1e-3'],
        'MD_commensurate': ['--MD_commensurate'], 'velocity_only': ['--velocity_only'], 'temperature': ['--temperature', '450.5'],
        'fitting': ['--fitting_function', case['fit']]}
    # few coefficients unless given: the run is short
    for k in sets:
        argv += text_options[k]
    if 'cf' not in sets:
        argv += ['-cf', 4]
    if 'r' not in sets:
        argv += ['-r', 0, 10]
    atom = 1 + case['seed'] % c.nprim
    out_options = {'sd': ['-sd', 'o_sd'], 'sw': ['-sw', 'o_sw'], 'sp': ['-sp', 'o_sp'], 'partials': ['--save_power_spectrum_partials', 'o_partials'],
                   'vq': ['--save_vq', 'o_vq'], 'vc': ['--save_vc', 'o_vc', atom], 'sv': ['-sv', 'o_sv'], 'svc': ['-svc', 'o_svc'],
                   'sad': ['-sad'] + case['dir'] + ['o_sad'], 'adp': ['-adp'], 'average': ['-average'], 'pa': ['-pa']}
    for k in outs:
        argv += out_options[k]
    ctx.event(case['source'])
    for k in sets + outs:
        ctx.event(k)
    ctx.nontrivial(len(sets) + len(outs) > 2)
    code, text = calc.run_script('dynaphopy', argv, d)
    ctx.check(code == 0, lambda: 'dynaphopy %s ended with code %s: %s' % (' '.join(map(str, argv)), code, text[-600:]))

    def calculation():
        reset_globals()
        if case['source'] == 'vc':
            w = slice(first - 1, last)
            one = dynaphopy.Quasiparticle(Dynamics(structure=structure(), time=(np.arange(n) * dt)[w], supercell=S), vc=vc_all[w])
            one.parameters.reduced_q_vector = stored_q
            one.parameters.use_symmetry = False
        else:
            one = dynaphopy.Quasiparticle(dynamics(), last_steps=case['last'] if 'n' in sets else None)
        p = one.parameters
        p.silent = True
        p.mesh_phonopy = [4, 4, 4]
        if 'symprec' in sets:
            p.symprec = 1e-3
        if 'no_symmetry' in sets:
            p.use_symmetry = False
        if 'project' in sets:
            one.set_projection_onto_atom_type(c.nprim - 1)
        if 'resolution' in sets:
            one.set_spectra_resolution(case['res'])
        if 'q' in sets:
            from fractions import Fraction
            one.set_reduced_q_vector(np.array([float(Fraction(x)) for x in case['q']]))
        if 'fitting' in sets:
            one.select_fitting_function(case['fit'])
        if 'psm' in sets:
            one.select_power_spectra_algorithm(case['psm'])
        one.set_number_of_mem_coefficients(case['cf'] if 'cf' in sets else 4)
        one.set_frequency_limits([float(x) for x in case['r']] if 'r' in sets else [0., 10.])
        return one
    for k in outs:
        one = calculation()
        api = {'sd': lambda: one.write_power_spectrum_full('r_sd'), 'sw': lambda: one.write_power_spectrum_wave_vector('r_sw'),
               'sp': lambda: one.write_power_spectrum_phonon('r_sp'), 'partials': lambda: one.get_power_spectrum_partials(save_to_file='r_partials'),
               'vq': lambda: one.save_vq('r_vq'), 'vc': lambda: one.save_vc('r_vc', atom),
               'sv': lambda: one.save_velocity_hdf5('r_sv', save_trajectory='velocity_only' not in sets), 'svc': lambda: one.save_vc_hdf5('r_svc'),
               'sad': lambda: one.write_atomic_displacements([float(eval(x)) for x in case['dir']], 'r_sad'),
               'adp': one.get_anisotropic_displacement_parameters, 'average': one.get_average_atomic_positions,
               'pa': one.phonon_individual_analysis}[k]
        with quiet() as out:
            api()
        if k in ('adp', 'average', 'pa'):
            want = out.getvalue().strip()
            if k == 'pa':                       # after the remarks of the first use
                want = want[want.find('Peak #'):] if 'Peak #' in want else ''
                if not want:
                    ctx.event('no peaks')
                    continue
            ctx.check(len(want) > 10, 'nothing printed by the library for %s' % k)
            tables(ctx, text, want, k)
        elif k in ('sv', 'svc'):
            same_h5(ctx, 'o_' + k, 'r_' + k, k, rtol=1e-9)
        elif k in ('vq', 'vc'):
            a, b = [np.loadtxt(x + k, dtype=complex, ndmin=2) for x in ('o_', 'r_')]
            ctx.close(a, b, k, rtol=1e-6, atol=1e-7 * np.abs(b).max())
        else:
            a, b = [np.loadtxt(x + k, ndmin=2) for x in ('o_', 'r_')]
            ctx.check(np.array_equal(np.isnan(a), np.isnan(b)), 'file of ' + k)
            a, b = np.nan_to_num(a), np.nan_to_num(b)          # the direct algorithm has no result for very short runs
            ctx.close(a, b, 'file of ' + k, rtol=1e-6, atol=1e-9 * np.abs(b[:, 1:]).max())


def numbers(line):
    out = []
    for w in line.replace(':', ' ').split():
        try:
            out.append(float(w))
        except ValueError:
            pass
    return out


def tables(ctx, text, want, what, rtol=1e-4):
    """Every line printed by the library is printed by the script too, in the same order (numbers up to rounding)."""
    lines = [l.rstrip() for l in text.splitlines()]
    i = 0
    for l in want.splitlines():
        l = l.rstrip()
        if not l or l.startswith(('MD cell size relation', 'Using', 'Note', 'Warning', 'Calculating', 'Trajectory', 'Projecting', 'set ')):
            continue            # remarks of the first use
        x = numbers(l)
        words = [w for w in l.split() if not numbers(w)]
        while i < len(lines):
            m = lines[i]
            i += 1
            if m == l:
                break
            y = numbers(m)
            if x and len(x) == len(y) and [w for w in m.split() if not numbers(w)] == words and np.allclose(x, y, rtol=rtol, atol=2e-6,
                                                                                                           equal_nan=True):
                break
        else:
            ctx.fail('%s: the script does not print "%s"' % (what, l))


def quasi_strategy():
    common = dict(
        P29.base(), gamma=st.integers(120, 180), MD=st.booleans(), fit=st.sampled_from([0, 0, 2]), extra=st.booleans(),
        outputs=st.lists(st.sampled_from(['sdata', 'smesh', 'bands', 'sfc', 'renorm', 'thm', 'thm_full', 'thm_ref']), unique=True, min_size=1,
                         max_size=3), qha=st.sampled_from([None, None, -3, 2]), normalize=st.booleans(), T=st.sampled_from([None, 300., 77.]),
        project=st.sampled_from([False, False, True]), labels=st.booleans())
    # where symmetrized force constants are different ones
    uneven = dict(common, **dict(P29.uneven(),
                  outputs=st.lists(st.sampled_from(['sfc', 'thm', 'bands']), unique=True, max_size=1).map(lambda x: ['sfc'] + [k for k in x if k != 'sfc'])))
    tables = dict(common, outputs=st.permutations(['thm', 'thm_full']).map(list), project=st.booleans())
    return st.one_of(st.fixed_dictionaries(common), st.fixed_dictionaries(common), st.fixed_dictionaries(uneven), st.fixed_dictionaries(tables))


def quasi(case, ctx):
    import dynaphopy
    import h5py
    from phonopy.file_IO import write_FORCE_CONSTANTS
    from dynaphopy.interface import iofile
    from dynaphopy.interface.phonopy_link import get_force_constants_from_file
    got = P29.build(dict(case, fcsymm=False))
    if got is None:
        ctx.event('no force')
        return
    c, dim, qp = got
    d = ctx.tempdir()
    os.chdir(d)
    dyn = qp.dynamic
    S = np.diag(dim).dot(c.cell)
    # element order of the file
    e = c.elements
    if any(e[i] in e[:i] and e[i] != e[i - 1] for i in range(1, len(e))):
        ctx.event('interleaved elements')
    with open('POSCAR', 'w') as f:
        f.write(files.poscar(c.cell, c.elements, c.scaled, fmt='%22.15f'))
    write_FORCE_CONSTANTS(qp.harmonic, filename='FC')
    bands = np.round(gen.rng(case['seed']).uniform(-.5, .5, size=(2, 2, 3)), 3)
    with open('input', 'w') as f:
        f.write('STRUCTURE FILE POSCAR\nPOSCAR\n\nFORCE CONSTANTS\nFC\n\n')
        f.write('PRIMITIVE MATRIX\n' + '\n'.join(' '.join('%.15f' % x for x in r) for r in c.primitive_matrix) + '\n\n')
        f.write('SUPERCELL MATRIX\n' + '\n'.join(' '.join('%d' % x for x in r) for r in np.diag(dim)) + '\n\n')
        f.write('MESH PHONOPY\n4 4 4\n\nBANDS\n' + ''.join('%g, %g, %g  %g, %g, %g%s\n' % (tuple(b.ravel()) + (
            ' : A, B' if case['labels'] else '',)) for b in bands))
    v, t = np.array(dyn.velocity), np.array(dyn.get_time())
    with h5py.File('run.h5', 'w') as f:
        f['velocity'], f['time'], f['super_cell'] = v, t, np.array(dim)
    argv = ['input', '-lv', 'run.h5', '--silent', '-psm', 3, '--resolution', 0.08]
    outs = list(case['outputs'])
    for k, o in (('fcsymm', '--fcsymm'), ('MD', '--MD_commensurate'), ('extra', '--save_extra_properties'), ('normalize', '--normalize_dos')):
        if case[k]:
            argv.append(o)
    if not case['symmetry']:
        argv.append('--no_symmetry')
    if case['fit']:
        argv += ['--fitting_function', case['fit']]
    project = case['project'] and not {'sdata', 'smesh', 'bands', 'sfc', 'renorm'} & set(outs)
    if project:
        argv += ['--project_on_atom', c.nprim - 1]
    if case['T']:
        argv += ['--temperature', case['T']]
    if case['qha']:
        write_FORCE_CONSTANTS(qp.harmonic * (1 + case['qha'] / 100.) ** 2, filename='FCQHA')
        argv += ['--qha_force_constants', 'FCQHA']
    for k in outs:
        argv += {'sdata': ['-sdata'], 'smesh': ['-smesh'], 'bands': ['--save_band_structure', 'o_bands'], 'sfc': ['-sfc', 'o_sfc'],
                 'renorm': ['--save_renormalized_frequencies'], 'thm': ['-thm'], 'thm_full': ['--thm_full'], 'thm_ref': ['-thm', '--thm_reference']}[k]
        ctx.event(k)
    if outs == ['renorm']:
        argv += ['-sdata']
    for k in ('fcsymm', 'MD', 'extra', 'normalize', 'qha', 'T', 'fit'):
        if case[k]:
            ctx.event(k)
    ctx.nontrivial(len(outs) > 1 or case['qha'] is not None or case['fcsymm'])
    code, text = calc.run_script('dynaphopy', argv, d)
    ctx.check(code == 0, lambda: 'dynaphopy %s ended with code %s: %s' % (' '.join(map(str, argv)), code, text[-600:]))

    def calculation():
        reset_globals()
        from dynaphopy.dynamics import Dynamics
        s = iofile.read_from_file_structure_poscar('POSCAR')
        s.set_primitive_matrix(as_written(c.primitive_matrix))
        s.set_force_constants(get_force_constants_from_file('FC', fc_supercell=np.diag(dim)))
        one = dynaphopy.Quasiparticle(Dynamics(structure=s, velocity=v, time=t, supercell=S))
        p = one.parameters
        p.silent, p.symmetrize, p.use_MD_cell_commensurate, p.use_symmetry = True, case['fcsymm'], case['MD'], case['symmetry']
        p.mesh_phonopy = [4, 4, 4]
        one.set_band_ranges({'ranges': [x.tolist() for x in bands], 'labels': [('A', 'B')] * 2} if case['labels'] else [x.tolist() for x in bands])
        one.select_fitting_function(case['fit'])
        one.set_temperature(case['T'])
        if case['qha']:
            one.set_qha_force_constants('FCQHA')
        if project:
            one.set_projection_onto_atom_type(c.nprim - 1)
        one.set_spectra_resolution(0.08)
        one.select_power_spectra_algorithm(3)
        return one
    commensurate = bool({'sdata', 'smesh', 'bands', 'sfc', 'renorm'} & set(outs))
    for k in outs:
        one = calculation()
        if k in ('thm', 'thm_full', 'thm_ref'):
            if commensurate and k != 'thm_ref':
                one.get_commensurate_points_data()          # made before by the other options, with its frequency range
            if 'thm' in outs or 'thm_ref' in outs:
                if k == 'thm_full':
                    with quiet():
                        one.display_thermal_properties(normalize_dos=case['normalize'])
            with quiet() as out:
                one.display_thermal_properties(from_power_spectrum=k == 'thm_full', normalize_dos=case['normalize'],
                                               print_phonopy='thm_ref' in outs)
            rows = [l for l in out.getvalue().splitlines() if any(w in l for w in ('ree energy', 'ntropy', 'Cv', 'otal energy', 'ntegration'))]
            ctx.check(len(rows) >= 3, lambda: 'no table of thermal properties: %s' % out.getvalue()[-500:])
            tables(ctx, text, '\n'.join(rows), k, rtol=1e-3)
        elif k == 'sfc':
            one.write_renormalized_constants('r_sfc')
            a, b = [np.array(read_text(z).split(), dtype=float) for z in ('o_sfc', 'r_sfc')]
            ctx.close(a, b, 'force constants file', rtol=1e-6, atol=1e-6 * np.abs(b[2:]).max())
        elif k == 'renorm':
            data = one.get_commensurate_points_data()
            ctx.close(np.loadtxt('renormalized_frequencies', ndmin=2), data['frequencies'], 'renormalized frequencies file', rtol=1e-6, atol=1e-6)
        else:
            name = {'sdata': 'quasiparticles_data.yaml', 'smesh': 'mesh_data.yaml', 'bands': 'o_bands'}[k]
            {'sdata': lambda: one.write_quasiparticles_data('r_' + k, with_extra=case['extra']), 'smesh': lambda: one.write_mesh_data('r_' + k),
             'bands': lambda: one.write_renormalized_phonon_dispersion_bands('r_' + k)}[k]()
            compare(ctx, yaml.safe_load(read_text(name)), yaml.safe_load(read_text('r_' + k)), name)


def compare(ctx, a, b, what):
    if isinstance(b, dict):
        ctx.check(isinstance(a, dict) and set(a) == set(b), '%s: entries differ' % what)
        for k in b:
            compare(ctx, a[k], b[k], '%s / %s' % (what, k))
    elif isinstance(b, list):
        ctx.check(isinstance(a, list) and len(a) == len(b), '%s: %s entries' % (what, len(a)))
        if b and isinstance(b[0], (int, float)):
            ctx.close(a, b, what, rtol=1e-5, atol=1e-5)
        else:
            for i, (x, y) in enumerate(zip(a, b)):
                compare(ctx, x, y, '%s %d' % (what, i))
    elif isinstance(b, str):
        ctx.check(a == b, '%s: %r instead of %r' % (what, a, b))
    else:
        ctx.close(float(a), float(b), what, rtol=1e-5, atol=1e-5)


def export_strategy():
    return st.fixed_dictionaries({'crystal': gen.crystal_spec(max_atoms=3), 'dim': gen.dims(1, 4, 12), 'kind': st.sampled_from(['vasp', 'lammps']),
                                  'default': st.booleans()})


def export(case, ctx):
    import dynaphopy.generate_cell as generate
    from dynaphopy.interface import iofile
    c = gen.build_crystal(case['crystal'])
    sort_elements(c)
    d = ctx.tempdir()
    os.chdir(d)
    with open('POSCAR', 'w') as f:
        f.write(files.poscar(c.cell, c.elements, c.scaled, fmt='%22.15f'))
    with open('input', 'w') as f:
        f.write('STRUCTURE FILE POSCAR\nPOSCAR\n\nPRIMITIVE MATRIX\n' + '\n'.join(' '.join('%.15f' % x for x in r) for r in c.primitive_matrix) + '\n')
    argv = ['input', '-c_poscar' if case['kind'] == 'vasp' else '-c_lammps', 'out']
    dim = [1, 1, 1] if case['default'] else case['dim']
    if not case['default']:
        argv += ['--dim'] + dim
    code, text = calc.run_script('dynaphopy', argv, d)
    ctx.check(code == 0, lambda: 'dynaphopy %s ended with code %s: %s' % (' '.join(map(str, argv)), code, text[-600:]))
    reset_globals()
    s = iofile.read_from_file_structure_poscar('POSCAR')
    s.set_primitive_matrix(as_written(c.primitive_matrix))
    if case['kind'] == 'vasp':
        want = generate.generate_VASP_structure(s, scaled=True, supercell=dim)
    else:
        want = generate.generate_LAMMPS_structure(s, supercell=dim)
    ctx.check(read_text('out') == want, 'the structure file differs from that of the library')
    ctx.nontrivial(not case['default'])


SUBS = [Sub('settings', strategy, run, quick=600, thorough=5000, shards=5, tshards=5),
        Sub('quasiparticles', quasi_strategy, quasi, quick=80, thorough=800, shards=5, tshards=5),
        Sub('export', export_strategy, export, quick=100, thorough=1500)]
