"""P35: inputs that do not fit are refused."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import calc, files, gen
from vlib.core import Sub, quiet, reset_globals
from checks.P26 import sort_elements

PROPERTY = 'P35'
RULE = ('a valid calculation (library, or script with its files) in which one thing is wrong: missing or unrecognised files, simulation cell that '
        'is no multiple of the unit cell, force constants of another size, atoms, coordinates, algorithms and fits that do not exist, more coefficients than steps; '
        'the call has to stop, no output file may appear, and the calculation goes on as before; non-trivial: one thing is wrong '
        '(the same calculation without it has to work)')

OUTPUTS = {'sd': 'full.out', 'sw': 'wave.out', 'sp': 'modes.out', 'sv': 'data.h5', 'svc': 'vc.h5'}


def stops(f):
    """what the refusal says, or None"""
    try:
        with quiet() as out:
            f()
    except SystemExit as e:
        return 'exit %s' % out.getvalue()[-300:]
    except Exception as e:
        return repr(e)
    return None


def spoiled(case, S):
    """A simulation cell that is no multiple of the unit cell (or, as much, within the accepted tolerance)."""
    S = np.array(S)
    k = case['axis']
    f = np.ones(3)
    f[k] = 1 + case['spoil'] / 100. * (1 if case['up'] else -1)
    return np.diag(f).dot(S)


LIBRARY = ['cell', 'fc', 'algorithm', 'fit', 'projection', 'coordinate', 'bands', 'no forces', 'coefficients']


def library_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=3, centerings=('P', 'C', 'I', 'F')), 'dim': gen.dims(1, 3, 4), 'seed': gen.seeds(),
        'what': st.sampled_from(LIBRARY), 'axis': st.integers(0, 2), 'spoil': st.integers(8, 40), 'up': st.booleans(),
        'k': st.integers(0, 5), 'use': st.sampled_from(['full', 'wave', 'modes', 'displacements', 'average'])})


def use(qp, name):
    return {'full': qp.get_power_spectrum_full, 'wave': qp.get_power_spectrum_wave_vector, 'modes': qp.get_power_spectrum_phonon,
            'displacements': lambda: qp.dynamic.get_relative_trajectory(), 'average': lambda: qp.dynamic.average_positions()}[name]()


def library(case, ctx):
    import dynaphopy
    from dynaphopy.dynamics import Dynamics
    from dynaphopy.interface.phonopy_link import ForceConstants
    c = gen.build_crystal(case['crystal'])
    dim = case['dim']
    what = case['what']
    qp, u, v = calc.quasiparticle(c, dim, nstep=24, seed=case['seed'])
    qp.parameters.silent = True
    qp.select_power_spectra_algorithm(2 + case['seed'] % 2)
    qp.set_frequency_limits([0, 20])
    qp.set_spectra_resolution(0.5)
    ctx.event(what)
    ctx.nontrivial()
    before = np.array(use(qp, 'wave'))
    n = c.nprim
    S = np.diag(dim).dot(c.cell)
    if what in ('cell', 'fc', 'no forces'):
        reset_globals()
        s = gen.make_structure(c)
        d = qp.dynamic
        name = case['use']
        if what == 'cell':
            # ratio of lengths; the tolerance is of one per cent of all of them
            S = spoiled(case, S)
            ratio = np.linalg.norm(S, axis=1) / np.linalg.norm(c.cell, axis=1)
            if np.abs(ratio - np.round(ratio)).sum() / np.linalg.norm(ratio) < 0.02:
                return
        else:
            name = 'modes'
        if what != 'no forces':
            other = dim if what == 'cell' else [dim[0], dim[1] + 1, dim[2]]
            s.set_force_constants(ForceConstants(gen.spring_force_constants(c, other, 1), supercell=np.diag(dim)))

        def bad():
            one = dynaphopy.Quasiparticle(Dynamics(structure=s, velocity=np.array(d.velocity), trajectory=np.array(d.trajectory),
                                                   time=np.array(d.get_time()), supercell=S))
            one.parameters.silent = True
            use(one, name)
        ctx.check(stops(bad) is not None, 'a run with wrong %s was analysed' % what)
        return
    calls = {'algorithm': [lambda k=k: qp.select_power_spectra_algorithm(k) for k in (7, 8, 20, 99, -1, 1000)][case['k']],
             'fit': [lambda k=k: qp.select_fitting_function(k) for k in (7, 8, 20, 99, -1, 1000)][case['k']],
             'projection': lambda: qp.set_projection_onto_atom_type(n + case['k']),
             'bands': [lambda x=x: qp.set_band_ranges(x) for x in ('GAMMA', 3, 0.5, 'G-X', None, 7)][case['k']],
             'coordinate': lambda: [qp.set_projection_onto_atom_type(0), qp.get_power_spectrum_full(projection_on_coordinate=3 + case['k'])],
             # maximum entropy method: as many coefficients as steps, or more
             'coefficients': lambda: [qp.select_power_spectra_algorithm(1), qp.set_number_of_mem_coefficients(23 + case['k']),
                                      use(qp, ['full', 'wave', 'modes'][case['k'] % 3])]}
    got = stops(calls[what])
    ctx.check(got is not None, '%s was accepted (choice %d)' % (what, case['k']))
    if what == 'coordinate':
        return
    if what == 'coefficients':
        qp.select_power_spectra_algorithm(2 + case['seed'] % 2)
    ctx.close(np.array(use(qp, 'wave')), before, 'wave vector spectrum after a refused %s' % what, rtol=1e-12, atol=1e-12 * (1e-300 + np.abs(before).max()))
    qp.power_spectra_clear()
    ctx.close(np.array(use(qp, 'wave')), before, 'recalculated wave vector spectrum after a refused %s' % what, rtol=1e-12,
              atol=1e-12 * (1e-300 + np.abs(before).max()))


SCRIPT = ['nothing', 'input', 'structure', 'outcar', 'trajectory', 'hdf5', 'format', 'empty', 'fc file', 'fc size', 'both forces', 'cell', 'projection', 'psm', 'fit',
          'coordinates', 'lammps']


def script_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I'), lo=350, hi=600), 'dim': gen.dims(1, 2, 4), 'seed': gen.seeds(),
        'what': st.sampled_from(SCRIPT), 'axis': st.integers(0, 2), 'spoil': st.integers(8, 40), 'up': st.booleans(),
        'source': st.sampled_from(['hdf5', 'xdatcar', 'lammps']), 'outputs': st.lists(st.sampled_from(sorted(OUTPUTS)), min_size=1, max_size=3, unique=True)})


def script(case, ctx):
    import h5py
    from phonopy.file_IO import write_FORCE_CONSTANTS
    c = gen.build_crystal(case['crystal'])
    sort_elements(c)
    dim, what, source = case['dim'], case['what'], case['source']
    if what in ('hdf5',):
        source = 'hdf5'
    if what in ('format', 'empty', 'cell') and source == 'hdf5':
        source = 'xdatcar'
    d = ctx.tempdir()
    os.chdir(d)
    os.environ['DYNAPHOPY_TEMPDIR'] = ctx.tempdir()
    pos, idx = gen.supercell_positions(c, dim)
    S = np.diag(dim).dot(c.cell)
    r = gen.rng(case['seed'])
    n = 16
    x = pos + r.normal(size=(n,) + pos.shape) * 0.05
    outs = list(case['outputs'])
    if source != 'hdf5' and 'sv' in outs and len(outs) > 1:
        outs.remove('sv')
    if what in ('fc file', 'fc size'):
        outs = ['sp']
    if what == 'cell':
        S0 = S
        S = spoiled(case, S)
        ratio = np.linalg.norm(S, axis=1) / np.linalg.norm(c.cell, axis=1)
        if np.abs(ratio - np.round(ratio)).sum() / np.linalg.norm(ratio) < 0.02:
            return
        x = x.dot(np.linalg.inv(S0)).dot(S)
    els = [c.elements[i] for i in idx]
    if what == 'structure':
        pass
    else:
        with open('POSCAR', 'w') as f:
            f.write(files.poscar(c.cell, c.elements, c.scaled, fmt='%22.15f'))
    if what != 'fc file':
        other = [dim[0], dim[1], dim[2] + 1] if what == 'fc size' else dim
        write_FORCE_CONSTANTS(gen.spring_force_constants(c, other, 3), filename='FC')
    if what != 'input':
        with open('input', 'w') as f:
            f.write('STRUCTURE FILE %s\n\n' % ('OUTCAR\nOUTCAR' if what == 'outcar' else 'POSCAR\nPOSCAR') + 'FORCE CONSTANTS\nFC\n\n')
            if what == 'both forces':
                f.write('FORCE SETS\nFC\n\n')
            f.write('PRIMITIVE MATRIX\n' + '\n'.join(' '.join('%.15f' % y for y in z) for z in c.primitive_matrix) + '\n\n')
            f.write('SUPERCELL MATRIX\n' + '\n'.join(' '.join('%d' % y for y in z) for z in np.diag(dim)) + '\n')
    argv = ['input']
    if source == 'hdf5':
        if what not in ('hdf5', 'trajectory'):
            with h5py.File('run', 'w') as f:
                f['trajectory'], f['velocity'] = x.astype(complex), r.normal(size=x.shape).astype(complex)
                f['time'], f['super_cell'] = np.arange(n) * 0.01, np.array(dim)
        argv += ['-lv', 'run']
    else:
        if what not in ('trajectory',):
            with open('run', 'w') as f:
                if what == 'empty':
                    pass
                elif what == 'format':
                    f.write('time  energy\n' + '\n'.join('%g %g' % tuple(y) for y in r.normal(size=(40, 2))))
                elif source == 'xdatcar':
                    f.write(files.xdatcar(S, els, x.dot(np.linalg.inv(S))))
                else:
                    low, R = files.lammps_cell(S)
                    f.write(files.lammpstrj(low, x.dot(R), list(range(n))))
        argv += ['run', '-ts', 0.01]
    if what == 'projection':
        argv += ['--project_on_atom', c.nprim + case['seed'] % 3]
    elif what == 'psm':
        argv += ['-psm', [7, 9, 22][case['seed'] % 3]]
    else:
        argv += ['-psm', 3]
    if what == 'fit':
        argv += ['--fitting_function', [7, 9, 22][case['seed'] % 3]]
    argv += ['-r', 0, 20, '--resolution', 1, '--silent', '-q', 0, 0, 0]
    if what in ('coordinates', 'lammps'):
        # options of something else: too few values
        argv = ['input', '--generate_trajectory', 0.1, 0.01] if what == 'coordinates' else ['input', 'run', '-lv', 'run']
    for k in outs:
        argv += ['-' + k, OUTPUTS[k]]
    ctx.event(what)
    ctx.nontrivial(what != 'nothing')
    try:
        code, text = calc.run_script('dynaphopy', argv, d)
        end = 'code %s, %s' % (code, text[-400:])
    except Exception as e:
        code, text, end = 'exception', '', repr(e)
    made = [k for k in outs if os.path.exists(OUTPUTS[k])]
    if what == 'nothing':
        ctx.check(code == 0, lambda: 'dynaphopy %s ended with %s' % (' '.join(map(str, argv)), end))
        ctx.check(made == outs, lambda: 'only %s of %s were written' % (made, outs))
        return
    ctx.check(not made, lambda: 'dynaphopy %s wrote %s although the %s is wrong (%s)' % (' '.join(map(str, argv)), made, what, end))


SUBS = [Sub('library', library_strategy, library, quick=300, thorough=6000, shards=3, tshards=4),
        Sub('script', script_strategy, script, quick=150, thorough=3000, shards=3, tshards=4)]
