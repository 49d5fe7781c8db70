"""P32: the interactive menus and the plot options of the command line."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import calc, files, gen, plots, screen
from vlib.core import Sub, quiet, reset_globals
from checks import P29, P34
from checks.P26 import as_written, sort_elements, tables

PROPERTY = 'P32'
RULE = ('random crystals and runs stored in files; the dynaphopy script is run in interactive mode with a scripted terminal and a '
        'random list of menu choices, or with random plot options; windows shown, text printed and screens are compared with those of the '
        'same calls of the library, made one after the other in a new calculation; non-trivial when a setting is changed before an output')
ASSUMPTIONS = ['library calls behave as decided by the other properties']

SETTINGS = ['q', 'algorithm', 'mem', 'bins', 'scale', 'fit', 'resolution', 'range', 'nac']
CHEAP = ['frequencies', 'modes', 'full', 'wave', 'phonon', 'peaks', 'boltzmann', 'displacements', 'dispersion', 'dos']
HEAVY = ['renormalized', 'fat', 'shifts', 'mesh', 'thermal']


def action():
    return st.one_of(
        st.tuples(st.just('q'), st.lists(st.sampled_from(['0', '1/2', '0.25', '-1/3', '1', '.5']), min_size=3, max_size=3)),
        st.tuples(st.just('algorithm'), st.integers(0, 3)), st.tuples(st.just('mem'), st.integers(5, 20)),
        st.tuples(st.just('bins'), st.integers(2, 20)), st.tuples(st.just('scale'), st.integers(1, 20)),
        st.tuples(st.just('fit'), st.integers(0, 2)), st.tuples(st.just('resolution'), st.sampled_from(['0.08', '0.1', '0.2', '.15'])),
        st.tuples(st.just('range'), st.tuples(st.sampled_from(['0', '1/2', '1']), st.sampled_from(['20', '25/2', '18.0'])).map(list)),
        st.tuples(st.just('displacements'), st.lists(st.sampled_from(['0', '1', '1/2', '-1']), min_size=3, max_size=3).filter(lambda x: set(x) != {'0'})),
        st.tuples(st.just('nac'), st.sampled_from(['1', '2'])), st.tuples(st.just('junk'), st.sampled_from(['x', ' ', 'q'])),
        *[st.tuples(st.just(k), st.none()) for k in CHEAP if k != 'displacements']).map(list)


def strategy():
    heavy = st.tuples(st.sampled_from(HEAVY), st.none()).map(list)
    output = st.tuples(st.sampled_from(['full', 'wave', 'phonon', 'peaks', 'modes']), st.none()).map(list)
    # the same output before and after a setting
    around = st.tuples(st.sampled_from([None, ['algorithm', 1], ['algorithm', 1]]), output, st.lists(action(), min_size=1, max_size=2)).map(
        lambda t: ([t[0]] if t[0] else []) + [t[1]] + t[2] + [t[1]])
    mem = st.tuples(output, st.integers(5, 20)).map(lambda t: [['algorithm', 1], t[0], ['mem', t[1]], t[0]])
    harmonic = st.tuples(st.sampled_from(['dispersion', 'dos', 'mesh', 'thermal']), st.none()).map(list)
    nac = st.tuples(harmonic, st.sampled_from(['1', '2'])).map(lambda t: [t[0], ['nac', t[1]], t[0]])
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I', 'F'), lo=350, hi=600), 'dim': gen.dims(1, 2, 2), 'seed': gen.seeds(),
        'shift': st.integers(-12, 10), 'invert': st.just(False), 'gamma': st.integers(120, 180), 'slope': st.integers(0, 6),
        'fcsymm': st.just(False), 'symmetry': st.booleans(),
        'actions': st.one_of(st.lists(action(), min_size=2, max_size=7), around, around, mem, nac,
                             st.tuples(st.lists(action(), max_size=3), heavy, st.lists(action(), max_size=1), st.one_of(heavy, action())).map(
                                 lambda t: t[0] + [t[1]] + t[2] + [t[3]])),
        'silent': st.booleans(), 'spaces': st.booleans(), 'repeat': st.booleans(), 'born': st.booleans(), 'nac': st.booleans(),
        'z': st.integers(50, 300), 'eps': st.integers(150, 900), 'aniso': st.booleans(), 'factor': st.just(14.4)})


def prepare(case, ctx):
    """Files of the run in a new directory, and a function that makes a new calculation like that of the script."""
    import dynaphopy
    import h5py
    from phonopy.file_IO import write_FORCE_CONSTANTS
    from dynaphopy.dynamics import Dynamics
    from dynaphopy.interface import iofile
    from dynaphopy.interface.phonopy_link import get_force_constants_from_file
    if case.get('born'):
        case = dict(case, crystal=dict(case['crystal'], elements=['Na', 'O']))
    got = P29.build(case)
    if got is None:
        return None
    c, dim, qp = got
    d = ctx.tempdir()
    os.chdir(d)
    S = np.diag(dim).dot(c.cell)
    with open('POSCAR', 'w') as f:
        f.write(files.poscar(c.cell, c.elements, c.scaled, fmt='%22.15f'))
    write_FORCE_CONSTANTS(qp.harmonic, filename='FC')
    if case.get('born'):
        P34.write_born(case, P34.phonopy(c, np.diag(dim)), ctx)
    bands = np.round(gen.rng(case['seed']).uniform(-.5, .5, size=(2, 2, 3)), 3)
    with open('input', 'w') as f:
        f.write('STRUCTURE FILE POSCAR\nPOSCAR\n\nFORCE CONSTANTS\nFC\n\n')
        f.write('PRIMITIVE MATRIX\n' + '\n'.join(' '.join('%.15f' % x for x in r) for r in c.primitive_matrix) + '\n\n')
        f.write('SUPERCELL MATRIX\n' + '\n'.join(' '.join('%d' % x for x in r) for r in np.diag(dim)) + '\n\n')
        f.write('MESH PHONOPY\n4 4 4\n\nBANDS\n' + ''.join('%g, %g, %g  %g, %g, %g : A, B\n' % tuple(b.ravel()) for b in bands))
    v, t = np.array(qp.dynamic.velocity), np.array(qp.dynamic.get_time())
    pos = gen.supercell_positions(c, dim)[0]
    x = (pos + gen.rng(case['seed'] + 1).normal(size=v.shape) * 0.03).astype(complex)
    with h5py.File('run.h5', 'w') as f:
        f['velocity'], f['time'], f['super_cell'], f['trajectory'] = v, t, np.array(dim), x

    def calculation():
        reset_globals()
        s = iofile.read_from_file_structure_poscar('POSCAR')
        s.set_primitive_matrix(as_written(c.primitive_matrix))
        s.set_force_constants(get_force_constants_from_file('FC', fc_supercell=np.diag(dim)))
        one = dynaphopy.Quasiparticle(Dynamics(structure=s, velocity=v, trajectory=x, time=t, supercell=S))
        p = one.parameters
        p.use_symmetry, p.mesh_phonopy, p.silent = case['symmetry'], np.array([4, 4, 4]), case['silent']
        one.set_band_ranges({'ranges': [z.tolist() for z in bands], 'labels': [('A', 'B')] * 2})
        one.set_spectra_resolution(0.08)
        one.select_power_spectra_algorithm(3)
        one.parameters.number_of_coefficients_mem = 12
        if case.get('born') and case['nac']:
            one.set_NAC(True)
        return one
    argv = ['input', '-lv', 'run.h5', '-psm', 3, '--resolution', 0.08, '-cf', 12]
    if not case['symmetry']:
        argv.append('--no_symmetry')
    if case['silent']:
        argv.append('--silent')
    if case.get('born') and case['nac']:
        argv.append('--nac')
    return c, dim, d, calculation, argv, len(t)


MENU = {'frequencies': ('1', '1'), 'modes': ('1', '2'), 'dispersion': ('1', '3'), 'dos': ('1', '4'), 'q': ('2',), 'thermal': ('3',), 'boltzmann': ('4',),
        'full': ('5', '1'), 'wave': ('5', '2'), 'phonon': ('5', '3'), 'renormalized': ('6', '1'), 'fat': ('6', '2'), 'shifts': ('6', '3'),
        'mesh': ('6', '4'), 'peaks': ('7',), 'displacements': ('8',), 'algorithm': ('9', '1'), 'nac': ('9', '2'), 'mem': ('9', '3'), 'bins': ('9', '4'),
        'scale': ('9', '5'), 'fit': ('9', '6'), 'resolution': ('9', '7'), 'range': ('9', '8')}


def keystrokes(case):
    keys = [('start', '', None)]
    sep = ', ' if case['spaces'] else ','
    out = []
    for i, (name, arg) in enumerate(case['actions']):
        def key(k, kind='key'):
            out.append((i, k, kind))
        if name == 'junk':
            key(arg)
            continue
        path = MENU[name]
        for k in path:
            key(k)
        if name == 'frequencies':
            key('x')                                     # any key to leave the list
        elif name == 'peaks':
            key('x')
        elif name in ('q', 'displacements', 'range'):
            key(sep.join(arg), 'line')
        elif name in ('mem', 'bins', 'scale', 'resolution'):
            key(str(arg), 'line')
        elif name in ('algorithm', 'fit'):
            if case['repeat']:
                key('9')                                 # not in the list: asked again
                key('x')
                if name == 'fit':
                    key('3')                             # one more than the last
            key(str(arg))
        elif name == 'nac':
            if case['repeat']:
                key('7')
            key(arg)
        if len(path) > 1:
            key('0')
    out.append(('end', '0', 'key'))
    return out


def library(one, name, arg):
    from fractions import Fraction

    def vector(a):
        return [float(Fraction(x)) for x in a]
    return {'frequencies': lambda: one.get_frequencies(), 'modes': one.plot_eigenvectors, 'dispersion': one.plot_phonon_dispersion_bands,
            'dos': one.plot_dos_phonopy, 'q': lambda: one.set_reduced_q_vector(np.array(vector(arg))), 'thermal': one.display_thermal_properties,
            'boltzmann': one.show_boltzmann_distribution, 'full': one.plot_power_spectrum_full, 'wave': one.plot_power_spectrum_wave_vector,
            'phonon': one.plot_power_spectrum_phonon, 'renormalized': one.plot_renormalized_phonon_dispersion_bands,
            'fat': lambda: one.plot_renormalized_phonon_dispersion_bands(plot_linewidths=True, plot_harmonic=False),
            'shifts': one.plot_linewidths_and_shifts_bands, 'mesh': one.plot_frequencies_vs_linewidths, 'peaks': one.phonon_individual_analysis,
            'displacements': lambda: one.plot_trajectory_distribution(np.array(vector(arg))),
            'algorithm': lambda: one.select_power_spectra_algorithm(arg), 'nac': lambda: one.set_NAC(arg == '1') if os.path.exists('BORN') else None,
            'mem': lambda: one.set_number_of_mem_coefficients(arg), 'bins': lambda: setattr(one.parameters, 'number_of_bins_histogram', arg),
            'scale': lambda: setattr(one.parameters, 'modes_vectors_scale', arg), 'fit': lambda: one.select_fitting_function(arg),
            'resolution': lambda: one.set_spectra_resolution(float(arg)),
            'range': lambda: one.set_frequency_limits(np.array(vector(arg))), 'junk': lambda: None}[name]


def menu(case, ctx):
    screen.install()
    got = prepare(case, ctx)
    if got is None:
        ctx.event('frequencies do not suit')
        return
    c, dim, d, calculation, argv, nsteps = got
    actions = case['actions']
    for name, _ in actions:
        ctx.event(name)
    names = [a[0] for a in actions]
    ctx.nontrivial(any(a in SETTINGS and any(b not in SETTINGS + ['junk'] for b in names[i:]) for i, a in enumerate(names)))
    record = []
    first = {}

    def tag(t):
        print('@@%s@@' % t)
        first[t] = len(record)
    term = screen.session(keystrokes(case), tag)
    with plots.shown(record):
        try:
            code, text = calc.run_script('dynaphopy', argv + ['-i'], d)
        except screen.Exhausted as e:
            ctx.fail('%s (after %s)' % (e, actions[term.tag] if isinstance(term.tag, int) else term.tag))
    ctx.check(code == 0, lambda: 'dynaphopy -i ended with code %s: %s' % (code, text[-600:]))
    ctx.check(not term.keys, lambda: 'the menu was left before %s' % (term.keys[0],))
    ctx.check(not term.open, 'the screen is left open')

    def part(i):
        a = text.index('@@%s@@' % i)
        b = text.index('@@%s@@' % (i + 1 if i + 1 < len(actions) else 'end'))
        return text[a:b]
    one = calculation()
    for i, (name, arg) in enumerate(actions):
        state(ctx, one, term, i, c, dim, nsteps, actions)
        with plots.shown() as windows, quiet() as out:
            r = library(one, name, arg)()
        mine = record[first[i]:first[i + 1 if i + 1 < len(actions) else 'end']]
        what = 'menu %s (choice %d of %s)' % (name, i + 1, [a[0] for a in actions])
        plots.same_windows(ctx, mine, windows, what)
        if name == 'frequencies':
            rows = [s for at, s in [p for t, p in term.pages if t == i][-2] if s[:1].isdigit()]
            ctx.check(len(rows) == len(r), '%s: %d frequencies shown, %d expected' % (what, len(rows), len(r)))
            for k, s in enumerate(rows):
                n, f = s.split(':')
                ctx.check(int(n) == k + 1, what + ': numbered %s' % n)
                ctx.close(float(f), r[k], what + ': frequency %d' % (k + 1), rtol=0, atol=6e-5)
        elif name in ('peaks', 'boltzmann', 'displacements', 'thermal', 'full', 'wave'):
            tables(ctx, part(i), out.getvalue().replace('\r', '\n'), what)
    state(ctx, one, term, 'end', c, dim, nsteps, actions)


def state(ctx, one, term, tag, c, dim, nsteps, actions):
    """The main menu shows the state of the calculation."""
    import re
    page = {}
    for t, p in term.pages:
        if t == tag:
            page = [s for at, s in p]
            break
    want = {'Wave vector': list(np.array(one.get_reduced_q_vector(), dtype=float)),
            'Frequency range': [one.get_frequency_range()[0], one.get_frequency_range()[-1]],
            'Pow. spectr. resolution': [one.parameters.spectrum_resolution], 'Primitive cell atoms': [c.nprim], 'Unit cell atoms': [len(c.elements)],
            'MD supercell atoms': [len(c.elements) * int(np.prod(dim))], 'Number of MD time steps': [nsteps], 'Time step': [0.02]}
    for k, v in want.items():
        lines = [s for s in page if s.startswith(k)]
        ctx.check(len(lines) == 1, lambda: 'the menu does not show "%s": %s' % (k, page))
        x = [float(z) for z in re.findall(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?', lines[0].split(':', 1)[1].replace(' - ', '  '))]
        ctx.close(x, v, 'the menu shows "%s" before choice %s of %s' % (lines[0], tag, [a[0] for a in actions]), rtol=1e-6, atol=1e-7)


# ------------------------------------------------------------------ plot options
PLOTS = ['pd', 'pw', 'pp', 'pad', 'pa', 'csa', 'thm']


def plot_strategy():
    s = {
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I', 'F'), lo=350, hi=600), 'dim': gen.dims(1, 2, 2), 'seed': gen.seeds(),
        'shift': st.integers(-12, 10), 'invert': st.just(False), 'gamma': st.integers(120, 180), 'slope': st.integers(0, 6),
        'fcsymm': st.just(False), 'symmetry': st.booleans(), 'silent': st.just(False),
        'options': st.lists(st.sampled_from(PLOTS[:-1]), min_size=1, max_size=3, unique=True),
        'settings': st.lists(st.sampled_from(['q', 'r', 'fit', 'project', 'psm']), max_size=3, unique=True),
        'q': st.lists(st.sampled_from(['0', '1/2', '0.25', '1', '.5']), min_size=3, max_size=3), 'psm': st.sampled_from([1, 2]),
        'r': st.tuples(st.sampled_from([0, 1]), st.sampled_from([15, 18.5])).map(list), 'fitfun': st.sampled_from([1, 2]),
        'dir': st.lists(st.sampled_from(['0', '1', '1/2', '2']), min_size=3, max_size=3).filter(lambda x: set(x) != {'0'})}
    return st.fixed_dictionaries(s)


def options(case, ctx):
    from fractions import Fraction
    got = prepare(case, ctx)
    if got is None:
        ctx.event('frequencies do not suit')
        return
    c, dim, d, calculation, argv, nsteps = got
    outs, sets = case['options'], list(case['settings'])
    if 'csa' in outs:
        outs = [k for k in outs if k in ('csa', 'pw')]
        sets = sets[:1]
        if c.nprim > 1:
            outs = ['pw']                     # the scan is long
    ctx.nontrivial(len(outs) > 1 or len(sets) > 0)
    for k in outs + sets:
        ctx.event(k)
    argv += sum([{'q': ['-q'] + case['q'], 'r': ['-r'] + case['r'], 'fit': ['--fitting_function', case['fitfun']], 'psm': ['-psm', case['psm']],
                  'project': ['--project_on_atom', c.nprim - 1]}[k] for k in sets], [])
    argv += sum([{'pad': ['-pad'] + case['dir']}.get(k, ['-' + k]) for k in outs], [])
    with plots.shown() as record:
        code, text = calc.run_script('dynaphopy', argv, d)
    ctx.check(code == 0, lambda: 'dynaphopy %s ended with code %s: %s' % (' '.join(map(str, argv)), code, text[-600:]))
    one = calculation()
    for k in sets:
        if k == 'q':
            one.set_reduced_q_vector(np.array([float(Fraction(x)) for x in case['q']]))
        elif k == 'fit':
            one.select_fitting_function(case['fitfun'])
        elif k == 'psm':
            one.select_power_spectra_algorithm(case['psm'])
        elif k == 'project':
            one.set_projection_onto_atom_type(c.nprim - 1)
        else:
            one.set_frequency_limits(case['r'])
    for k in ('pd', 'pw', 'pp', 'pad', 'csa', 'pa'):
        if k not in outs:
            continue
        with plots.shown() as windows, quiet() as out:
            {'pd': one.plot_power_spectrum_full, 'pw': one.plot_power_spectrum_wave_vector, 'pp': one.plot_power_spectrum_phonon,
             'pad': lambda: one.plot_trajectory_distribution([float(Fraction(x)) for x in case['dir']]),
             'csa': one.phonon_width_scan_analysis, 'pa': one.phonon_individual_analysis}[k]()
        plots.same_windows(ctx, record[:len(windows)], windows, 'option -%s of %s' % (k, ' '.join(map(str, argv))))
        record = record[len(windows):]
        tables(ctx, text, out.getvalue().replace('\r', '\n'), 'option -' + k)
    ctx.check(not record, '%d windows too many' % len(record))


SUBS = [Sub('menu', strategy, menu, quick=60, thorough=800, shards=5, tshards=5),
        Sub('options', plot_strategy, options, quick=24, thorough=300, shards=3, tshards=3)]
