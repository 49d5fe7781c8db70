"""P14: a calculation object never answers with out-of-date results."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub

PROPERTY = 'P14'
RULE = ('sequences of settings (wave vector, algorithm, coefficients, projected atom, resolution, limits, fitting '
        'function, band ranges, quasi-harmonic force constants, temperature, crop) and reads of every result; each answer is '
        'compared with a new object given the same settings that is asked only that; non-trivial when a setting '
        'changes between two reads of the same result')

READS = ['vc', 'vq', 'frequencies', 'eigenvectors', 'full', 'full_coordinate', 'partials', 'wave', 'phonon',
         'temperature', 'adp', 'displacements', 'qha_shift', 'band_ranges', 'commensurate', 'fc', 'bands', 'mesh', 'properties']
CHEAP = READS[:13]
SETS = ['q', 'alg', 'mem', 'atom', 'resolution', 'limits', 'fit', 'ranges', 'qha', 'temperature', 'crop']


def ops(reads, sets):
    """few kinds of reads, repeated, with settings in between"""
    steps = st.lists(st.tuples(st.integers(0, 3), st.sampled_from(sets), st.integers(0, 5)), min_size=3, max_size=12)
    return st.tuples(st.lists(st.sampled_from(reads), min_size=1, max_size=3, unique=True), steps).map(
        lambda x: [[x[0][a % len(x[0])] if a < 2 else b, k] for a, b, k in x[1]])


def strategy(reads=tuple(CHEAP), sets=tuple(SETS)):
    def make():
        return st.fixed_dictionaries({
            'crystal': gen.crystal_spec(max_atoms=2, min_atoms=1, centerings=('P', 'C', 'I', 'F'), lo=350, hi=600),
            'dim': gen.dims(1, 2, 4), 'n': st.integers(44, 60), 'seed': gen.seeds(), 'symmetry': st.booleans(),
            'silent': st.booleans(), 'memmap': st.booleans(), 'md': st.booleans(), 'ops': ops(list(reads), list(sets))})
    return make


def pairs():
    """one setting changed twice, one result read before, between and after"""
    settings = st.one_of(
        st.tuples(st.just('mem'), st.just(3)), st.tuples(st.sampled_from(SETS), st.integers(0, 5)))
    kinds = st.one_of(st.sampled_from(['full', 'partials', 'wave', 'phonon', 'full_coordinate']), st.sampled_from(CHEAP))
    seq = st.tuples(settings, kinds, st.integers(0, 5), st.lists(st.integers(0, 5), min_size=2, max_size=3, unique=True)).map(
        lambda x: [['alg', x[0][1]], [x[1], x[2]]] + [o for k in x[3] for o in ([x[0][0], k], [x[1], x[2]])])
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, min_atoms=1, centerings=('P', 'C'), lo=350, hi=600),
        'dim': gen.dims(1, 2, 2), 'n': st.integers(44, 60), 'seed': gen.seeds(), 'symmetry': st.booleans(),
        'silent': st.booleans(), 'memmap': st.just(False), 'md': st.booleans(), 'ops': seq})


def turned():
    """the wave vector changed to another of the same components (opposite, other axes), results read before and after"""
    kinds = st.sampled_from(['vc', 'vq', 'wave', 'phonon', 'frequencies', 'eigenvectors'])
    seq = st.tuples(st.integers(0, 2), st.integers(0, 5), kinds, st.lists(st.integers(3, 5), min_size=1, max_size=3)).map(
        lambda x: [['alg', x[1]], ['q', x[0]], [x[2], 0]] + [o for k in x[3] for o in (['q', k], [x[2], 0])])
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, min_atoms=1, centerings=('P', 'C'), lo=350, hi=600),
        'dim': st.sampled_from([[3, 1, 1], [1, 3, 1], [3, 2, 1], [1, 1, 4], [3, 3, 1]]), 'n': st.integers(24, 40), 'seed': gen.seeds(),
        'symmetry': st.just(False), 'silent': st.booleans(), 'memmap': st.just(False), 'md': st.booleans(), 'ops': seq})


class Model:
    """The settings, and how to make a new object that has them."""

    def __init__(self, case, c, folder):
        self.folder = folder
        self.case = case
        self.c = c
        self.q = np.zeros(3)
        self.alg = 2
        self.mem = 8
        self.atom = -1
        self.res = 0.7
        self.range = np.arange(0, 20, 0.7)
        self.fit = 0
        self.bands = [[[0, 0, 0], [0.5, 0, 0]]]
        self.qha = None
        self.temperature = None
        self.last = None

    def build(self):
        from vlib.core import reset_globals
        case = self.case
        qp, u, v = calc.quasiparticle(
            self.c, case['dim'], nstep=case['n'], dt=0.01, seed=case['seed'], noise=0.05, scale=0.2, last_steps=self.last,
            fcdim=None, mesh_phonopy=(3, 3, 3), use_symmetry=case['symmetry'], silent=case['silent'],
            use_MD_cell_commensurate=case['md'], memmap=case['memmap'],
            reduced_q_vector=self.q.copy(), power_spectra_algorithm=self.alg, number_of_coefficients_mem=self.mem,
            project_on_atom=self.atom, spectrum_resolution=self.res, frequency_range=self.range.copy(),
            fitting_function=self.fit, band_ranges={'ranges': self.bands}, band_resolution=3,
            correlation_function_step=3)
        if self.qha is not None:
            qp.set_qha_force_constants(self.force_constants(self.qha))
        if self.temperature:
            qp.set_temperature(self.temperature)
        return qp

    def force_constants(self, k):
        from phonopy.file_IO import write_FORCE_CONSTANTS
        path = os.path.join(self.folder, 'fc%d' % k)
        if not os.path.exists(path):
            write_FORCE_CONSTANTS(gen.spring_force_constants(self.c, self.case['dim'], self.case['seed'] % 97)
                                  * (1.05 + 0.1 * k), filename=path)
        return path


def flat(x):
    """nested results -> list of arrays"""
    if isinstance(x, dict):
        return [a for k in sorted(x) for a in flat(x[k])]
    if isinstance(x, (list, tuple)) and len(x) and isinstance(x[0], (dict, list, tuple, np.ndarray)):
        return [a for i in x for a in flat(i)]
    if x is None or isinstance(x, str):
        return []
    return [np.asarray(x)]


def read(qp, kind, arg, qs):
    if kind == 'vc':
        return qp.get_vc()
    if kind == 'vq':
        return qp.get_vq()
    if kind == 'frequencies':
        return qp.get_frequencies()
    if kind == 'eigenvectors':
        return qp.get_eigenvectors()
    if kind == 'full':
        return qp.get_power_spectrum_full()
    if kind == 'full_coordinate':
        return qp.get_power_spectrum_full(projection_on_coordinate=arg % 4 - 1)
    if kind == 'partials':
        return qp.get_power_spectrum_partials()
    if kind == 'wave':
        return qp.get_power_spectrum_wave_vector()
    if kind == 'phonon':
        return qp.get_power_spectrum_phonon()
    if kind == 'temperature':
        return qp.get_temperature()
    if kind == 'adp':
        return qp.get_anisotropic_displacement_parameters(print_on_screen=False,
                                                          coordinate_type=['cart', 'uvrs', 'crys'][arg % 3])
    if kind == 'displacements':
        return qp.get_atomic_displacements([1, arg, -1])
    if kind == 'qha_shift':
        return qp.get_qha_shift(qs[arg % len(qs)])
    if kind == 'band_ranges':
        return qp.get_band_ranges_and_labels()
    if kind == 'commensurate':
        return qp.get_commensurate_points_data()
    if kind == 'fc':
        return qp.get_renormalized_force_constants().get_array()
    if kind == 'bands':
        return qp.get_renormalized_phonon_dispersion_bands(with_linewidths=bool(arg % 2), band_connection=arg > 3)
    if kind == 'mesh':
        return qp.get_mesh_frequencies_and_linewidths()
    if kind == 'properties':
        return qp.get_commensurate_points_properties()
    raise ValueError(kind)


def answer(qp, kind, arg, qs):
    try:
        x = flat(read(qp, kind, arg, qs))
        return [np.array(i, copy=True) for i in x], None
    except (Exception, SystemExit) as e:
        return None, e


def next_q(q, qs, arg):
    """Another commensurate wave vector, or the present one with another sign or other axes"""
    if arg == 3 and np.abs(q).max() > 0:
        return np.roll(q, 1)
    if arg == 4 and np.abs(q).max() > 0:
        return -q
    if arg == 5 and np.abs(q).max() > 0:
        return q * np.where(np.arange(3) == np.argmax(np.abs(q)), -1, 1)
    return np.array(qs[arg % len(qs)])


def set_(qp, m, kind, arg, qs, nprim):
    if kind == 'q':
        m.q = next_q(m.q, qs, arg)
        qp.set_reduced_q_vector(m.q.copy())
    elif kind == 'alg':
        m.alg = [2, 0, 3, 1, 2, 0][arg]
        qp.select_power_spectra_algorithm(m.alg)
    elif kind == 'mem':
        m.mem = 5 + arg
        qp.set_number_of_mem_coefficients(m.mem)
    elif kind == 'atom':
        m.atom = arg % nprim
        qp.set_projection_onto_atom_type(m.atom)
    elif kind == 'resolution':
        m.res = [0.7, 1.1, 0.5, 0.9, 1.3, 0.6][arg]
        old = m.range
        m.range = np.arange(old[0], old[-1] + m.res, m.res)
        qp.set_spectra_resolution(m.res)
    elif kind == 'limits':
        lim = [[0, 20], [0, 15], [1, 25], [2, 9], [0, 30], [3, 20]][arg]
        m.range = np.arange(lim[0], lim[1] + m.res, m.res)
        qp.set_frequency_limits(lim)
    elif kind == 'fit':
        m.fit = arg % 3
        qp.select_fitting_function(m.fit)
    elif kind == 'ranges':
        a = [[[0, 0, 0], [0.5, 0, 0]], [[0, 0.5, 0], [0.25, 0, 0.1]], [[0, 0, 0], [0.5, 0.5, 0.5]]]
        m.bands = [[a[arg % 3]], a[:2], a[1:]][arg % 3]
        qp.set_band_ranges({'ranges': m.bands} if arg % 2 else m.bands)
    elif kind == 'qha':
        m.qha = arg
        qp.set_qha_force_constants(m.force_constants(arg))
    elif kind == 'temperature':
        m.temperature = 100. * arg
        qp.set_temperature(m.temperature)
    elif kind == 'crop':
        k = [43, 40, 36, 33, 30, 24][arg]
        m.last = k if m.last is None else min(k, m.last)
        qp.crop_trajectory(k)


def run(case, ctx):
    folder = ctx.tempdir()
    os.environ['DYNAPHOPY_TEMPDIR'] = folder
    c = gen.build_crystal(case['crystal'])
    qs = calc.commensurate_reference(c, case['dim'])
    m = Model(case, c, folder)
    qp = m.build()
    answered = {}
    changed = 0
    history = []
    for kind, arg in case['ops']:
        history.append('%s(%s)' % (kind, arg))
        if kind in SETS:
            set_(qp, m, kind, arg, qs, c.nprim)
            changed += 1
        else:
            m_range = m.range
            got, err = answer(qp, kind, arg, qs)
            ctx.event('read ' + kind)
            if answered.get(kind, changed) != changed:
                ctx.nontrivial(True)
            answered[kind] = changed
            state = dict(qp.parameters.__dict__)
            fresh = m.build()
            want, err2 = answer(fresh, kind, arg, qs)
            range2 = np.array(fresh.get_frequency_range())
            # the settings of both objects live in one place: put those of the tested object back
            qp.parameters.__dict__.update(state)
            what = 'after %s' % ' '.join(history)
            if err is not None or err2 is not None:
                ctx.check(type(err) is type(err2), lambda: '%s: %r; a new object: %r' % (what, err, err2))
                return
            ctx.check(len(got) == len(want), lambda: '%s: %d arrays; a new object: %d' % (what, len(got), len(want)))
            for a, b in zip(got, want):
                top = np.abs(b).max() if b.size else 0
                ctx.close(np.nan_to_num(a), np.nan_to_num(b), what, rtol=1e-6, atol=1e-7 * np.nan_to_num(top) + 1e-12)
            # calculations over all the commensurate points choose the limits themselves
            m.range = np.array(qp.get_frequency_range())
            ctx.close(m.range, range2, what + ': frequency range', atol=1e-9)
        ctx.close(np.array(qp.get_frequency_range()), m.range, 'frequency range after ' + ' '.join(history), atol=1e-9)
        ctx.close(np.array(qp.get_reduced_q_vector()), m.q, 'wave vector after ' + ' '.join(history), atol=1e-12)


def averaged_strategy():
    from checks.P19 import symmetric_crystals
    read_ = st.tuples(st.sampled_from(['vc', 'vq', 'wave', 'phonon', 'frequencies', 'eigenvectors', 'full', 'wave']), st.integers(0, 5))
    return st.fixed_dictionaries({
        'crystal': symmetric_crystals(), 'dim': st.sampled_from([[2, 2, 1], [2, 1, 2], [1, 2, 2], [2, 2, 2], [3, 3, 1]]), 'n': st.integers(44, 50), 'seed': gen.seeds(), 'symmetry': st.just(True),
        'silent': st.booleans(), 'memmap': st.just(False), 'md': st.booleans(), 'first': st.integers(0, 30), 'before': st.lists(read_, max_size=2),
        'average': st.sampled_from(['wave', 'phonon', 'wave']), 'after': st.lists(read_, min_size=1, max_size=2)})


def averaged(case, ctx):
    """spectra averaged over equivalent wave vectors leave the projections of the chosen one in place"""
    from checks.P19 import symmetric_images
    c = gen.build_crystal(case['crystal'])
    qs = calc.commensurate_reference(c, case['dim'])
    many = [i for i, k in enumerate(qs) if len(symmetric_images(c, k, qs)) > 1]
    ops_ = [['q', (many or [0])[case['first'] % max(len(many), 1)]]]
    ops_ += [list(x) for x in case['before']] + [[case['average'], 0]] + [list(x) for x in case['after']]
    if many:
        ctx.event('equivalent vectors')
    run(dict(case, ops=ops_), ctx)
    ctx.nontrivial(len(many) > 0)


SUBS = [Sub('turned', turned, run, quick=60, thorough=2000, shards=2, tshards=3),
        Sub('averaged', averaged_strategy, averaged, quick=100, thorough=2500, shards=4, tshards=5),
        Sub('pairs', pairs, run, quick=160, thorough=4000, shards=4, tshards=5),
        Sub('spectra', strategy(), run, quick=120, thorough=4000, shards=4, tshards=5),
        Sub('quasiparticles', strategy(READS[13:] + ['phonon', 'full', 'frequencies'], SETS), run, quick=60, thorough=2000, shards=4,
            tshards=5)]
