"""P15: analysing the last N steps of a run."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub

PROPERTY = 'P15'
RULE = ('random runs with velocities given, derived or as a loaded wave-vector projection, memory mapped or not, one or '
        'two crops (also longer than the run, zero or not asked) before and after any of the results were read; each result '
        'is compared with that of the run made of only those steps; non-trivial when steps are dropped after a read')

READS = ['velocity', 'relative', 'mass', 'msd0', 'msd1', 'average', 'average_uc', 'time', 'step', 'energy', 'trajectory',
         'temperature', 'vc', 'wave', 'phonon', 'full', 'partials', 'displacements']


def strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I', 'F'), lo=350, hi=600),
        'dim': gen.dims(1, 2, 4), 'n': st.integers(30, 60), 'seed': gen.seeds(), 'memmap': st.booleans(),
        'velocity': st.booleans(), 'scaled': st.booleans(), 'trajectory': st.booleans(), 'irregular': st.booleans(),
        'start': st.sampled_from([0, 1]), 'alg': st.sampled_from([0, 1, 2, 3]),
        'first': st.lists(st.sampled_from(READS), max_size=4),
        'crops': st.lists(st.integers(-1, 70), min_size=1, max_size=2),
        'q': st.integers(0, 7), 'api': st.sampled_from(['quasiparticle', 'dynamics', 'constructor'])})


def ask(qp, kind):
    d = qp.dynamic
    if kind == 'velocity':
        return np.array(d.velocity)
    if kind == 'relative':
        return np.array(d.get_relative_trajectory())
    if kind == 'mass':
        return np.array(d.get_velocity_mass_average())
    if kind == 'msd0':
        return np.array(d.get_mean_displacement_matrix(use_average_positions=False))
    if kind == 'msd1':
        return np.array(d.get_mean_displacement_matrix(use_average_positions=True))
    if kind == 'average':
        return np.array(d.average_positions())
    if kind == 'average_uc':
        return np.array(d.average_positions(to_unit_cell=True))
    if kind == 'time':
        return np.array(d.get_time())
    if kind == 'step':
        return np.array(d.get_time_step_average())
    if kind == 'energy':
        return np.array(d.get_energy())
    if kind == 'trajectory':
        return np.array(d.trajectory)
    if kind == 'temperature':
        return np.array(qp.get_temperature())
    if kind == 'vc':
        return np.array(qp.get_vc())
    if kind == 'wave':
        return np.array(qp.get_power_spectrum_wave_vector())
    if kind == 'phonon':
        return np.array(qp.get_power_spectrum_phonon())
    if kind == 'full':
        return np.array(qp.get_power_spectrum_full())
    if kind == 'partials':
        return np.array(qp.get_power_spectrum_partials())
    if kind == 'displacements':
        return np.concatenate([np.ravel(i) for i in qp.get_atomic_displacements([1, 0, 1])])
    raise ValueError(kind)


NEED = {'relative', 'msd0', 'msd1', 'average', 'average_uc', 'trajectory', 'displacements'}


class Settings:
    def __init__(self, case, c):
        self.case = case
        self.c = c
        case = self.case
        pos, idx = gen.supercell_positions(c, case['dim'])
        n = case['n']
        self.dt = 0.01
        self.u, self.v = gen.smooth_displacements(case['seed'], n, len(pos), 0.2, self.dt)
        self.v = self.v + 0.1 * gen.rng(case['seed']).normal(size=self.v.shape)
        self.x = pos[None] + self.u
        self.t = case['start'] * 0.35 + np.arange(n) * self.dt
        if case['irregular']:
            self.t = self.t + np.cumsum(gen.rng(case['seed'] + 3).uniform(0, 0.002, size=n))
        self.S = np.diag(case['dim']).dot(c.cell)
        self.trajectory = case['trajectory'] or not case['velocity']
        self.energy = gen.rng(case['seed'] + 1).normal(size=n)

    def build(self, a, last_steps=None):
        import dynaphopy
        from dynaphopy.dynamics import Dynamics
        from dynaphopy.interface.phonopy_link import ForceConstants
        case, c = self.case, self.c
        s = gen.make_structure(c)
        s.set_force_constants(ForceConstants(gen.spring_force_constants(c, case['dim'], 3), supercell=np.diag(case['dim'])))
        k = {}
        x = self.x[a:].astype(complex)
        if self.trajectory:
            if case['scaled']:
                k['scaled_trajectory'] = x.dot(np.linalg.inv(self.S))
            else:
                k['trajectory'] = x
        if case['velocity']:
            k['velocity'] = self.v[a:].astype(complex)
        d = Dynamics(structure=s, time=self.t[a:].copy(), supercell=self.S, memmap=case['memmap'],
                     energy=self.energy[a:].copy(), **k)
        qp = dynaphopy.Quasiparticle(d, last_steps=last_steps)
        p = qp.parameters
        p.power_spectra_algorithm = case['alg']
        p.number_of_coefficients_mem = 6
        p.correlation_function_step = 4
        p.spectrum_resolution = 2.2
        p.frequency_range = np.arange(0, 25, 2.2)
        p.use_symmetry = False
        p.silent = True
        qs = calc.commensurate_reference(c, case['dim'])
        qp.set_reduced_q_vector(qs[case['q'] % len(qs)])
        return qp


def run(case, ctx):
    os.environ['DYNAPHOPY_TEMPDIR'] = ctx.tempdir()
    c = gen.build_crystal(case['crystal'])
    s = Settings(case, c)
    reads = [r for r in READS if s.trajectory or r not in NEED]
    first = [r for r in case['first'] if r in reads]
    crops = [k if not 0 < k < 16 else k + 16 for k in case['crops']]
    n = case['n']
    keep = n
    for k in crops:
        if k > 0:
            keep = min(keep, k)
    a = n - keep
    if case['api'] == 'constructor':
        qp = s.build(0, last_steps=crops[0] if crops[0] >= 0 else None)
        rest = crops[1:]
    else:
        qp = s.build(0)
        rest = crops
    touched = False
    for k in rest:
        for r in first:
            touched = True
            ask(qp, r)
        k = k if k >= 0 else None
        if case['api'] == 'dynamics':
            qp.dynamic.crop_trajectory(k)
            # the object on top of it is a new one
            import dynaphopy
            q = qp.get_reduced_q_vector()
            qp = dynaphopy.Quasiparticle(qp.dynamic)
            qp.set_reduced_q_vector(q)
        else:
            qp.crop_trajectory(k)
    ctx.nontrivial(touched and a > 0)
    ctx.event(case['api'])
    ctx.event('velocity given' if case['velocity'] else 'velocity derived')
    ref = s.build(a)
    # velocities derived from the coordinates before the crop keep the neighbour of the first step
    fuzzy = not case['velocity']
    order = list(gen.rng(case['seed'] + 9).permutation(len(reads)))
    for i in order:
        r = reads[i]
        if fuzzy and r in ('temperature', 'vc', 'wave', 'phonon', 'full', 'partials', 'velocity', 'mass'):
            if r not in ('velocity', 'mass', 'vc') or (case['irregular'] and a > 0):
                continue
            got, want = ask(qp, r)[1:], ask(ref, r)[1:]
        else:
            got, want = ask(qp, r), ask(ref, r)
        ctx.check(got.shape == want.shape, lambda: '%s: shape %s, expected %s' % (r, got.shape, want.shape))
        top = np.abs(want).max()
        ctx.close(got, want, '%s of the last %d of %d steps' % (r, keep, n), rtol=1e-5, atol=1e-7 * top + 1e-12)


def vc_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C'), lo=350, hi=600),
        'dim': gen.dims(1, 2, 4), 'n': st.integers(30, 60), 'seed': gen.seeds(), 'alg': st.sampled_from([0, 1, 2, 3]),
        'crops': st.lists(st.integers(-1, 70), min_size=1, max_size=2), 'read': st.booleans(), 'constructor': st.booleans()})


def run_vc(case, ctx):
    """a wave-vector projection loaded from a file"""
    import dynaphopy
    from dynaphopy.dynamics import Dynamics
    c = gen.build_crystal(case['crystal'])
    n = case['n']
    r = gen.rng(case['seed'])
    vc = r.normal(size=(n, c.nprim, 3)) + 1j * r.normal(size=(n, c.nprim, 3))
    t = 1.0 + np.arange(n) * 0.01
    S = np.diag(case['dim']).dot(c.cell)
    crops = [k if not 0 < k < 16 else k + 16 for k in case['crops']]

    def build(a, **k):
        from dynaphopy.interface.phonopy_link import ForceConstants
        s = gen.make_structure(c)
        s.set_force_constants(ForceConstants(gen.spring_force_constants(c, case['dim'], 3), supercell=np.diag(case['dim'])))
        qp = dynaphopy.Quasiparticle(Dynamics(structure=s, time=t[a:].copy(), supercell=S), vc=vc[a:].copy(), **k)
        p = qp.parameters
        p.power_spectra_algorithm = case['alg']
        p.number_of_coefficients_mem = 6
        p.correlation_function_step = 4
        p.spectrum_resolution = 2.2
        p.frequency_range = np.arange(0, 25, 2.2)
        p.use_symmetry = False
        return qp
    keep = n
    for k in crops:
        if k > 0:
            keep = min(keep, k)
    rest = list(crops)
    if case['constructor']:
        k = rest.pop(0)
        qp = build(0, last_steps=k if k >= 0 else None)
    else:
        qp = build(0)
    kinds = ['vc', 'vq', 'wave', 'phonon', 'time', 'step']

    def get(q, k):
        return np.array(q.get_vq()) if k == 'vq' else ask(q, k)
    for k in rest:
        if case['read']:
            for x in kinds:
                get(qp, x)
        qp.crop_trajectory(k if k >= 0 else None)
    ctx.nontrivial(keep < n and case['read'] and bool(rest))
    ref = build(n - keep)
    for k in kinds:
        ctx.close(get(qp, k), get(ref, k), '%s of the last %d of %d steps' % (k, keep, n), rtol=1e-7, atol=1e-9)
    ctx.close(get(qp, 'vc'), vc[n - keep:], 'projection of the last steps', rtol=1e-12)


SUBS = [Sub('run', strategy, run, quick=300, thorough=4000, shards=5, tshards=5),
        Sub('projection', vc_strategy, run_vc, quick=100, thorough=1500, shards=2, tshards=3)]
