"""P13: decomposition of power spectra over atoms, coordinates, modes and wave vectors."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub
from checks import P10

PROPERTY = 'P13'
RULE = ('random crystals, supercells and velocities, every algorithm (GPU ones through stand-ins), silent or not; full = '
        'sum of the partial spectra = sum over atom types = sum over coordinates of each type; wave-vector spectrum = '
        'sum over projected atoms; direct transform: full = sum over commensurate wave vectors, wave vector = sum over '
        'modes; non-trivial with more than one primitive atom and more than one primitive cell')


def strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=3), 'dim': gen.dims(1, 3, 6), 'n': st.integers(24, 60),
        'seed': gen.seeds(), 'alg': st.sampled_from([0, 1, 2, 3, 4, 5]), 'silent': st.booleans(),
        'q': st.integers(0, 20), 'nf': st.integers(5, 30), 'step': st.integers(1, 8), 'integ': st.booleans(),
        'order': gen.seeds(), 'file': st.booleans()})


def setup(case, **k):
    c = gen.build_crystal(case['crystal'])
    dt = 0.01
    freqs = np.arange(case['nf']) * (40. / case['nf'] + 0.013)
    qp, u, v = calc.quasiparticle(c, case['dim'], nstep=case['n'], dt=dt, seed=case['seed'], noise=0.4,
                                  power_spectra_algorithm=case.get('alg', 0), silent=case['silent'],
                                  frequency_range=freqs, use_symmetry=False, number_of_coefficients_mem=8,
                                  correlation_function_step=case['step'], integration_method=int(case['integ']), **k)
    return c, qp, freqs


def run(case, ctx):
    with P10.StandIns():
        c, qp, freqs = setup(case, fc=False)
        n = len(freqs)
        pos, idx = gen.supercell_positions(c, case['dim'])
        types = c.ptype[idx]
        ctx.nontrivial(c.nprim > 1 and len(pos) > c.nprim)
        ctx.event('algorithm %d' % case['alg'])
        ctx.event('silent' if case['silent'] else 'not silent')
        parts = None

        def full():
            return np.array(qp.get_power_spectrum_full())

        if case['order'] % 2:
            total = full()
            partials = np.array(qp.get_power_spectrum_partials())
        else:
            partials = np.array(qp.get_power_spectrum_partials())
            total = full()
        top = np.abs(total).max()

        def same(a, b, msg):
            ctx.close(a, b, msg, rtol=1e-6, atol=1e-8 * top)
        ctx.check(partials.shape == (n, len(pos)), lambda: 'partials have shape %s' % (partials.shape,))
        same(total, partials.sum(axis=1), 'full spectrum and the sum of partials')
        if case['file']:
            path = os.path.join(ctx.tempdir(), 'partials')
            qp.get_power_spectrum_partials(save_to_file=path)
            same(np.loadtxt(path).reshape(n, -1), np.column_stack([freqs, partials]), 'saved partials')
        types_sum = 0
        r = gen.rng(case['order'])
        for t in r.permutation(c.nprim):
            qp.set_projection_onto_atom_type(int(t))
            reads = list(r.permutation([-1, 0, 1, 2]))
            got = {int(k): np.array(qp.get_power_spectrum_full(projection_on_coordinate=int(k))) for k in reads}
            same(got[-1], partials[:, types == t].sum(axis=1), 'atom type %d and the sum of its partials' % t)
            same(got[0] + got[1] + got[2], got[-1], 'atom type %d and the sum over coordinates' % t)
            vm = np.array(qp.dynamic.get_velocity_mass_average())[:, types == t]
            from dynaphopy.power_spectrum import power_spectrum_functions as psf
            for k in range(3):
                ref = psf[case['alg']][0](np.ascontiguousarray(vm[:, :, k]), qp.dynamic, qp.parameters)
                same(got[k], ref.sum(axis=1), 'coordinate %d of atom type %d' % (k, t))
            types_sum = types_sum + got[-1]
        same(types_sum, total, 'sum over atom types and the full spectrum')


def run_q(case, ctx):
    """wave-vector spectrum is the sum of its projections onto atoms"""
    with P10.StandIns():
        c, qp, freqs = setup(case, fc=False)
        qs = calc.commensurate_reference(c, case['dim'])
        q = qs[case['q'] % len(qs)]
        ctx.nontrivial(c.nprim > 1 and np.abs(q).max() > 0)
        qp.set_reduced_q_vector(q)
        total = np.array(qp.get_power_spectrum_wave_vector())
        parts = []
        for t in range(c.nprim):
            qp.set_projection_onto_atom_type(t)
            parts.append(np.array(qp.get_power_spectrum_wave_vector()))
        ctx.close(sum(parts), total, 'wave-vector spectrum and the sum of its projections onto atoms', rtol=1e-6,
                  atol=1e-8 * np.abs(total).max())


def q_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=3, min_atoms=1), 'dim': gen.dims(1, 3, 6), 'n': st.integers(24, 60),
        'seed': gen.seeds(), 'alg': st.sampled_from([0, 1, 2, 3, 4, 5]), 'silent': st.booleans(),
        'q': st.integers(0, 20), 'nf': st.integers(5, 30), 'step': st.integers(1, 8), 'integ': st.booleans()})


def sum_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I', 'F'), lo=350, hi=600),
        'dim': gen.dims(1, 2, 4), 'n': st.integers(20, 40), 'seed': gen.seeds(), 'silent': st.booleans(),
        'nf': st.integers(4, 12), 'step': st.integers(1, 8), 'integ': st.booleans()})


def run_sum(case, ctx):
    c, qp, freqs = setup(case)
    qs = calc.commensurate_reference(c, case['dim'])
    ctx.nontrivial(len(qs) > 1)
    ctx.event('%d wave vectors' % len(qs))
    total = np.array(qp.get_power_spectrum_full())
    top = np.abs(total).max()
    acc = 0
    for q in qs:
        qp.set_reduced_q_vector(q)
        w = np.array(qp.get_power_spectrum_wave_vector())
        p = np.array(qp.get_power_spectrum_phonon())
        ctx.close(p.sum(axis=1), w, 'wave vector %s: sum over modes and the wave-vector spectrum' % (q,), rtol=1e-5,
                  atol=1e-6 * top)
        acc = acc + w
    ctx.close(acc, total, 'sum over wave vectors and the full spectrum', rtol=1e-3, atol=1e-4 * top)


SUBS = [Sub('full', strategy, run, quick=120, thorough=3000, shards=4, tshards=5),
        Sub('wave_vector', q_strategy, run_q, quick=60, thorough=1500, shards=2, tshards=3),
        Sub('sum_rule', sum_strategy, run_sum, quick=32, thorough=800, shards=4, tshards=5)]
