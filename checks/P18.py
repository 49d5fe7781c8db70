"""P18: quasiparticle frequencies and linewidths of runs made of known phonons."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub
from checks.P08 import masses
from checks.P09 import THZ, dynmat

PROPERTY = 'P18'
RULE = ('random crystals, force constants and supercells; runs in which every phonon mode decays with a known rate and '
        'oscillates with a frequency known and different from the harmonic one; with and without symmetry, FFT back ends, '
        'fitting functions, quasi-harmonic force constants, force constants of a supercell other than that of the run; '
        'frequencies within a tenth of the linewidth, linewidths within a tenth; non-trivial when there is more than one '
        'wave vector')
ASSUMPTIONS = ['frequencies and linewidths are compared where modes are well defined (frequency at least four '
               'linewidths)']


def strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I', 'F'), lo=350, hi=600),
        'dim': gen.dims(1, 3, 4), 'small': st.sampled_from(['same', 'same', 'md', 'fc']), 'seed': gen.seeds(), 'symmetry': st.booleans(),
        'alg': st.sampled_from([2, 3]), 'fit': st.sampled_from([0, 0, 1]), 'shift': st.integers(-12, 10),
        'gamma': st.integers(120, 180), 'slope': st.integers(0, 6), 'qha': st.sampled_from([0, 0, 6, -7]),
        'atype': st.booleans(), 'soft': st.sampled_from([0, 0, 0, 6, 9])})


def evolve(qp, c, dim, qs, n, dt, freq, gamma, seed):
    """velocities of a run with every mode of every wave vector"""
    pos, idx = gen.supercell_positions(c, dim)
    m = masses(c, dim)
    frac = pos.dot(np.linalg.inv(c.prim))
    t = np.arange(n) * dt
    r = gen.rng(seed)
    v = np.zeros((n, len(pos), 3), complex)
    for q in qs:
        qp.set_reduced_q_vector(q)
        ev, fr = np.array(qp.get_eigenvectors()), np.array(qp.get_frequencies())
        for k in range(len(fr)):
            if abs(fr[k]) < 0.05:
                continue
            A = r.uniform(0.7, 1.3) * np.exp(2j * np.pi * r.uniform())
            w, g = 2 * np.pi * freq(fr[k]), gamma(fr[k])
            z = A * (-1j * w - g) * np.exp((-1j * w - g) * t)
            pat = ev[k][c.ptype[idx]] * np.exp(2j * np.pi * frac.dot(q))[:, None] / np.sqrt(m)[:, None]
            v += z[:, None, None] * pat[None]
    return v.real


def heights(v, c, dim, q, e, f, dt):
    """height of the spectrum of a mode at both signs of a frequency"""
    pos, idx = gen.supercell_positions(c, dim)
    pat = e[c.ptype[idx]] * np.exp(2j * np.pi * pos.dot(np.linalg.inv(c.prim)).dot(q))[:, None] * np.sqrt(masses(c, dim))[:, None]
    y = np.einsum('ak,tak->t', pat.conj(), v)
    t = np.arange(len(v)) * dt
    return [abs(y.dot(np.exp(s * 2j * np.pi * f * t))) ** 2 for s in (1, -1)]


def run(case, ctx):
    import dynaphopy
    from dynaphopy.dynamics import Dynamics
    c = gen.build_crystal(case['crystal'])
    dim = case['dim']
    fcdim = dim if case['small'] == 'same' else [d if d % 2 else d // 2 for d in dim]
    dt, n = 0.02, 1000
    qp, _, _ = calc.quasiparticle(c, dim, nstep=2, seed=case['seed'], fcdim=fcdim)
    harmonic = gen.spring_force_constants(c, fcdim, case['seed'] % 97)
    every = calc.commensurate_reference(c, dim)
    x, s = case['shift'] / 100., case['slope'] / 1000.

    if case['soft']:
        # differences of two models of springs: imaginary harmonic frequencies, also of optical modes at Gamma
        from dynaphopy.interface.phonopy_link import ForceConstants
        harmonic = harmonic - case['soft'] / 10. * gen.spring_force_constants(c, fcdim, case['seed'] % 97 + 1)
        structure = qp.dynamic.structure
        structure.set_force_constants(ForceConstants(harmonic, supercell=np.diag(fcdim)))
        qp = dynaphopy.Quasiparticle(Dynamics(structure=structure, velocity=qp.dynamic.velocity, time=np.arange(2.),
                                              trajectory=qp.dynamic.trajectory, supercell=np.diag(dim).dot(c.cell)))

    def freq(f):
        if f < 0:
            return 5.0 - 0.7 * f
        return f * (1 + x) - s * f * f / 2

    def gamma(f):
        return case['gamma'] / 100. * (1 + 0.3 * np.sin(f))
    fmax, fmin = 0, 0
    for q in every:
        qp.set_reduced_q_vector(q)
        fmax, fmin = max(fmax, np.max(qp.get_frequencies())), min(fmin, np.min(qp.get_frequencies()))
    if fmax < 1:
        ctx.event('no force')
        return
    if fmax > 18:
        ctx.event('frequencies too high for the time step')
        return
    if fmin < -0.05:
        ctx.event('imaginary harmonic frequencies')
    v = evolve(qp, c, dim, every, n, dt, freq, gamma, case['seed'])
    d = Dynamics(structure=qp.dynamic.structure, velocity=v.astype(complex), time=np.arange(n) * dt,
                 supercell=np.diag(dim).dot(c.cell))
    one = dynaphopy.Quasiparticle(d)
    p = one.parameters
    p.use_symmetry = case['symmetry']
    p.mesh_phonopy = (6, 6, 6)
    p.silent = True
    p.spectrum_resolution = 0.048
    p.fitting_function = case['fit']
    p.use_MD_cell_commensurate = case['small'] == 'md'
    if case['soft']:
        one.set_frequency_limits([0, 24])
    one.set_reduced_q_vector([0.1, 0, 0])
    one.select_power_spectra_algorithm(case['alg'])
    factor = 1.0
    if case['qha']:
        from phonopy.file_IO import write_FORCE_CONSTANTS
        path = os.path.join(ctx.tempdir(), 'fc')
        factor = (1 + case['qha'] / 100.) ** 2
        write_FORCE_CONSTANTS(harmonic * factor, filename=path)
        one.set_qha_force_constants(path)
    data = one.get_commensurate_points_data()
    used = fcdim if case['small'] == 'fc' else dim
    qs = calc.commensurate_reference(c, used)
    got_q = np.array(data['q_points'])
    ctx.nontrivial(len(qs) > 1)
    ctx.event('supercell: ' + case['small'])
    ctx.check(len(got_q) == len(qs), lambda: '%d wave vectors, %d expected' % (len(got_q), len(qs)))
    ctx.close(np.array(one.get_reduced_q_vector()), [0.1, 0, 0], 'wave vector afterwards')
    ctx.close(np.array(data['fc_supercell']), np.diag(used), 'supercell')
    rng_ = np.array(one.get_frequency_range())
    top = max(fmax, 1e-3)
    ctx.check(rng_[0] == 0 and (1.05 * top < rng_[-1] < 1.6 * top or case['soft']), lambda: 'frequency range %g to %g, phonons up to %g' % (rng_[0], rng_[-1], top))
    defined = set()
    for q in qs:
        dq = got_q - q
        k = np.where(np.abs(dq - np.round(dq)).max(axis=1) < 1e-6)[0]
        ctx.check(len(k) == 1, lambda: 'wave vector %s found %d times' % (q, len(k)))
        k = k[0]
        one.set_reduced_q_vector(got_q[k])
        fr = np.array(one.get_frequencies())
        shift_qha = (np.sqrt(factor) - 1) * fr
        if case['qha']:
            ctx.close(np.array(one.get_qha_shift(got_q[k])), shift_qha, 'quasi-harmonic shift', atol=1e-4, rtol=1e-4)
        f, w = np.array(data['frequencies'][k]), np.array(data['linewidths'][k])
        ctx.close(np.array(data['eigenvectors'][k]), np.array(one.get_eigenvectors()), 'eigenvectors', atol=1e-9)
        ctx.close(np.array(data['frequency_shifts'][k])[f != 0], (f - fr)[f != 0], 'frequency shifts', atol=1e-3)
        if np.abs(got_q[k]).max() < 1e-9:
            acoustic = np.argsort(np.abs(fr))[:3]
            if len(fr) > 3 and np.sort(np.abs(fr))[3] < 0.05:
                ctx.event('more than three modes without frequency at Gamma')
            else:
                ctx.check((f[acoustic] == 0).all() and (w[acoustic] == 0).all(), 'acoustic modes at Gamma')
                if acoustic.min() > 0:
                    ctx.event('imaginary frequencies at Gamma')
        if all(abs(x) < 0.05 or (freq(x) >= 4 * gamma(x) / np.pi and freq(x) + gamma(x) / np.pi <= rng_[-1]) for x in fr):
            defined.add(k)
        ev = np.array(one.get_eigenvectors())
        for i in range(len(fr)):
            if abs(fr[i]) < 0.05:
                continue
            same = [j for j in range(len(fr)) if abs(fr[j] - fr[i]) < 1e-3]
            if not case['symmetry'] and len(same) > 1:
                # one vector of a degenerate set may move by chance much less than the others
                power = {j: heights(v, c, dim, got_q[k], ev[j], freq(fr[i]), dt) for j in same}
                if min(power[i]) < 0.1 * max(max(x) for x in power.values()):
                    ctx.event('degenerate mode at rest')
                    continue
            want, width = freq(fr[i]), gamma(fr[i]) / np.pi
            if want < 4 * width or want + width > rng_[-1]:
                continue
            # degenerate modes are averaged: the frequencies of the set are those of one of them
            tol = 0.1 * width + width ** 2 / (2 * want)
            ctx.close(f[i] - shift_qha[i], want, 'frequency of mode %d at %s (harmonic %.4f, linewidth %.4f)' % (
                i, q, fr[i], width), rtol=0, atol=tol)
            ctx.close(w[i], width, 'linewidth of mode %d at %s (frequency %.4f)' % (i, q, want), rtol=0.12)
    fc = one.get_renormalized_force_constants().get_array()
    # modes of a degenerate set have one frequency (with symmetry): otherwise q and -q may not agree
    for k in range(len(got_q)) if case['symmetry'] else []:
        if case['soft'] and k not in defined:
            continue
        e = np.array(data['eigenvectors'][k])
        e = e.reshape(len(e), -1)
        f = np.array(data['frequencies'][k])
        want = (e.T * (np.sign(f) * (f / THZ) ** 2)[None]).dot(e.conj())
        ctx.close(dynmat(c, used, fc, got_q[k]), want, 'renormalized force constants at %s' % (got_q[k],), rtol=0,
                  atol=3e-2 * np.abs(want).max() + 1e-4)


SUBS = [Sub('decaying_modes', strategy, run, quick=200, thorough=1500, shards=8, tshards=8)]
