"""P28: harmonic trajectories."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub, quiet, reset_globals
from checks import P26, P27

PROPERTY = 'P28'
RULE = ('random crystals, force constants, supercells, time steps and temperatures; the displacements generated are projected onto the '
        'phonons calculated by phonopy directly: each coordinate has to oscillate at the frequency of its mode only, with the kinetic '
        'energy kT/2, and the projections have to contain the whole displacement; non-trivial with more than one wave vector')
KB = 0.8314462618                     # u A^2 / (ps^2 K)


def strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I', 'F')), 'fcdim': gen.dims(1, 2, 4),
        'dim': gen.dims(1, 3, 6), 'seed': gen.seeds(), 'T': st.integers(1, 1500), 'dt': st.integers(1, 20), 'steps': st.integers(12, 60),
        'phase': st.sampled_from([0, 0, 1, 2]), 'memmap': st.booleans(), 'least': st.sampled_from([None, None, 30, 80]),
        'script': st.sampled_from([False, False, True]), 'soft': st.sampled_from([0, 0, 6, 11])})


def group(f, tol=1e-3):
    o = np.argsort(f)
    out = [[o[0]]]
    for i in o[1:]:
        if f[i] - f[out[-1][-1]] < tol:
            out[-1].append(i)
        else:
            out.append([i])
    return out


def run(case, ctx):
    import h5py
    from dynaphopy.interface import iofile
    from dynaphopy.interface.phonopy_link import ForceConstants
    c = gen.build_crystal(case['crystal'])
    P26.sort_elements(c)
    fc = gen.spring_force_constants(c, case['fcdim'], case['seed'] % 97)
    if case['soft']:
        # differences of two models of springs have imaginary frequencies too
        fc = fc - case['soft'] / 10. * gen.spring_force_constants(c, case['fcdim'], case['seed'] % 97 + 1)
    dim, T, dt = case['dim'], float(case['T']), case['dt'] / 1000.
    qs = calc.commensurate_reference(c, dim)
    ph = P27.phonopy(c, case['fcdim'], fc)
    modes = [ph.get_frequencies_with_eigenvectors(q) for q in qs]
    least = 0.1
    if any((f < -1e-2).any() for f, _ in modes):
        ctx.event('unstable')
    # modes of imaginary frequency move at its absolute value
    modes = [(np.abs(f), e) for f, e in modes]
    pos, idx = gen.supercell_positions(c, dim)
    d = ctx.tempdir()
    os.environ['DYNAPHOPY_TEMPDIR'] = d
    os.chdir(d)
    total = (case['steps'] - 0.5) * dt
    par = {}
    if case['script']:
        P27.write_input(c, case['fcdim'], fc)
        argv = ['input', '--generate_trajectory', repr(total), repr(dt), repr(T), '--silent', '-sv', 'out.h5', '--dim'] + dim
        if case['memmap']:
            argv.append('--memmap')
        code, text = calc.run_script('dynaphopy', argv, d)
        ctx.check(code == 0, lambda: 'ended with code %s: %s' % (code, text[-500:]))
        with h5py.File('out.h5', 'r') as f:
            trajectory, time = np.array(f['trajectory']), np.array(f['time'])
            ctx.close(np.array(f['super_cell']), dim, 'supercell')
        phase = 0.
        ctx.event('script')
    else:
        s = gen.make_structure(c)
        s.set_force_constants(ForceConstants(fc, supercell=np.diag(case['fcdim'])))
        phase = float(case['phase'])
        if case['least'] is not None:
            par['minimum_frequency'] = least = case['least'] / 10.
        with quiet():
            dyn = iofile.generate_test_trajectory(s, supercell=dim, total_time=total, time_step=dt, temperature=T, silent=True,
                                                  memmap=case['memmap'], phase_0=phase, **par)
        trajectory, time = np.array(dyn.trajectory), np.array(dyn.get_time())
        ctx.close(np.array(dyn.get_supercell_matrix()), dim, 'supercell')
        ctx.close(np.array(dyn.get_supercell()), np.diag(dim).dot(c.cell), 'supercell vectors')
        ctx.close(np.array(dyn.get_energy()), np.full(len(time), 3 * len(pos) * KB * T), 'energy of the harmonic system', rtol=1e-4)
    n = case['steps']
    ctx.check(len(trajectory) == n, '%d steps instead of %d' % (len(trajectory), n))
    ctx.close(time, np.arange(n) * dt, 'times', atol=1e-12)
    ctx.close(trajectory.imag, np.zeros(trajectory.shape), 'imaginary part', atol=1e-12)
    u = trajectory.real - pos
    mass = np.array([gen.MASSES[c.elements[i]] for i in idx])
    types = np.array(c.ptype)[idx]
    ncells = len(pos) // c.nprim
    B = np.linalg.inv(c.prim).T * 2 * np.pi
    seen = np.zeros_like(u, dtype=complex)
    amplitude = np.sqrt(mass)[None, :, None] * u
    scale = np.sqrt(KB * T)
    for q, (f, e) in zip(qs, modes):
        wave = np.exp(1j * pos.dot(q.dot(B)))
        vec = e.T.reshape(len(f), c.nprim, 3)[:, representative(c, ph)]
        if (np.abs(f - least) < 1e-4).any():
            ctx.event('frequency at the limit')
            return
        for g in group(f):
            w = 2 * np.pi * f[g].mean()
            basis = [vec[k][types] * wave[:, None] / np.sqrt(ncells) for k in g]
            x = np.array([np.einsum('ak,tak->t', b.conj(), amplitude) for b in basis])
            for b, y in zip(basis, x):
                seen += y[:, None, None] * b[None]
            if f[g[0]] < least:
                ctx.close(np.abs(x).max(), 0, 'modes left out at %s' % q, atol=1e-6 * scale)
                continue
            m = np.array([np.exp(-1j * w * time), np.exp(1j * w * time)]).T
            if np.linalg.cond(m) > 1e5:
                continue                       # the run is shorter than the period
            co, _, _, _ = np.linalg.lstsq(m, x.T, rcond=None)
            ctx.close(m.dot(co), x.T, 'oscillation of the modes of %.4f THz at %s' % (w / 2 / np.pi, q), rtol=1e-4,
                      atol=(2e-4 + 10 * np.ptp(f[g]) * time[-1]) * scale / w)      # nearly equal frequencies run apart
            if np.abs(q * 2 - np.round(q * 2)).max() < 1e-6 and np.linalg.cond(m) > 100:
                continue
            # <K> over all phases: w^2 (|a|^2 + |b|^2) / 2 = kT / 2 for each mode
            rtol = (2e-3 + 10 * np.ptp(f[g]) * time[-1]) * max(1, np.linalg.cond(m) / 50)
            kinetic, want = w * w * (np.abs(co) ** 2).sum() / 2, len(g) * KB * T / 2
            if abs(kinetic / want - 1.5) < rtol:
                ctx.known('generated-energy-3/2', 'every mode of a generated harmonic trajectory has 3/2 of the kinetic energy of the '
                                                  'temperature asked for')
            else:
                ctx.close(kinetic, want, 'kinetic energy of the modes of %.4f THz at %s' % (w / 2 / np.pi, q), rtol=rtol)
    ctx.close(seen, amplitude.astype(complex), 'displacements outside the phonons', rtol=1e-6, atol=1e-6 * max(np.abs(amplitude).max(), 1e-9))
    ctx.nontrivial(len(qs) > 1)


def representative(c, ph):
    """Index in phonopy's primitive cell of each type of atom of the structure."""
    p = ph.primitive
    out = []
    for t in range(c.nprim):
        x = c.positions[list(c.ptype).index(t)]
        d = (p.positions - x).dot(np.linalg.inv(c.prim))
        out.append(int(np.argmin(np.abs(d - np.round(d)).max(axis=1))))
    return out


SUBS = [Sub('phonons', strategy, run, quick=160, thorough=4000, shards=4, tshards=6)]
