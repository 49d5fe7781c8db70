"""P09: phonon modes and projection onto them."""
import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub
from checks.P08 import masses, reference

PROPERTY = 'P09'
RULE = ('random crystals with stable random pair-spring force constants, random commensurate wave vectors and '
        'velocities; independent dynamical matrix, completeness of the mode basis, and runs in which one mode only is '
        'excited; non-trivial when q is not zero or there is more than one primitive atom')
ASSUMPTIONS = ['the independent dynamical matrix is compared at wave vectors commensurate with the force constants '
               'supercell, where it does not depend on the choice of periodic images']


def strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=3), 'dim': gen.dims(1, 3, 6), 'n': st.integers(2, 4),
        'seed': gen.seeds(), 'pick': st.integers(0, 1000), 'mode': st.integers(0, 8)})


THZ = 15.633302            # sqrt(eV / (A^2 u)) in THz


def dynmat(c, dim, fc, q):
    """Dynamical matrix at a commensurate q, D[s a, s' b] with phases between full positions."""
    pos, idx = gen.supercell_positions(c, dim)
    m = masses(c, dim)
    types = c.ptype[idx]
    first = [int(np.where(types == s)[0][0]) for s in range(c.nprim)]
    frac = pos.dot(np.linalg.inv(c.prim))
    n = c.nprim
    D = np.zeros((n, 3, n, 3), complex)
    for s in range(n):
        i = first[s]
        ph = np.exp(2j * np.pi * (frac - frac[i]).dot(q))
        for j in range(len(pos)):
            D[s, :, types[j], :] += fc[i, j] * ph[j] / np.sqrt(m[i] * m[j])
    return D.reshape(3 * n, 3 * n)


def setup(case):
    c = gen.build_crystal(case['crystal'])
    qp, u, v = calc.quasiparticle(c, case['dim'], nstep=case['n'], seed=case['seed'])
    qs = calc.commensurate_reference(c, case['dim'])
    q = qs[case['pick'] % len(qs)]
    return c, qp, v, qs, q


def run(case, ctx):
    from dynaphopy import projection
    c, qp, v, qs, q = setup(case)
    ctx.nontrivial(np.abs(q).max() > 0 or c.nprim > 1)
    ctx.event('%d primitive atoms' % c.nprim)
    qp.set_reduced_q_vector(q)
    ev = np.array(qp.get_eigenvectors())
    fr = np.array(qp.get_frequencies())
    n3 = 3 * c.nprim
    ctx.check(ev.shape == (n3, c.nprim, 3) and fr.shape == (n3,), 'shape of the modes')
    e = ev.reshape(n3, n3)
    ctx.close(e.conj().dot(e.T), np.eye(n3), 'orthonormality', atol=1e-6)
    ctx.check((np.diff(fr) >= -1e-9).all(), 'frequencies not ascending')
    fc = gen.spring_force_constants(c, case['dim'], case['seed'] % 97)
    D = dynmat(c, case['dim'], fc, q)
    lam = np.sign(fr) * (fr / THZ) ** 2
    scale = np.abs(np.linalg.eigvalsh(D)).max() + 1e-9
    ctx.close(D.dot(e.T), e.T * lam[None], 'dynamical matrix times eigenvector', rtol=0, atol=2e-4 * scale)
    # projection: reference, completeness, norm
    vc = np.array(qp.get_vc())
    vq = np.array(qp.get_vq())
    ctx.close(vc, reference(c, case['dim'], v, q), 'wave vector projection', rtol=1e-3,
              atol=1e-4 * np.abs(vc).max() + 1e-9)
    want = vc.reshape(len(v), n3).dot(e.conj().T)
    tol = 1e-9 * np.abs(vc).max() + 1e-12
    ctx.close(vq, want, 'mode projection', atol=tol)
    ctx.close(vq.dot(e), vc.reshape(len(v), n3), 'reconstruction from the modes', rtol=1e-5, atol=1e-5 * np.abs(vc).max())
    ctx.close((np.abs(vq) ** 2).sum(1), (np.abs(vc) ** 2).sum(axis=(1, 2)), 'norm', rtol=1e-5)
    ctx.close(projection.project_onto_phonon2(vc, ev), vq, 'the two implementations', atol=tol)


def run_single(case, ctx):
    """Only mode k of wave vector q is excited."""
    from dynaphopy.dynamics import Dynamics
    import dynaphopy
    c, qp, v, qs, q = setup(case)
    two = 2 * q - np.round(2 * q)
    if np.abs(two).max() < 1e-6:
        ctx.event('q equivalent to -q')
        return
    dim = case['dim']
    qp.set_reduced_q_vector(q)
    ev = np.array(qp.get_eigenvectors())
    k = case['mode'] % len(ev)
    pos, idx = gen.supercell_positions(c, dim)
    m = masses(c, dim)
    frac = pos.dot(np.linalg.inv(c.prim))
    r = gen.rng(case['seed'])
    A = r.normal(size=5) + 1j * r.normal(size=5)
    pattern = ev[k][c.ptype[idx]] * np.exp(2j * np.pi * frac.dot(q))[:, None] / np.sqrt(m)[:, None]
    vel = (A[:, None, None] * pattern[None]).real
    d = Dynamics(structure=qp.dynamic.structure, velocity=vel.astype(complex), time=np.arange(5) * 0.001,
                 supercell=np.diag(dim).dot(c.cell))
    one = dynaphopy.Quasiparticle(d)
    ctx.nontrivial()
    ncell = len(pos) / c.nprim
    amp = np.sqrt(ncell) / 2 * A
    one.set_reduced_q_vector(q)
    want = np.zeros((5, len(ev)), complex)
    want[:, k] = amp
    ctx.close(np.array(one.get_vq()), want, 'mode projection of a single excited mode', rtol=1e-3,
              atol=1e-3 * np.abs(amp).max())
    for p in qs:
        for sign in (1, -1):
            if np.abs(p - sign * q - np.round(p - sign * q)).max() < 1e-6:
                break
        else:
            one.set_reduced_q_vector(p)
            ctx.close(np.array(one.get_vc()), np.zeros((5, c.nprim, 3)), 'projection onto another wave vector',
                      atol=1e-3 * np.abs(amp).max())


SUBS = [Sub('modes', strategy, run, quick=90, thorough=2500, shards=4, tshards=5),
        Sub('single', strategy, run_single, quick=80, thorough=1500, shards=4, tshards=3)]
