"""P08: projection onto a wave vector."""
import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub

PROPERTY = 'P08'
RULE = ('random crystals (centred cells, shuffled atoms), supercells, velocities and wave vectors (commensurate and '
        'not, negative, outside the first zone); reference sum over atoms, Parseval sum over all commensurate points '
        'and shifts by reciprocal vectors; non-trivial when q is not zero and there is more than one primitive cell')


def strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=3), 'dim': gen.dims(1, 3, 8), 'n': st.integers(2, 5),
        'seed': gen.seeds(), 'q': st.lists(st.integers(-12, 12), min_size=3, max_size=3),
        'den': st.sampled_from([1, 2, 3, 4, 7]), 'atom': st.integers(-1, 2), 'velocity': st.booleans(),
        'memmap': st.booleans()})


def masses(c, dim):
    pos, idx = gen.supercell_positions(c, dim)
    return np.array([gen.MASSES[c.elements[i]] for i in idx])


def reference(c, dim, v, q, atom=-1):
    """q in reduced coordinates of the primitive reciprocal cell."""
    pos, idx = gen.supercell_positions(c, dim)
    m = masses(c, dim)
    types = c.ptype[idx]
    # q . R = 2 pi q_reduced . (fractional coordinates in the primitive cell)
    frac = pos.dot(np.linalg.inv(c.prim))
    ph = np.exp(-2j * np.pi * frac.dot(np.asarray(q, float)))
    ncell = len(pos) / c.nprim
    out = np.zeros((len(v), c.nprim, 3), complex)
    for s in range(c.nprim):
        if atom > -1 and s != atom:
            continue
        sel = types == s
        out[:, s, :] = np.einsum('tid,i,i->td', v[:, sel], ph[sel], np.sqrt(m[sel])) / np.sqrt(ncell)
    return out


def run(case, ctx):
    import os
    c = gen.build_crystal(case['crystal'])
    q = np.array(case['q']) / float(case['den'])
    atom = case['atom'] if case['atom'] < c.nprim else -1
    tmp = ctx.tempdir()
    os.environ['DYNAPHOPY_TEMPDIR'] = tmp
    qp, u, v = calc.quasiparticle(c, case['dim'], nstep=case['n'], seed=case['seed'], fc=False, memmap=case['memmap'],
                                  project_on_atom=atom)
    pos, idx = gen.supercell_positions(c, case['dim'])
    ctx.nontrivial(np.abs(q).max() > 0 and len(pos) > c.nprim)
    ctx.event('%d primitive atoms' % c.nprim)
    qp.set_reduced_q_vector(q)
    # the wave vector in Cartesian coordinates
    ctx.close(qp.get_q_vector().dot(c.prim.T), 2 * np.pi * q, 'q . a_i = 2 pi q_i', atol=1e-7)
    got = np.array(qp.get_vc())
    want = reference(c, case['dim'], v, q, atom)
    ctx.close(got, want, 'projection', rtol=1e-3, atol=1e-4 * np.abs(want).max() + 1e-9)
    ctx.close(np.array(qp.dynamic.get_velocity_mass_average()),
              v * np.sqrt(masses(c, case['dim']))[None, :, None], 'mass weighted velocity', rtol=1e-4, atol=1e-9)
    # shifting q by a reciprocal lattice vector only changes the phase of each atom
    g = np.array([1, -2, 1])
    qp.set_reduced_q_vector(q + g)
    shifted = np.array(qp.get_vc())
    ctx.close(np.abs(shifted), np.abs(got), 'modulus after a reciprocal lattice shift', rtol=1e-6,
              atol=1e-7 * np.abs(got).max() + 1e-9)
    # opposite q: complex conjugate (velocities are real)
    qp.set_reduced_q_vector(-q)
    ctx.close(np.array(qp.get_vc()), got.conj(), 'opposite wave vector', rtol=1e-6,
              atol=1e-7 * np.abs(got).max() + 1e-9)


def parseval_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2), 'dim': gen.dims(1, 3, 6), 'n': st.integers(2, 4),
        'seed': gen.seeds()})


def run_parseval(case, ctx):
    c = gen.build_crystal(case['crystal'])
    qs = calc.commensurate_reference(c, case['dim'])
    qp, u, v = calc.quasiparticle(c, case['dim'], nstep=case['n'], seed=case['seed'], fc=False)
    ctx.nontrivial(len(qs) > 1)
    total = 0
    for q in qs:
        qp.set_reduced_q_vector(q)
        ctx.check(qp.check_commensurate(q), lambda: 'commensurate point %s not recognized' % (q,))
        total = total + (np.abs(np.array(qp.get_vc())) ** 2).sum(axis=(1, 2))
    want = (v ** 2 * masses(c, case['dim'])[None, :, None]).sum(axis=(1, 2))
    ctx.close(total, want, 'sum over commensurate points of the squared projections', rtol=1e-4)


SUBS = [Sub('reference', strategy, run, quick=160, thorough=5000, shards=4, tshards=5),
        Sub('parseval', parseval_strategy, run_parseval, quick=70, thorough=1500, shards=3, tshards=3)]
