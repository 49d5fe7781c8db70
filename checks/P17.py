"""P17: renormalized force constants."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Sub
from checks.P09 import THZ, dynmat

PROPERTY = 'P17'
RULE = ('random crystals and supercells; harmonic modes at the commensurate wave vectors with their own frequencies '
        '(round trip to the original force constants) and with renormalized ones (also imaginary), supercells other than that of the harmonic '
        'force constants, with and without symmetrization; oracle: the independent dynamical matrix of the result at '
        'every commensurate wave vector, the group average of the force constants, and the written file read back; '
        'non-trivial with more than one wave vector')


def strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I', 'F', 'P112')), 'dim': gen.dims(1, 3, 6),
        'other': gen.dims(1, 2, 4), 'same': st.booleans(), 'seed': gen.seeds(),
        'change': st.sampled_from(['none', 'scale', 'shift', 'curve', 'imaginary', 'zero']), 'amount': st.integers(1, 30),
        'per_q': st.booleans(), 'symmetrize': st.booleans(), 'file': st.booleans()})


CHANGE = {'none': lambda f, x: f, 'scale': lambda f, x: f * (1 + x), 'shift': lambda f, x: f + 3 * x,
          'curve': lambda f, x: f * (1 + x * f / 5.), 'imaginary': lambda f, x: f - 12 * x, 'zero': lambda f, x: 0 * f}


def same_pair(p, q):
    return any(np.abs(p - s * q - np.round(p - s * q)).max() < 1e-5 for s in (1, -1))


def group_average(fc, S, frac, numbers):
    import spglib
    sym = spglib.get_symmetry((S, frac, numbers), symprec=1e-5)
    out = np.zeros_like(fc)
    n = len(frac)
    for W, w in zip(sym['rotations'], sym['translations']):
        f = frac.dot(W.T) + w
        diff = f[:, None, :] - frac[None, :, :]
        diff -= np.round(diff)
        perm = np.argmin(np.linalg.norm(diff.dot(S), axis=2), axis=1)          # atom i goes to perm[i]
        R = S.T.dot(W).dot(np.linalg.inv(S.T))                                 # cartesian rotation
        rot = np.einsum('ab,ijbc,dc->ijad', R, fc, R)
        out[np.ix_(perm, perm)] += rot
    return out / len(sym['rotations']), len(sym['rotations'])


def run(case, ctx):
    from dynaphopy.interface import phonopy_link as pl
    from phonopy.file_IO import parse_FORCE_CONSTANTS
    c = gen.build_crystal(case['crystal'])
    hdim = case['dim']
    s = gen.structure_with_fc(c, hdim, case['seed'] % 97)
    fc = gen.spring_force_constants(c, hdim, case['seed'] % 97)
    dim = hdim if case['same'] else case['other']
    qs = np.array(pl.get_commensurate_points(s, np.diag(dim)))
    ctx.nontrivial(len(qs) > 1 and case['change'] != 'none')
    ctx.event('%s%s' % (case['change'], ' symmetrized' if case['symmetrize'] else ''))
    x = case['amount'] / 60.
    freqs, evs = [], []
    for q in qs:
        ev, f = pl.obtain_eigenvectors_and_frequencies(s, q, print_data=False)
        evs.append(ev)
        y = x
        if case['per_q']:
            lead = [k for k in range(len(qs)) if same_pair(qs[k], q)][0]
            y = x * gen.rng(case['seed'] + lead).uniform(0.2, 1)
        freqs.append(CHANGE[case['change']](f, y))
    freqs = np.array(freqs)
    keep = freqs.copy()
    plain = pl.get_renormalized_force_constants(freqs, evs, s, np.diag(dim), symmetrize=False)
    out = plain.get_array()
    pos, idx = gen.supercell_positions(c, dim)
    n = len(pos)
    ctx.check(out.shape == (n, n, 3, 3), lambda: 'shape %s' % (out.shape,))
    ctx.check(np.array_equal(keep, freqs), 'the frequencies were modified')
    ctx.close(np.array(plain.get_supercell()), np.diag(dim), 'supercell of the force constants')
    if case['change'] == 'none' and case['same']:
        ctx.close(out, fc, 'harmonic force constants recovered', rtol=0, atol=1e-4 * np.abs(fc).max())
    ctx.close(out, out.transpose(1, 0, 3, 2), 'symmetry of the second derivatives', rtol=0, atol=1e-6 * np.abs(out).max() + 1e-9)
    for q, ev, f in zip(qs, evs, freqs):
        e = np.array(ev).reshape(len(f), -1)
        want = (e.T * (np.sign(f) * (f / THZ) ** 2)[None]).dot(e.conj())
        ctx.close(dynmat(c, dim, out, q), want, 'dynamical matrix of the result at %s' % (q,), rtol=0,
                  atol=2e-4 * np.abs(want).max() + 1e-7)
    s2 = gen.make_structure(c)
    s2.set_force_constants(plain)
    for q, f in list(zip(qs, freqs))[:3]:
        got = np.array(pl.obtain_eigenvectors_and_frequencies(s2, q, print_data=False)[1])
        want = np.sort(f)
        big = (np.abs(want) > 0.05 * np.abs(freqs).max()) & (np.abs(want) > 0.05)
        ctx.close(got[big], want[big], 'frequencies of the result at %s' % (q,), rtol=1e-3, atol=1e-4 * np.abs(freqs).max() + 1e-6)
    if case['symmetrize']:
        sym = pl.get_renormalized_force_constants(freqs, evs, s, np.diag(dim), symmetrize=True).get_array()
        S = np.diag(dim).dot(c.cell)
        numbers = [gen.ELEMENTS.index(c.elements[i]) + 1 for i in idx]
        want, nop = group_average(out, S, pos.dot(np.linalg.inv(S)), numbers)
        ctx.event('symmetrized with %s operations' % ('one' if nop == n // 999 + 1 else 'several'))
        ctx.close(sym, want, 'symmetrized force constants', rtol=0, atol=1e-6 * np.abs(out).max() + 1e-9)
    if case['file']:
        path = os.path.join(ctx.tempdir(), 'FC')
        pl.save_force_constants_to_file(plain, path)
        ctx.close(parse_FORCE_CONSTANTS(path), out, 'written force constants', rtol=0, atol=1e-9)
        back = pl.get_force_constants_from_file(path, fc_supercell=np.diag(dim))
        ctx.close(back.get_array(), out, 'force constants read back', rtol=0, atol=1e-9)
        ctx.close(np.array(back.get_supercell()), np.diag(dim), 'supercell of the file')


SUBS = [Sub('reconstruction', strategy, run, quick=300, thorough=4000, shards=6, tshards=8)]
