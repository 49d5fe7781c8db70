"""P01: periodic displacements are minimum-image lattice equivalents of (position - equilibrium)."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Sub

PROPERTY = 'P01'
RULE = ('random (also strongly skewed, rotated) periodic cells, 1..4 atoms, 1..40 steps, displacements up to several '
        'cells plus whole-lattice shifts; a case is non-trivial when at least one sample lies outside the half-cell '
        'box around its equilibrium position, i.e. when folding has to act')
ASSUMPTIONS = ['cells are right- or left-handed non-degenerate 3x3 row-vector matrices; samples within 1e-7 of a '
               'half-cell boundary are accepted on either side']


def direct_strategy():
    return st.fixed_dictionaries({
        'cell': gen.cell_spec(lo=200, hi=2500), 'seed': gen.seeds(), 'steps': st.integers(1, 40),
        'amp': st.sampled_from([0.05, 0.3, 0.8, 2.5, 20.0]),
        'shift': st.integers(0, 6), 'layout': st.sampled_from(['c', 'f', 'strided', 'real', 'slice']),
        'imag': st.booleans()})


def fold_ok(ctx, disp, traj, pos, cell, what):
    inv = np.linalg.inv(cell)
    d = np.asarray(disp)
    ctx.check(np.all(np.isfinite(d)), what + ': not finite')
    if np.iscomplexobj(d):
        ctx.check(np.abs(d.imag).max() == 0, what + ': displacement has an imaginary part')
        d = d.real
    n = (np.asarray(traj).real - pos - d).dot(inv)
    scale = 1 + np.abs(n).max()
    ctx.close(n, np.round(n), what + ': displacement differs from (position - equilibrium) by a non-lattice vector',
              rtol=0, atol=1e-8 * scale)
    f = d.dot(inv)
    ctx.check(np.abs(f).max() <= 0.5 + 1e-7, lambda: what + ': fractional displacement %r outside [-1/2, 1/2]' % (
        float(np.abs(f).max()),))
    return n


def run_direct(case, ctx):
    from dynaphopy.displacements import atomic_displacements
    cell = gen.build_cell(case['cell'])
    r = gen.rng(case['seed'])
    n = case['steps']
    pos = r.uniform(-1, 2, size=3).dot(cell)
    u = r.normal(size=(n, 3)) * case['amp']
    shifts = r.randint(-case['shift'], case['shift'] + 1, size=(n, 3)).dot(cell) if case['shift'] else 0
    x = pos + u + shifts
    if case['layout'] == 'f':
        arg = np.asfortranarray(x.astype(complex))
    elif case['layout'] == 'strided':
        arg = np.repeat(x.astype(complex), 2, axis=1)[:, ::2]
    elif case['layout'] == 'real':
        arg = x.copy()
    elif case['layout'] == 'slice':
        big = np.zeros((n, 3, 3), dtype=complex)
        big[:, 1, :] = x
        arg = big[:, 1, :]
    else:
        arg = x.astype(complex)
    before = arg.copy()
    out = atomic_displacements(arg, pos, cell)
    ctx.check(out.shape == (n, 3), 'shape %r' % (out.shape,))
    ctx.check(np.array_equal(arg, before), 'the input trajectory was modified')
    m = fold_ok(ctx, out, x, pos, cell, 'direct')
    ctx.nontrivial(np.abs(np.round(m)).max() > 0)
    ctx.event('layout ' + case['layout'])
    # invariance under independent whole-cell shifts of every sample and of the equilibrium position
    s2 = r.randint(-3, 4, size=(n, 3)).dot(cell)
    s3 = r.randint(-3, 4, size=3).dot(cell)
    f = np.abs(np.abs(out.real.dot(np.linalg.inv(cell))) - 0.5)
    safe = (f > 1e-6).all(axis=1)
    out2 = atomic_displacements((x + s2).astype(complex), pos + s3, cell)
    ctx.close(out2[safe], out[safe], 'changed by adding cell vectors', rtol=0, atol=1e-8 * (1 + np.abs(x).max()))
    # any sample whose displacement is already inside the half cell comes back unchanged
    inside = (np.abs((x - pos).dot(np.linalg.inv(cell))) < 0.5 - 1e-6).all(axis=1)
    ctx.close(out[inside].real, (x - pos)[inside], 'in-cell displacement changed', rtol=0,
              atol=1e-9 * (1 + np.abs(x).max()))


def rel_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=3), 'dim': gen.dims(1, 3, 12), 'seed': gen.seeds(),
        'steps': st.integers(2, 10), 'amp': st.sampled_from([0.02, 0.1, 0.5]),
        'wrap': st.booleans(), 'memmap': st.booleans(), 'jump': st.integers(0, 3)})


def run_relative(case, ctx):
    import os
    from dynaphopy.dynamics import Dynamics
    c = gen.build_crystal(case['crystal'])
    dim = case['dim']
    pos, _ = gen.supercell_positions(c, dim)
    S = np.diag(dim).dot(c.cell)
    u, v = gen.smooth_displacements(case['seed'], case['steps'], len(pos), case['amp'], 0.01)
    x = pos[None] + u
    if case['wrap']:
        f = x.dot(np.linalg.inv(S))
        x = (f - np.floor(f)).dot(S)
    r = gen.rng(case['seed'] + 5)
    x = x + r.randint(-case['jump'], case['jump'] + 1, size=x.shape).dot(S)
    os.environ['DYNAPHOPY_TEMPDIR'] = ctx.tempdir()
    d = Dynamics(structure=gen.make_structure(c), trajectory=x.astype(complex), time=np.arange(case['steps']) * 0.01,
                 supercell=S, memmap=case['memmap'])
    out = np.array(d.get_relative_trajectory())
    ctx.check(out.shape == x.shape, 'shape')
    inv = np.linalg.inv(S)
    for i in range(len(pos)):
        fold_ok(ctx, out[:, i], x[:, i], pos[i], S, 'atom %d' % i)
    small = (np.abs(u.dot(inv)) < 0.5 - 1e-6).all(axis=2)
    ctx.close(out.real[small], u[small], 'true displacement not recovered', rtol=0, atol=1e-7)
    ctx.nontrivial(case['wrap'] or case['jump'] > 0)
    if case['memmap']:
        ctx.event('memmap')
    del d


SUBS = [Sub('direct', direct_strategy, run_direct, quick=2500, thorough=60000, shards=3, tshards=6),
        Sub('relative', rel_strategy, run_relative, quick=400, thorough=8000, shards=3, tshards=6)]
