"""P07: automatic atom ordering."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import calc, files, gen
from vlib.core import Sub

PROPERTY = 'P07'
RULE = ('random crystals and supercells whose atoms are listed in a random order, displaced by up to 15 percent of the '
        'shortest interatomic distance and moved to random periodic images; non-trivial when the order is not the '
        'canonical one')
ASSUMPTIONS = ['displacements are small compared with the distances between sites; atoms of the first step lie within '
               'one supercell image of the origin cell']


def strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=3, centerings=('P', 'C', 'I', 'F', 'P211')), 'dim': gen.dims(1, 4, 12),
        'seed': gen.seeds(), 'amp': st.integers(0, 15), 'image': st.sampled_from(['none', 'wrap', 'random']),
        'fmt': st.sampled_from(['lammps', 'lammps', 'xdatcar']),
        'order': st.sampled_from(['random', 'random', 'reverse', 'cell', 'same'])})


def shortest(c, dim):
    import itertools
    best = 1e9
    for i in range(len(c.positions)):
        for j in range(len(c.positions)):
            for t in itertools.product((-2, -1, 0, 1, 2), repeat=3):
                if i == j and t == (0, 0, 0):
                    continue
                best = min(best, np.linalg.norm(c.positions[i] - c.positions[j] + np.dot(t, c.cell)))
    return best


def build(case, nframes=1):
    c = gen.build_crystal(case['crystal'])
    dim = case['dim']
    pos, idx = gen.supercell_positions(c, dim)
    S = np.diag(dim).dot(c.cell)
    r = gen.rng(case['seed'])
    d = r.normal(size=(nframes,) + pos.shape)
    d = d / np.linalg.norm(d, axis=2)[..., None] * shortest(c, dim) * case['amp'] / 100.0
    x = pos[None] + d
    if case['image'] == 'wrap':
        f = x.dot(np.linalg.inv(S))
        x = (f - np.floor(f)).dot(S)
    elif case['image'] == 'random':
        f = x.dot(np.linalg.inv(S))
        x = (f - np.floor(f) + r.randint(-1, 1, size=pos.shape)[None]).dot(S)
    n = len(pos)
    if case['order'] == 'random':
        perm = r.permutation(n)
    elif case['order'] == 'reverse':
        perm = np.arange(n)[::-1]
    elif case['order'] == 'cell':       # cell by cell, as a crystal builder would list them
        perm = np.argsort(np.arange(n) % int(np.prod(dim)), kind='stable')
    else:
        perm = np.arange(n)
    return c, dim, pos, idx, S, d, x, perm


def run(case, ctx):
    """perm[i] = canonical index of the atom listed i-th; reading with the found order must restore it."""
    from dynaphopy.interface.iofile import check_atoms_order, get_trajectory_parser
    c, dim, pos, idx, S, d, x, perm = build(case, nframes=3)
    ctx.nontrivial(not np.array_equal(perm, np.arange(len(pos))))
    ctx.event(case['order'])
    ctx.event('images ' + case['image'])
    path = os.path.join(ctx.tempdir(), 'run.dat')
    if case['fmt'] == 'lammps':
        low, R = files.lammps_cell(S)
        open(path, 'w').write(files.lammpstrj(low, x[:, perm].dot(R), [0, 1, 2], labels='x y z', tilt=True))
    else:
        open(path, 'w').write(files.xdatcar(S, [c.elements[idx[i]] for i in perm], x[:, perm].dot(np.linalg.inv(S)),
                                            scale=1.0, steps=[1, 2, 3]))
    s = gen.make_structure(c)
    parser = get_trajectory_parser(path)
    template = check_atoms_order(path, parser, s)
    ctx.check(sorted(int(k) for k in template) == list(range(len(pos))), 'the order found is not a permutation')
    dyn = parser(path, s, 0.001, initial_cut=1, end_cut=None, memmap=False, template=template)
    got = np.array(dyn.get_relative_trajectory()).real
    ctx.close(got, d, 'displacements of the ordered trajectory', rtol=0, atol=2e-5)
    ctx.check([int(k) for k in template] == [int(k) for k in perm],
              lambda: 'order %s, expected %s' % (list(template), list(perm)))


SUBS = [Sub('read', strategy, run, quick=400, thorough=8000, shards=6, tshards=8)]
