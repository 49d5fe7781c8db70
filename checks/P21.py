"""P21: mean displacements, anisotropic displacement parameters and average positions."""
import re

import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub, quiet

PROPERTY = 'P21'
RULE = ('random crystals (conventional cells, shuffled atoms, rotated and sheared lattices), supercells and runs with an '
        'offset of every atom and a drift, wrapped or not; every statistic is compared with numpy on the generated '
        'displacements; non-trivial when the offset is not zero and the cell holds several copies of a primitive atom')


def base():
    return {
        'crystal': gen.crystal_spec(max_atoms=3), 'dim': gen.dims(1, 3, 6), 'n': st.integers(2, 25),
        'seed': gen.seeds(), 'offset': st.sampled_from([0., 0.02, 0.15]), 'drift': st.booleans(),
        'wrap': st.booleans(), 'memmap': st.booleans(), 'primitive': st.booleans()}


def build(case):
    from dynaphopy.dynamics import Dynamics
    c = gen.build_crystal(case['crystal'])
    dim = case['dim']
    pos, idx = gen.supercell_positions(c, dim)
    S = np.diag(dim).dot(c.cell)
    n = case['n']
    r = gen.rng(case['seed'])
    u = r.uniform(-0.1, 0.1, size=(n,) + pos.shape) * r.uniform(0.2, 1.0, size=(len(pos), 3))
    mix = r.uniform(-1, 1, size=(len(pos), 3, 3))                 # correlated components
    u = np.einsum('tai,aij->taj', u, mix)
    if case.get('normal'):
        u = case['normal'] * r.normal(size=u.shape)
    u += case['offset'] * r.normal(size=pos.shape)
    if case['drift']:
        u += 0.05 * r.normal(size=3)
    x = pos[None] + u
    if case['wrap']:
        f = x.dot(np.linalg.inv(S))
        x = (f - np.floor(f)).dot(S)
    kw = {} if case['primitive'] else {'primitive_matrix': np.eye(3)}
    s = gen.make_structure(c, **kw)
    ptype = c.ptype if case['primitive'] else np.arange(len(c.positions))
    d = Dynamics(structure=s, trajectory=x.astype(complex), velocity=np.zeros(x.shape, dtype=complex),
                 time=np.arange(n) * 0.01, supercell=S, memmap=case['memmap'])
    small = np.abs(u.dot(np.linalg.inv(S))).max() < 0.45
    return c, d, u, S, idx, ptype, small


def covariance_strategy():
    return st.fixed_dictionaries(dict(base(), order=st.permutations(['cart', 'crys', 'uvrs', 'raw', 'rawavg'])))


def covariance(case, ctx):
    import dynaphopy
    c, d, u, S, idx, ptype, small = build(case)
    if not small:
        ctx.event('displacement near half a cell')
        return
    qp = dynaphopy.Quasiparticle(d)
    types = ptype[idx]
    nt = ptype.max() + 1
    raw, avg = np.zeros((nt, 3, 3)), np.zeros((nt, 3, 3))
    for t in range(nt):
        atoms = np.where(types == t)[0]
        for a in atoms:
            raw[t] += u[:, a].T.dot(u[:, a]) / len(u) / len(atoms)
            w = u[:, a] - u[:, a].mean(0)
            avg[t] += w.T.dot(w) / len(u) / len(atoms)
    inv = np.linalg.inv(c.cell)
    recip = np.linalg.norm(inv, axis=0)                            # lengths of the reciprocal vectors
    frac = np.array([inv.T.dot(x).dot(inv) for x in avg])
    ref = {'cart': avg, 'crys': frac, 'uvrs': frac / recip[None, :, None] / recip[None, None, :],
           'raw': raw, 'rawavg': avg}
    elements = [c.elements[list(ptype).index(t)] for t in range(nt)]
    for what in case['order']:
        if what == 'raw':
            got = d.get_mean_displacement_matrix()
        elif what == 'rawavg':
            got = d.get_mean_displacement_matrix(use_average_positions=True)
        else:
            with quiet() as out:
                got = qp.get_anisotropic_displacement_parameters(coordinate_type=what)
            rows = []
            for line in out.getvalue().splitlines():
                m = re.match(r'^([A-Z][a-z]?) +([-0-9. ]+)$', line)
                if m and len(m.group(2).split()) == 6:
                    rows.append((m.group(1), [float(z) for z in m.group(2).split()]))
            want = []
            for t in range(nt):
                m = ref[what][t]
                want += [(elements[t], [m[0, 0], m[1, 1], m[2, 2], m[1, 2], m[0, 2], m[0, 1]])] * list(ptype).count(t)
            ctx.check([z[0] for z in rows] == [z[0] for z in want], 'printed elements %s, expected %s' % (
                [z[0] for z in rows], [z[0] for z in want]))
            ctx.close([z[1] for z in rows], [z[1] for z in want], 'printed displacement parameters (%s)' % what,
                      rtol=0, atol=6e-9)
            ctx.close(qp.get_anisotropic_displacement_parameters(coordinate_type=what, print_on_screen=False), got,
                      'not printed displacement parameters (%s)' % what, rtol=0, atol=0)
        got = np.array(got)
        ctx.check(np.isrealobj(got) or np.abs(got.imag).max() < 1e-12, 'complex displacement matrix')
        ctx.close(got.real, ref[what], 'mean displacement matrix (%s)' % what, rtol=1e-7, atol=1e-10)
    if case['offset'] and len(idx) > nt:
        ctx.nontrivial()
    ctx.event('several atoms per type' if len(ptype) > nt else 'primitive cell')


def average_strategy():
    return st.fixed_dictionaries(dict(base(), samples=st.sampled_from([None, None, 1, 3, 1000]),
                                      order=st.permutations(['cell', 'unit', 'samples', 'print', 'printunit'])))


def modulo(ctx, got, want, cell, msg, atol=1e-8):
    got = np.array(got)
    ctx.check(got.shape == want.shape, '%s: shape %s, expected %s' % (msg, got.shape, want.shape))
    if np.iscomplexobj(got):
        ctx.check(np.abs(got.imag).max() < 1e-12, msg + ': complex')
        got = got.real
    f = got.dot(np.linalg.inv(cell))
    ctx.check(f.min() > -1e-6 and f.max() < 1 + 1e-6, lambda: '%s: outside of the cell: %s' % (msg, f))
    df = (got - want).dot(np.linalg.inv(cell))
    df -= np.round(df)
    ctx.close(df.dot(cell), np.zeros(want.shape), msg, rtol=0, atol=atol)


def average(case, ctx):
    import dynaphopy
    c, d, u, S, idx, ptype, small = build(case)
    if not small:
        ctx.event('displacement near half a cell')
        return
    qp = dynaphopy.Quasiparticle(d)
    pos, _ = gen.supercell_positions(c, case['dim'])
    types = ptype[idx]
    mean = u.mean(0)
    unit = np.array([c.positions[i] + mean[types == ptype[i]].mean(0) for i in range(len(c.positions))])
    before = np.array(d.trajectory)
    for what in case['order']:
        if what == 'cell':
            modulo(ctx, d.average_positions(), pos + mean, S, 'average positions')
        elif what == 'unit':
            modulo(ctx, d.average_positions(to_unit_cell=True), unit, c.cell, 'average positions of the unit cell')
        elif what == 'samples':
            if case['samples'] is None:
                continue
            np.random.seed(case['seed'] % 1000)
            got = d.average_positions(number_of_samples=case['samples'])
            np.random.seed(None)
            f = (got.real - pos).dot(np.linalg.inv(S))
            got_u = (f - np.round(f)).dot(S)
            # an average of recorded steps: inside the range of the run, and a recorded step for one sample
            ctx.check(np.all(got_u <= u.max(0) + 1e-8) and np.all(got_u >= u.min(0) - 1e-8), 'sample outside the run')
            if case['samples'] == 1:
                ctx.check(np.abs(u - got_u[None]).reshape(len(u), -1).max(1).min() < 1e-8,
                          'average of one sample is no step of the run')
                ctx.event('one sample')
        else:
            with quiet() as out:
                qp.get_average_atomic_positions(to_unit_cell=(what == 'printunit'))
            rows = [z.split() for z in out.getvalue().splitlines()]
            rows = [z for z in rows if len(z) == 4 and re.match(r'^[A-Z][a-z]?$', z[0]) and re.match(r'^-?\d+\.\d{8}$', z[1])]
            if what == 'printunit':
                el, want, cell = c.elements, unit, c.cell
            else:
                el, want, cell = [c.elements[i] for i in idx], pos + mean, S
            ctx.check([z[0] for z in rows] == list(el), 'printed elements %s, expected %s' % ([z[0] for z in rows], el))
            modulo(ctx, np.array([[float(x) for x in z[1:]] for z in rows]), want, cell,
                   'printed average positions', atol=2e-8)
    ctx.check(np.array_equal(before, np.array(d.trajectory)), 'the trajectory was modified')
    if case['offset'] and len(idx) > ptype.max() + 1:
        ctx.nontrivial()


def distribution_strategy():
    return st.fixed_dictionaries(dict(base(), bins=st.integers(1, 40),
                                      direction=st.lists(st.integers(-3, 3), min_size=3, max_size=3).filter(any),
                                      length=st.sampled_from([1., 0.5, 7.]), again=st.booleans()))


def distribution(case, ctx):
    import os
    import dynaphopy
    c, d, u, S, idx, ptype, small = build(case)
    if not small:
        ctx.event('displacement near half a cell')
        return
    qp = dynaphopy.Quasiparticle(d)
    qp.parameters.number_of_bins_histogram = case['bins']
    direction = np.array(case['direction']) * case['length']
    p = u.dot(direction / np.linalg.norm(direction))
    types = ptype[idx]
    lo, hi = p.min(), p.max()
    edges = np.linspace(lo, hi, case['bins'] + 1)
    w = edges[1] - edges[0]
    if case['again']:
        qp.get_atomic_displacements([1, 0, 0])
    dist, x = qp.get_atomic_displacements(list(direction))
    nt = ptype.max() + 1
    ctx.check(np.shape(dist) == (nt, case['bins']), 'distribution of shape %s' % (np.shape(dist),))
    ctx.check(len(x) >= case['bins'], 'fewer distances than bins')
    for t in range(nt):
        values = p[:, types == t].ravel()
        # values within rounding of an edge may be counted on either side
        sure = np.histogram(values[np.abs((values - lo) / w - np.round((values - lo) / w)) > 1e-7], bins=edges)[0]
        unsure = len(values) - sure.sum()
        count = dist[t] * w * len(values)
        ctx.check(np.all(count > sure - 1e-6 * (1 + sure)) and np.all(count < sure + unsure + 1e-6 * (1 + sure + unsure)),
                  lambda: 'atoms of type %d: %s displacements per bin, expected %s (+ %d on edges)' % (t, count, sure, unsure))
        ctx.close(dist[t].sum() * w, 1.0, 'integral of the distribution of type %d' % t, rtol=1e-9)
    distances(ctx, x[:case['bins']], edges, w, 1e-9 + 1e-9 * abs(hi))
    out = os.path.join(ctx.tempdir(), 'out.dat')
    qp.write_atomic_displacements(list(direction), out)
    data = np.loadtxt(out, ndmin=2)
    ctx.close(data[:, 1:], dist.T, 'written distributions', rtol=1e-9, atol=1e-12)
    distances(ctx, data[:, 0], edges, w, 6e-5)
    if nt > 1 and case['bins'] > 3:
        ctx.nontrivial()


def distances(ctx, x, edges, w, atol):
    """Distance given to each bin: its centre. Known finding: the file of the test suite has the centre less one bin."""
    centre = (edges[:-1] + edges[1:]) / 2
    ctx.check(len(x) == len(centre), '%d distances for %d bins' % (len(x), len(centre)))
    if np.allclose(x, centre, rtol=0, atol=atol):
        return
    ctx.close(x, centre - w, 'distances of the bins of the displacement distribution', rtol=0, atol=atol)
    ctx.known('distance-of-previous-bin', 'the distances given with (and written beside) the displacement '
              'distribution are those of the previous bin')


SUBS = [
    Sub('covariance', covariance_strategy, covariance, quick=120, thorough=3000, shards=2, tshards=6),
    Sub('average', average_strategy, average, quick=120, thorough=3000, shards=2, tshards=6),
    Sub('distribution', distribution_strategy, distribution, quick=120, thorough=3000, shards=2, tshards=6),
]
