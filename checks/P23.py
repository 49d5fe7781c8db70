"""P23: memory mapping is invisible and leaves nothing behind."""
import gc
import os

import numpy as np
from hypothesis import strategies as st

from vlib import files, gen
from vlib.core import Sub

PROPERTY = 'P23'
RULE = ('random histories over up to three runs alive at the same time in one process (made from arrays or read from '
        'LAMMPS, XDATCAR or HDF5 files with memory mapping): read any quantity, crop, forget the run; every answer is '
        'compared with that of a twin run in memory, and the folder of the temporary files is listed at the end; '
        'non-trivial when two memory mapped runs are alive together')

KINDS = ['arrays', 'arrays_v', 'scaled', 'lammps', 'lammps_v', 'xdatcar', 'hdf5']
READS = ['velocity', 'relative', 'mass', 'msd', 'average', 'trajectory', 'time']


def strategy():
    op = st.one_of(
        st.tuples(st.just('new'), st.sampled_from(KINDS), gen.seeds()),
        st.tuples(st.just('read'), st.integers(0, 5), st.sampled_from(READS)),
        st.tuples(st.just('read'), st.integers(0, 5), st.sampled_from(READS)),
        st.tuples(st.just('crop'), st.integers(0, 5), st.integers(2, 14)),
        st.tuples(st.just('drop'), st.integers(0, 5), st.just(0)))
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C'), elements=['C', 'O', 'Si']),
        'dim': gen.dims(1, 2, 4), 'n': st.integers(2, 12),
        'folder': st.sampled_from(['own', 'own', 'none', 'missing']),
        'ops': st.lists(op.map(list), min_size=3, max_size=12)})


def make(case, c, kind, seed, folder, memmap):
    from dynaphopy.dynamics import Dynamics
    from dynaphopy.interface.iofile import get_trajectory_parser, initialize_from_hdf5_file
    dim, n = case['dim'], case['n']
    pos, idx = gen.supercell_positions(c, dim)
    S = np.diag(dim).dot(c.cell)
    u, v = gen.smooth_displacements(seed, n, len(pos), 0.3, 0.01)
    x = pos[None] + u
    s = gen.make_structure(c, primitive_matrix=np.eye(3))
    t = np.arange(n) * 0.01
    path = os.path.join(folder, '%s%d.dat' % (kind, seed))
    if kind.startswith('arrays'):
        k = {'velocity': v.astype(complex)} if kind == 'arrays_v' else {}
        return Dynamics(structure=s, trajectory=x.astype(complex), time=t, supercell=S, memmap=memmap, **k)
    if kind == 'scaled':
        return Dynamics(structure=s, scaled_trajectory=x.dot(np.linalg.inv(S)).astype(complex), time=t, supercell=S,
                        memmap=memmap)
    if kind == 'hdf5':
        import h5py
        if not os.path.exists(path):
            with h5py.File(path, 'w') as f:
                f['trajectory'] = x.astype(complex)
                f['velocity'] = v.astype(complex)
                f['time'] = t
                f['super_cell'] = np.array(dim)
        return initialize_from_hdf5_file(path, s, memmap=memmap)
    if not os.path.exists(path):
        if kind == 'xdatcar':
            text = files.xdatcar(S, [c.elements[i] for i in idx], x.dot(np.linalg.inv(S)))
        else:
            low, R = files.lammps_cell(S)
            data = v if kind == 'lammps_v' else x
            text = files.lammpstrj(low, data.dot(R), list(range(n)), labels='vx vy vz' if kind == 'lammps_v' else 'x y z')
        with open(path, 'w') as f:
            f.write(text)
    return get_trajectory_parser(path)(path, structure=s, time_step=0.01, memmap=memmap, initial_cut=1, end_cut=n)


def ask(d, what):
    return np.array({'velocity': lambda: d.velocity, 'relative': d.get_relative_trajectory,
                     'mass': d.get_velocity_mass_average, 'msd': d.get_mean_displacement_matrix,
                     'average': d.average_positions, 'trajectory': lambda: d.trajectory, 'time': d.get_time}[what]())


def open_files(folder):
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if target.startswith(os.path.realpath(folder) + '/'):
            out.append(target)
    return out


def run(case, ctx):
    c = gen.build_crystal(case['crystal'])
    o = sorted(range(len(c.elements)), key=lambda i: c.elements[i])
    c.elements = [c.elements[i] for i in o]
    c.scaled = c.scaled[o]
    c.positions = c.scaled.dot(c.cell)
    d = ctx.tempdir()
    data, tmp, work = os.path.join(d, 'data'), os.path.join(d, 'tmp'), os.path.join(d, 'work')
    for k in (data, tmp, work):
        os.mkdir(k)
    os.chdir(work)
    if case['folder'] == 'own':
        os.environ['DYNAPHOPY_TEMPDIR'] = tmp
    elif case['folder'] == 'missing':
        os.environ['DYNAPHOPY_TEMPDIR'] = os.path.join(d, 'does_not_exist')
    runs = []
    together = 0
    ops = [['new', KINDS[(case['n'] + len(case['ops'])) % len(KINDS)], 5]] + case['ops']
    for op in ops:
        if op[0] == 'new':
            if len(runs) == 3:
                continue
            kind = op[1]
            name = kind + str(op[2])
            if any(r['name'] == name for r in runs):
                ctx.event('one file read by two runs')
            runs.append({'name': name, 'kind': kind, 'mapped': make(case, c, kind, op[2], data, True),
                         'twin': make(case, c, kind, op[2], data, False), 'crop': case['n']})
            together = max(together, len(runs))
            continue
        if not runs:
            continue
        r = runs[op[1] % len(runs)]
        if op[0] == 'read':
            what = op[2]
            if r['kind'] == 'lammps_v' and what in ('relative', 'msd', 'average', 'trajectory'):
                what = 'velocity'
            a, b = ask(r['mapped'], what), ask(r['twin'], what)
            ctx.close(a, b, '%s of a %s run with memory mapping' % (what, r['kind']), rtol=1e-12, atol=1e-12)
        elif op[0] == 'crop':
            r['mapped'].crop_trajectory(op[2])
            r['twin'].crop_trajectory(op[2])
            ctx.event('crop')
        else:
            runs.remove(r)
            r = None
            gc.collect()
            ctx.event('forgotten')
        r = None
        if case['folder'] == 'own':
            ctx.check(not os.listdir(work), lambda: 'a folder was chosen for temporary files, but %s lie in the working directory' % os.listdir(work))
    # every surviving run still gives its own data
    for r in runs:
        for what in (['velocity', 'mass'] if r['kind'] == 'lammps_v' else READS):
            ctx.close(ask(r['mapped'], what), ask(r['twin'], what), '%s of a %s run with memory mapping, at the end' % (
                what, r['kind']), rtol=1e-12, atol=1e-12)
    left_alive = os.listdir(tmp) + os.listdir(work)
    if left_alive:
        ctx.event('temporary files while alive')
    r = None
    del runs[:]
    gc.collect()
    ctx.check(not os.listdir(tmp), lambda: 'temporary files left: %s' % os.listdir(tmp))
    ctx.check(not os.listdir(work), lambda: 'files left in the working directory: %s' % os.listdir(work))
    still = open_files(d)
    ctx.check(not still, lambda: 'files still open when every run is gone: %s' % still)
    if case['folder'] == 'own':
        ctx.check(not [k for k in left_alive if k in os.listdir(work)], 'files outside of the temporary folder')
    ctx.nontrivial(together > 1)


SUBS = [Sub('histories', strategy, run, quick=250, thorough=5000, shards=4, tshards=8)]
