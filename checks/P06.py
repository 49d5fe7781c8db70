"""P06: HDF5 storage of runs."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub

PROPERTY = 'P06'
RULE = ('random crystals and runs saved with and without trajectory or as wave-vector projections, loaded with random '
        'windows and memory mapping, loaded and saved again, and joined in random groups with the concath5 script; '
        'non-trivial when a window, a projection, a skip or more than one file is involved')


def base():
    return {'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I', 'P211')), 'dim': gen.dims(1, 3, 6),
            'n': st.integers(2, 14), 'seed': gen.seeds(), 'dt': st.sampled_from([0.001, 0.002, 0.0005])}


def strategy():
    return st.fixed_dictionaries(dict(base(), kind=st.sampled_from(['both', 'velocity', 'vc']),
                                      first=st.integers(1, 14), last=st.one_of(st.none(), st.integers(1, 16)),
                                      want_traj=st.booleans(), memmap=st.booleans(), crop=st.integers(0, 14),
                                      q=st.lists(st.integers(0, 5), min_size=3, max_size=3), t0=st.integers(0, 5)))


def make(case, n=None, seed=None, t0=0.0):
    c = gen.build_crystal(case['crystal'])
    calc_, u, v = calc.quasiparticle(c, case['dim'], nstep=n or case['n'], dt=case['dt'], seed=seed or case['seed'])
    calc_.dynamic.set_time(np.arange(n or case['n']) * case['dt'] + t0)
    return c, calc_, u, v


def load(path, c, **kw):
    from dynaphopy.interface.iofile import initialize_from_hdf5_file
    return initialize_from_hdf5_file(path, gen.make_structure(c), **kw)


def run(case, ctx):
    import dynaphopy
    c, q, u, v = make(case, t0=case['t0'] * 0.7)
    d = ctx.tempdir()
    tmp = os.path.join(d, 'tmp')
    os.mkdir(tmp)
    os.environ['DYNAPHOPY_TEMPDIR'] = tmp
    q.crop_trajectory(case['crop'])
    n = case['n'] if case['crop'] == 0 else min(case['n'], case['crop'])
    time = (np.arange(case['n']) * case['dt'] + case['t0'] * 0.7)[-n:]
    path = os.path.join(d, 'run.h5')
    first = min(case['first'], n)
    last = None if case['last'] is None else max(case['last'], first)
    sel = slice(first - 1, last)
    ctx.nontrivial(first > 1 or (last is not None and last < n) or case['kind'] == 'vc')
    ctx.event(case['kind'])
    traj = np.array(q.dynamic.trajectory)
    vel = np.array(q.dynamic.velocity)
    ctx.close(vel, v[-n:], 'velocity', atol=1e-12)
    if case['kind'] == 'vc':
        q.parameters.use_symmetry = False
        q.parameters.power_spectra_algorithm = 2
        q.set_reduced_q_vector(np.array(case['q']) / 5.0)
        vc = np.array(q.get_vc())
        q.save_vc_hdf5(path)
        got, rq, dyn = load(path, c, initial_cut=first, final_cut=last, memmap=case['memmap'])
        ctx.close(rq, np.array(case['q']) / 5.0, 'stored wave vector', atol=1e-12)
        ctx.close(got, vc[sel], 'stored projection', rtol=0, atol=0)
        ctx.close(np.array(dyn.get_time(), float), time[sel], 'times', atol=1e-12)
        ctx.close(dyn.get_supercell(), np.diag(case['dim']).dot(c.cell), 'simulation cell', atol=1e-9)
        if len(vc[sel]) >= 3:
            # the analysis of the loaded projection is the analysis of the same steps of the run
            q2 = dynaphopy.Quasiparticle(dyn, vc=got)
            q2.parameters.reduced_q_vector = rq
            a = np.array(q2.get_power_spectrum_wave_vector())
            c3, q3, _, _ = make(case, t0=case['t0'] * 0.7)
            lo = case['n'] - n + first - 1
            hi = lo + len(vc[sel])
            from dynaphopy.dynamics import Dynamics
            d3 = Dynamics(structure=q3.dynamic.structure, velocity=v[lo:hi].astype(complex),
                          time=np.arange(hi - lo) * case['dt'], supercell=q3.dynamic.get_supercell())
            q4 = dynaphopy.Quasiparticle(d3)
            q4.parameters.use_symmetry = False
            q4.parameters.power_spectra_algorithm = 2
            q4.set_reduced_q_vector(np.array(case['q']) / 5.0)
            b = np.array(q4.get_power_spectrum_wave_vector())
            ctx.close(a, b, 'spectrum of the loaded projection', rtol=1e-7, atol=1e-12 + 1e-9 * np.abs(b).max())
        return
    q.save_velocity_hdf5(path, save_trajectory=case['kind'] == 'both')
    dyn = load(path, c, initial_cut=first, final_cut=last, memmap=case['memmap'], read_trajectory=case['want_traj'])
    ctx.close(np.array(dyn.velocity), vel[sel], 'velocity', rtol=0, atol=0)
    ctx.close(np.array(dyn.get_time(), float), time[sel], 'times', atol=1e-12)
    ctx.close(dyn.get_supercell(), np.diag(case['dim']).dot(c.cell), 'simulation cell', atol=1e-9)
    ctx.check([int(k) for k in dyn.get_supercell_matrix()] == case['dim'], 'supercell factors')
    if case['kind'] == 'both' and case['want_traj']:
        ctx.close(np.array(dyn.trajectory), traj[sel], 'trajectory', rtol=0, atol=0)
    else:
        try:
            dyn.trajectory
        except SystemExit:
            pass
        else:
            ctx.fail('a trajectory appeared from a velocity-only file')
    # saving what was loaded keeps everything
    again = os.path.join(d, 'again.h5')
    q2 = dynaphopy.Quasiparticle(dyn)
    q2.save_velocity_hdf5(again, save_trajectory=case['kind'] == 'both' and case['want_traj'])
    dyn2 = load(again, c)
    ctx.close(np.array(dyn2.velocity), vel[sel], 'velocity saved twice', rtol=0, atol=0)
    ctx.close(np.array(dyn2.get_time(), float), time[sel], 'times saved twice', atol=1e-12)


def join_strategy():
    return st.fixed_dictionaries(dict(base(), parts=st.integers(1, 4).flatmap(lambda k: st.lists(st.integers(2, 9), min_size=k, max_size=k)),
                                      skip=st.one_of(st.none(), st.integers(0, 3), st.integers(0, 9)),
                                      kind=st.sampled_from(['both', 'velocity', 'vc']), vonly=st.booleans()))


def run_join(case, ctx):
    d = ctx.tempdir()
    skip = case['skip'] or 0
    parts = [max(p, skip + 1) for p in case['parts']]
    names, vels, trajs, vcs = [], [], [], []
    c = None
    for i, n in enumerate(parts):
        c, q, u, v = make(case, n=n, seed=case['seed'] + i + 1)
        path = os.path.join(d, 'part%d.h5' % i)
        if case['kind'] == 'vc':
            q.set_reduced_q_vector([0.5, 0.0, 0.0])
            vcs.append(np.array(q.get_vc())[skip:])
            q.save_vc_hdf5(path)
        else:
            q.save_velocity_hdf5(path, save_trajectory=case['kind'] == 'both')
        vels.append(v[skip:])
        trajs.append(np.array(q.dynamic.trajectory)[skip:])
        names.append(path)
    out = os.path.join(d, 'joined.h5')
    argv = names + [out] + (['-f', str(skip)] if case['skip'] is not None else [])
    vonly = case['vonly'] and case['kind'] != 'vc'
    code, text = calc.run_script('concath5', argv + (['--velocity_only'] if vonly else []), d)
    ctx.check(code == 0, 'concath5 ended with %r: %s' % (code, text[-300:]))
    ctx.nontrivial(len(parts) > 1 or skip > 0)
    ctx.event('%d files' % len(parts))
    total = sum(parts) - skip * len(parts)
    got = load(out, c)
    if case['kind'] == 'vc':
        vc, rq, dyn = got
        ctx.close(vc, np.concatenate(vcs), 'joined projections', rtol=0, atol=0)
        ctx.close(rq, [0.5, 0, 0], 'wave vector', atol=1e-12)
    else:
        dyn = got
        ctx.close(np.array(dyn.velocity), np.concatenate(vels).astype(complex), 'joined velocities', rtol=0, atol=0)
        if case['kind'] == 'both' and not vonly:
            ctx.close(np.array(dyn.trajectory), np.concatenate(trajs), 'joined trajectory', rtol=0, atol=0)
        if vonly:
            try:
                dyn.trajectory
            except SystemExit:
                pass
            else:
                ctx.fail('a trajectory was joined although only velocities were asked for')
    t = np.array(dyn.get_time(), float)
    ctx.check(len(t) == total, lambda: '%d times for %d steps' % (len(t), total))
    if total > 1:
        ctx.close(np.diff(t), np.full(total - 1, case['dt']), 'time between joined steps', rtol=1e-6)
    ctx.check([int(k) for k in dyn.get_supercell_matrix()] == case['dim'], 'supercell factors')
    for i, p in enumerate(names):
        ctx.check(os.path.exists(p), 'an input file disappeared')


SUBS = [Sub('roundtrip', strategy, run, quick=160, thorough=4000, shards=4, tshards=6),
        Sub('join', join_strategy, run_join, quick=90, thorough=2500, shards=3, tshards=4)]
