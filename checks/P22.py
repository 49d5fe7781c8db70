"""P22: derived velocities, mass weighting, time step and temperature."""
import re

import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub, quiet

PROPERTY = 'P22'
RULE = ('random crystals, supercells and runs (positions wrapped into the cell or shifted by whole cells, Cartesian or '
        'scaled, regular or irregular times, memory mapped or not) without velocities, and runs with Gaussian velocities '
        'of known temperature; non-trivial when atoms cross the boundary, or when species of different mass are present')

KB = 1.380649e-23 / 1.66053907e-27 * 1e-4        # u A^2 / (ps^2 K)


def velocity_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=3), 'dim': gen.dims(1, 3, 6), 'n': st.integers(2, 30),
        'seed': gen.seeds(), 'shift': st.sampled_from(['none', 'wrap', 'wild']), 'memmap': st.booleans(),
        'scaled': st.booleans(), 'start': st.sampled_from([0., 0.7, 12.5]), 'dt': st.sampled_from([0.0005, 0.002, 0.01, 1.0]),
        'irregular': st.booleans(), 'order': st.permutations(['velocity', 'mass', 'step'])})


def velocity(case, ctx):
    import os
    from dynaphopy.dynamics import Dynamics
    os.environ['DYNAPHOPY_TEMPDIR'] = ctx.tempdir()
    c = gen.build_crystal(case['crystal'])
    dim = case['dim']
    pos, idx = gen.supercell_positions(c, dim)
    S = np.diag(dim).dot(c.cell)
    n = case['n']
    r = gen.rng(case['seed'])
    u = r.uniform(-0.3, 0.3, size=(n,) + pos.shape)
    f = u.dot(np.linalg.inv(S))
    if np.abs(f).max() > 0.45:
        u *= 0.45 / np.abs(f).max()
    x = pos[None] + u
    inside = x.dot(np.linalg.inv(S))
    crossing = not (np.floor(inside) == np.floor(inside[0])).all()
    if case['shift'] == 'wrap':
        x = (inside - np.floor(inside)).dot(S)
    elif case['shift'] == 'wild':
        x = x + r.randint(-2, 3, size=x.shape).dot(S)
    t = case['start'] + np.arange(n) * case['dt']
    if case['irregular']:
        t = t + np.concatenate([[0], np.cumsum(r.uniform(0, 0.3, size=n - 1))]) * case['dt']
    k = {'scaled_trajectory': x.dot(np.linalg.inv(S)).astype(complex)} if case['scaled'] else {
        'trajectory': x.astype(complex)}
    d = Dynamics(structure=gen.make_structure(c), time=t.copy(), supercell=S, memmap=case['memmap'], **k)
    dt = (t[-1] - t[0]) / (n - 1)
    mass = np.array([gen.MASSES[c.elements[i]] for i in idx])
    want = np.empty_like(u)
    want[0] = (u[1] - u[0]) / dt
    want[-1] = (u[-1] - u[-2]) / dt
    want[1:-1] = (u[2:] - u[:-2]) / (2 * dt)
    top = np.abs(want).max()
    rt = 2e-8 / dt + 1e-6                          # the time step is rounded to 8 decimals
    for what in case['order']:
        if what == 'step':
            ctx.close(d.get_time_step_average(), dt, 'time step', rtol=0, atol=6e-9)
        elif what == 'velocity':
            v = np.array(d.velocity)
            ctx.check(np.abs(v.imag).max() <= 1e-9 * top, 'complex velocity')
            ctx.close(v.real, want, 'velocity derived from the positions', rtol=rt, atol=1e-7 * top)
        else:
            v = np.array(d.get_velocity_mass_average())
            ctx.close(v.real, want * np.sqrt(mass)[None, :, None], 'mass-weighted velocity', rtol=rt + 1e-4,
                      atol=1e-6 * top)
    ctx.nontrivial(crossing and case['shift'] != 'none')
    ctx.event(case['shift'])
    ctx.event('memory mapped' if case['memmap'] else 'in memory')


def temperature_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=3), 'dim': gen.dims(1, 3, 6), 'n': st.integers(2, 60),
        'seed': gen.seeds(), 'T': st.sampled_from([1., 50., 300., 1500.]), 'gauss': st.booleans(),
        'set': st.sampled_from([None, None, 0.5, 300., 2000.]), 'silent': st.booleans(), 'twice': st.booleans(),
        'scale': st.sampled_from([0.5, 1., 3.])})


def temperature(case, ctx):
    import dynaphopy
    import matplotlib.pyplot as plt
    from dynaphopy.dynamics import Dynamics
    c = gen.build_crystal(case['crystal'])
    dim = case['dim']
    pos, idx = gen.supercell_positions(c, dim)
    n = case['n']
    r = gen.rng(case['seed'])
    mass = np.array([gen.MASSES[c.elements[i]] for i in idx])
    v = r.normal(size=(n,) + pos.shape) if case['gauss'] else r.uniform(-2, 2, size=(n,) + pos.shape) * r.uniform(
        0.3, 1, size=3)
    v *= np.sqrt(KB * case['T'] / mass)[None, :, None] * case['scale']
    d = Dynamics(structure=gen.make_structure(c), trajectory=np.repeat(pos[None], n, 0).astype(complex),
                 velocity=v.astype(complex), time=np.arange(n) * 0.01, supercell=np.diag(dim).dot(c.cell))
    qp = dynaphopy.Quasiparticle(d)
    want = (mass[None, :, None] * v ** 2).sum() / (3 * n * len(mass)) / KB
    a = np.sqrt(want * KB)
    rt = 5e-4 + 4e-4 / a                           # precision of the maximum-likelihood search
    ctx.nontrivial(len(set(c.elements)) > 1)
    qp.parameters.silent = True
    if case['twice']:
        qp.get_temperature()
    ctx.close(qp.get_temperature(), want, 'temperature of the run', rtol=rt)
    ctx.check(qp.parameters.silent is True, 'silent mode switched off')
    qp.parameters.silent = case['silent']
    with quiet() as out:
        qp.show_boltzmann_distribution()
    plt.close('all')
    ctx.check(qp.parameters.silent == case['silent'], 'silent mode changed')
    got = {k: float(w) for k, w in re.findall(r'^([A-Z][A-Za-z ]+): ([-+0-9.e]+) ', out.getvalue(), re.M)}
    speed = np.sqrt(((v ** 2).sum(2) * mass[None]))
    for k, w in [('Average', speed.mean()), ('Deviation', speed.std()), ('Distribution parameter', a),
                 ('Temperature fit', want)]:
        ctx.check(k in got, 'no "%s" is printed' % k)
        ctx.close(got[k], w, 'printed "%s"' % k, rtol=rt)
    if case['set'] is not None:
        qp.set_temperature(case['set'])
        ctx.close(qp.get_temperature(), case['set'], 'temperature given by the user', rtol=1e-12)
        qp.set_temperature(None)
        ctx.close(qp.get_temperature(), want, 'temperature of the run, again', rtol=rt)
        ctx.event('given')


SUBS = [
    Sub('velocity', velocity_strategy, velocity, quick=240, thorough=6000, shards=3, tshards=6),
    Sub('temperature', temperature_strategy, temperature, quick=160, thorough=3000, shards=3, tshards=6),
]
