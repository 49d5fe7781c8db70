"""P33: molecular dynamics run by LAMMPS."""
import os
import sys
import types

import numpy as np
from hypothesis import strategies as st

from vlib import calc, files, gen
from vlib.core import Sub, quiet
from checks.P26 import as_written, sort_elements

PROPERTY = 'P33'
RULE = ('a stand-in of the lammps module moves generated crystals along a generated run, with atoms replicated, numbered, wrapped and sorted '
        'in memory like LAMMPS does (another order after every run command); trajectories, velocities, energies, times, cell and the '
        'commands given are compared with the run; non-trivial when the order in memory changes and the supercell has several cells')
ASSUMPTIONS = ['the stand-in keeps to the documented interface of the lammps Python module (extract_atom gives local arrays, in which '
               'the order of the atoms is arbitrary and given by their id)']

NOW = None


class Lammps:
    """lammps.lammps"""

    def __init__(self, *a, **k):
        NOW.cmdargs = list(k.get('cmdargs') or (a[1] if len(a) > 1 else []) or [])
        self.w = NOW
        self.w.opened += 1

    def file(self, name):
        self.w.log.append('file ' + name)
        if not os.path.exists(name):
            raise Exception('ERROR: Cannot open input script ' + name)

    def command(self, line):
        self.w.command(line)

    def commands_list(self, lines):
        for x in lines:
            self.w.command(x)

    def commands_string(self, text):
        self.commands_list([x for x in text.splitlines() if x.strip()])

    def extract_global(self, name, *t):
        if self.w.api == 'old' and not t:
            raise TypeError('extract_global() missing 1 required positional argument')
        if self.w.api == 'box' and name != 'natoms':
            raise UnboundLocalError(name)
        value = self.w.globals()[name]
        if self.w.api == 'old' and t[0] != (0 if isinstance(value, int) else 1):
            return 0  # the bits of a double taken as integer
        return value

    def extract_box(self):
        g = self.w.globals()
        return ([g['boxxlo'], g['boxylo'], g['boxzlo']], [g['boxxhi'], g['boxyhi'], g['boxzhi']], g['xy'], g['yz'], g['xz'], [1, 1, 1], 0)

    def get_natoms(self):
        return len(self.w.tags)

    def gather_atoms(self, name, kind, count):
        x, v = self.w.now()
        data = {'x': x, 'v': v}[name]
        return [float(z) for z in data[np.argsort(self.w.number)].ravel()]

    def extract_atom(self, name, *t):
        x, v = self.w.now()
        o = self.w.order
        if name == 'id':
            return [int(k) for k in self.w.number[o]]
        if name in ('x', 'v'):
            return [list(map(float, z)) for z in {'x': x, 'v': v}[name][o]]
        raise Exception('property %s is not part of the stand-in' % name)

    def extract_variable(self, name, *a):
        return float(self.w.energy[self.w.step])

    def get_thermo(self, name):
        return float(self.w.energy[self.w.step])

    def extract_setting(self, name):
        return len(self.w.tags)

    def close(self):
        self.w.closed += 1

    finalize = close


class World:
    def __init__(self, case, c, low, R):
        self.case, self.c, self.low, self.api = case, c, low, case['api']
        self.log, self.cmdargs, self.opened, self.closed = [], [], 0, 0
        self.step = 0
        self.tags = self.number = self.order = None
        self.rng = gen.rng(case['seed'] + 2)
        self.replicate([1, 1, 1])
        self.zero = case['zero']

    def replicate(self, dim):
        c = self.c
        self.dim = [int(k) for k in dim]
        self.pos, self.tags = gen.supercell_positions(c, self.dim)
        self.S = np.diag(self.dim).dot(c.cell)
        n = len(self.pos)
        # LAMMPS numbers the atoms cell by cell
        if self.case['shuffle']:
            self.number = 1 + gen.rng(self.case['seed'] + 9).permutation(n)
        else:
            cells = n // len(c.elements)
            self.number = np.array([1 + k * len(c.elements) + i for i in range(len(c.elements)) for k in range(cells)])
        self.order = np.argsort(self.number)
        r = gen.rng(self.case['seed'] + 4)
        m = self.case['relax'] + self.case['n'] * self.case['sampling'] + 3
        self.u = r.normal(size=(m, n, 3)) * 0.04
        self.u[0] = 0
        self.v = r.normal(size=(m, n, 3)) * 3
        self.v[0, :r.randint(0, n)] = 0.         # some atoms start at rest
        self.energy = r.normal(size=m)

    def command(self, line):
        self.log.append(' '.join(line.split()))
        w = line.split()
        if w[0] == 'replicate':
            self.replicate(w[1:4])
        elif w[0] == 'run':
            n = int(w[1])
            self.step += n
            if self.step >= len(self.u):
                raise Exception('the run is longer than asked for: step %d' % self.step)
            if self.case['sort'] and n > 0:
                self.order = self.rng.permutation(len(self.pos))
        elif w[:3] == ['velocity', 'all', 'create']:
            self.zero = False

    def now(self):
        x = self.pos + self.u[self.step]
        lo = np.array(self.case['lo']) / 10.
        f = (x - lo).dot(np.linalg.inv(self.S))
        x = (f - np.floor(f)).dot(self.S) + lo
        v = self.v[self.step]
        return x, np.zeros(v.shape) if self.zero else v

    def globals(self):
        S, lo = self.S, np.array(self.case['lo']) / 10.
        return {'natoms': len(self.pos), 'boxxlo': lo[0], 'boxylo': lo[1], 'boxzlo': lo[2], 'boxxhi': lo[0] + S[0, 0], 'boxyhi': lo[1] + S[1, 1],
                'boxzhi': lo[2] + S[2, 2], 'xy': S[1, 0], 'xz': S[2, 0], 'yz': S[2, 1]}


def strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=3, lo=350, hi=600, min_atoms=1), 'dim': gen.dims(1, 3, 9), 'seed': gen.seeds(),
        'n': st.integers(1, 12), 'sampling': st.integers(1, 3), 'relax': st.integers(0, 9), 'dt': st.sampled_from([0.001, 0.002, 0.0005, 0.003]),
        'sort': st.booleans(), 'shuffle': st.booleans(), 'zero': st.booleans(), 'lo': st.lists(st.integers(-4, 4), min_size=3, max_size=3),
        'api': st.sampled_from(['new', 'old', 'box']), 'T': st.sampled_from([None, None, 300.0]), 'velocity_only': st.booleans(),
        'script': st.sampled_from([False, False, True]), 'log': st.booleans(), 'silent': st.booleans(), 'memmap': st.booleans()})


def run(case, ctx):
    global NOW
    import h5py
    mod = types.ModuleType('lammps')
    mod.lammps = Lammps
    sys.modules['lammps'] = mod
    c = gen.build_crystal(case['crystal'])
    sort_elements(c)
    low, R = files.lammps_cell(c.cell)
    c.cell, c.prim = low, c.prim.dot(R)
    c.positions = c.scaled.dot(c.cell)
    c.primitive_matrix = np.dot(np.linalg.inv(c.cell.T), c.prim.T)
    dim = case['dim']
    if len(c.elements) * np.prod(dim) < 2:
        return
    d = ctx.tempdir()
    os.chdir(d)
    os.environ['DYNAPHOPY_TEMPDIR'] = ctx.tempdir()
    with open('in.md', 'w') as f:
        f.write('units metal\n')
    NOW = w = World(case, c, low, R)
    dt, n, sampling = case['dt'], case['n'], case['sampling'] if not case['script'] else 1
    extra = case['seed'] % sampling  # steps that do not fill another interval
    total, relax = float('%.10g' % ((n * sampling + extra) * dt)), float('%.10g' % (case['relax'] * dt))
    ctx.event('script' if case['script'] else 'library')
    ctx.nontrivial(case['sort'] and np.prod(dim) > 1)
    if case['script']:
        with open('POSCAR', 'w') as f:
            f.write(files.poscar(c.cell, c.elements, c.scaled, fmt='%22.15f'))
        with open('input', 'w') as f:
            f.write('STRUCTURE FILE POSCAR\nPOSCAR\n\nPRIMITIVE MATRIX\n' + '\n'.join(' '.join('%.15f' % x for x in r) for r in c.primitive_matrix) + '\n')
        argv = ['input', '--run_lammps', 'in.md', repr(total), repr(dt), repr(relax), '--dim'] + list(dim) + ['-sv', 'out.h5']
        argv += ['--silent'] if case['silent'] else []
        argv += ['--velocity_only'] if case['velocity_only'] else []
        argv += ['--memmap'] if case['memmap'] else []
        argv += ['--temperature', case['T']] if case['T'] else []
        code, text = calc.run_script('dynaphopy', argv, d)
        ctx.check(code == 0, lambda: 'dynaphopy %s ended with code %s: %s' % (' '.join(map(str, argv)), code, text[-600:]))
        with h5py.File('out.h5') as f:
            got = {k: np.array(f[k]) for k in f}
        velocity, time = got['velocity'], got['time']
        trajectory = got.get('trajectory')
        ctx.close(np.array(got['super_cell'], dtype=float), np.array(dim, dtype=float), 'supercell of the file', rtol=0)
    else:
        from dynaphopy.interface.lammps_link import generate_lammps_trajectory
        kw = {} if case['T'] is None else {'temperature': case['T']}
        dyn = generate_lammps_trajectory(gen.make_structure(c), 'in.md', total_time=total, time_step=dt, relaxation_time=relax, silent=case['silent'],
                                         supercell=tuple(dim), velocity_only=case['velocity_only'], lammps_log=case['log'],
                                         sampling_interval=sampling, memmap=case['memmap'], **kw)
        velocity, time, trajectory = dyn.velocity, dyn.get_time(), None if case['velocity_only'] else dyn.trajectory
        if case['velocity_only']:
            try:
                with quiet():
                    trajectory = dyn.trajectory
            except SystemExit:
                pass
        ctx.close(np.array(dyn.get_supercell()), w.S, 'simulation cell', rtol=1e-9, atol=1e-9)
        ctx.close(np.array(dyn.get_energy()).real, w.energy[case['relax'] + sampling * np.arange(1, n + 1)], 'energies', rtol=1e-12)
        ctx.check(list(dyn.get_supercell_matrix()) == list(dim), 'supercell %s' % (dyn.get_supercell_matrix(),))
        ctx.check(('none' in [z for y, z in zip(w.cmdargs, w.cmdargs[1:]) if y == '-log']) == (not case['log']), 'log of LAMMPS: %s' % w.cmdargs)
    steps = case['relax'] + sampling * np.arange(1, n + 1)
    velocity = np.array(velocity)
    ctx.check(velocity.shape == (n, len(w.pos), 3), 'velocities: shape %s, expected %s' % (velocity.shape, (n, len(w.pos), 3)))
    ctx.close(np.array(time).real, np.arange(n) * dt * sampling, 'times', rtol=1e-9, atol=1e-12)
    ctx.close(velocity, w.v[steps].astype(complex), 'velocities', rtol=1e-12, atol=1e-12)
    if case['velocity_only']:
        ctx.check(trajectory is None, 'trajectory of a run of velocities')
    else:
        df = (np.array(trajectory).real - (w.pos + w.u[steps])).dot(np.linalg.inv(w.S))
        ctx.close((df - np.round(df)).dot(w.S), np.zeros(df.shape), 'trajectory', rtol=0, atol=1e-9)
    # the commands
    log = w.log
    ctx.check(log[0] == 'file in.md', 'the input file was not the first thing read: %s' % log[:2])
    ctx.check(sum(x.startswith('replicate') for x in log) == 1 and w.dim == list(dim), 'replicated %s times' % w.dim)
    ts = [x.split()[1] for x in log if x.startswith('timestep')]
    ctx.check(len(ts) == 1 and abs(float(ts[0]) - dt) < 1e-15, 'time step %s' % ts)
    ctx.check(w.step == steps[-1], '%d steps were run, %d asked for' % (w.step, steps[-1]))
    ctx.check(w.opened == w.closed == 1, 'LAMMPS was opened %d times and closed %d' % (w.opened, w.closed))
    create = [x.split() for x in log if x.startswith('velocity all create')]
    ctx.check(len(create) == (1 if case['zero'] else 0), lambda: 'initial velocities set %d times: %s' % (len(create), log))
    T = case['T'] or 100
    if create:
        ctx.close(float(create[0][3]), T, 'temperature of the initial velocities', rtol=1e-12)
    nvt = [x.split() for x in log if x.startswith('fix') and 'nvt' in x.split()]
    ctx.check(len(nvt) == (1 if case['T'] else 0), '%d thermostats' % len(nvt))
    if nvt:
        k = nvt[0].index('temp')
        ctx.close([float(z) for z in nvt[0][k + 1:k + 3]], [T, T], 'temperature of the thermostat', rtol=1e-12)


SUBS = [Sub('run', strategy, run, quick=200, thorough=6000)]
