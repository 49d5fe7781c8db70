"""P05: trajectory readers."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, files
from vlib.core import Sub

PROPERTY = 'P05'
RULE = ('random crystals, supercells and trajectories written by independent writers as XDATCAR, LAMMPS dump '
        '(positions or velocities, with/without tilt columns, box rotated and shifted) and OUTCAR; read with random '
        'windows (first step, last step, last N steps), atom templates and memory mapping through the auto-detected '
        'reader; non-trivial when a window, a template or memory mapping is used')
ASSUMPTIONS = ['LAMMPS dumps hold exactly the columns x y z or vx vy vz, atoms sorted as the template says, as the '
               'documentation requires; the simulation cell does not change along the trajectory']


def strategy():
    return st.fixed_dictionaries({
        'fmt': st.sampled_from(['xdatcar', 'lammps', 'lammps_v', 'outcar']),
        'crystal': gen.crystal_spec(max_atoms=3, centerings=('P', 'C', 'I', 'P211')), 'dim': gen.dims(1, 3, 8),
        'nframes': st.integers(1, 9), 'seed': gen.seeds(),
        'first': st.integers(0, 6), 'last': st.one_of(st.none(), st.integers(1, 12)),
        'tail': st.one_of(st.none(), st.none(), st.integers(1, 9)), 'limit': st.one_of(st.none(), st.none(), st.integers(1, 7)),
        'memmap': st.booleans(), 'template': st.booleans(), 'dt': st.sampled_from([None, 0.001, 0.0005, 0.002]),
        'start': st.sampled_from([0, 1, 100, 10000]), 'stride': st.sampled_from([1, 2, 10]),
        'scale': st.sampled_from([1.0, 1.0, 1.0, 5.43]), 'tilt': st.booleans(),
        'origin': st.booleans()})


def window(case):
    """Reference meaning: frames first..last (1-based, inclusive), then the last `tail` of them."""
    first = max(case['first'], 1)
    n = case['nframes']
    sel = list(range(first - 1, n if case['last'] is None else min(n, case['last'])))
    if case['limit'] is not None:
        sel = sel[:case['limit']]
    if case['tail'] is not None:
        sel = sel[-case['tail']:]
    return sel


def build(case):
    c = gen.build_crystal(case['crystal'])
    dim = case['dim']
    # atoms of one species are written together
    o = sorted(range(len(c.elements)), key=lambda i: c.elements[i])
    c.elements = [c.elements[i] for i in o]
    c.scaled = c.scaled[o]
    c.positions = c.scaled.dot(c.cell)
    c.ptype = None
    pos, idx = gen.supercell_positions(c, dim)
    S = np.diag(dim).dot(c.cell)
    r = gen.rng(case['seed'])
    x = pos[None] + r.normal(size=(case['nframes'], len(pos), 3)) * 0.2
    els = [c.elements[i] for i in idx]
    return c, S, pos, els, x


def write(case, d, c, S, els, x):
    """Returns (file, kind, expected data, time step of one frame, tolerance)."""
    n = case['nframes']
    path = os.path.join(d, 'traj.dat')
    if case['fmt'] == 'xdatcar':
        frac = x.dot(np.linalg.inv(S))
        steps = [case['start'] + 1 + i * case['stride'] for i in range(n)]
        open(path, 'w').write(files.xdatcar(S, els, frac, scale=case['scale'], steps=steps))
        return path, 'position', x, (case['dt'] or 0.001) * case['stride'], 1e-5
    if case['fmt'].startswith('lammps'):
        low, R = files.lammps_cell(S)
        vel = case['fmt'] == 'lammps_v'
        steps = [case['start'] + i * case['stride'] for i in range(n)]
        tilt = case['tilt'] or np.abs(low - np.diag(np.diag(low))).max() > 1e-6
        open(path, 'w').write(files.lammpstrj(low, x.dot(R), steps, labels='vx vy vz' if vel else 'x y z', tilt=tilt,
                                              origin=(1.5, -2.0, 0.25) if case['origin'] else (0, 0, 0)))
        return path, 'velocity' if vel else 'position', x, (case['dt'] or 0.001) * case['stride'], 1e-6
    masses = [gen.MASSES[e] for e in els]
    energies = [-100.0 - 0.5 * i for i in range(n)]
    open(path, 'w').write(files.outcar(S, els, masses, x[0].dot(np.linalg.inv(S)), x[0], x, energies, potim=0.5))
    return path, 'position', x, 0.0005, 1e-6


def run(case, ctx):
    from dynaphopy.interface.iofile import get_trajectory_parser
    case = dict(case)
    if case['fmt'] == 'outcar':
        case['memmap'] = False
    first = max(case['first'], 1)
    if first > case['nframes']:
        case['first'] = case['nframes']
    if case['last'] is not None and case['last'] < case['first']:
        case['last'] = case['first']
    if case['memmap'] and case['last'] is None:
        case['last'] = case['nframes']
    if case['memmap'] and case['first'] == 0:
        case['first'] = 1
    c, S, pos, els, x = build(case)
    d = ctx.tempdir()
    path, kind, want, dt, tol = write(case, d, c, S, els, x)
    parser = get_trajectory_parser(path)
    ctx.check(parser is not None, 'format not recognized')
    tmp = os.path.join(d, 'tmp')
    os.mkdir(tmp)
    os.environ['DYNAPHOPY_TEMPDIR'] = tmp
    template = None
    r = gen.rng(case['seed'] + 1)
    if case['template']:
        template = r.permutation(len(pos))
    s = gen.make_structure(c, primitive_matrix=np.eye(3))
    before = open(path, 'rb').read()
    kw = dict(structure=s, initial_cut=case['first'], end_cut=case['last'], memmap=case['memmap'], template=template)
    if case['tail'] is not None:
        kw['last_steps'] = case['tail']
    if case['dt'] is not None:
        kw['time_step'] = case['dt']
    if case['limit'] is not None:
        kw['limit_number_steps'] = case['limit']
        ctx.event('limit')
    dyn = parser(path, **kw)
    ctx.check(open(path, 'rb').read() == before, 'the trajectory file was modified')
    sel = window(case)
    expect = want[sel]
    if template is not None:
        e2 = np.empty_like(expect)
        e2[:, template] = expect
        expect = e2
    got = np.array(dyn.velocity if kind == 'velocity' else dyn.trajectory)
    ctx.check(got.shape == expect.shape, lambda: 'shape %r, expected %r' % (got.shape, expect.shape))
    ctx.close(got.real, expect, kind, rtol=0, atol=tol)
    ctx.check(np.abs(got.imag).max() == 0, 'imaginary part')
    t = np.array(dyn.get_time(), dtype=float)
    ctx.check(t.shape == (len(sel),), lambda: 'number of times %r for %d frames' % (t.shape, len(sel)))
    if len(sel) > 1:
        ctx.close(np.diff(t), np.full(len(sel) - 1, dt), 'time between frames', rtol=1e-6, atol=1e-9)
        ctx.close(float(dyn.get_time_step_average()), dt, 'average time step', rtol=0, atol=2e-8)
    if case['fmt'].startswith('lammps'):
        ctx.close(t, (case['start'] + np.array(sel) * case['stride']) * (case['dt'] or 0.001), 'absolute times',
                  rtol=1e-9)
    ctx.close(dyn.get_supercell(), S, 'simulation cell', rtol=0, atol=2e-5)
    ctx.check([int(k) for k in dyn.get_supercell_matrix()] == case['dim'], 'supercell factors')
    if case['fmt'] == 'outcar':
        ctx.close(dyn.get_energy(), [-100.0 - 0.5 * i for i in sel], 'energies', rtol=0, atol=1e-6)
    windowed = sel != list(range(case['nframes']))
    ctx.nontrivial(windowed or case['template'] or case['memmap'])
    ctx.event(case['fmt'])
    if case['memmap']:
        ctx.event('memmap')
    if case['first'] > 1:
        ctx.event(case['fmt'] + ' skips frames')
    del dyn


def equiv_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=3, centerings=('P', 'C', 'I')), 'dim': gen.dims(1, 2, 8),
        'nframes': st.integers(2, 6), 'seed': gen.seeds()})


def run_equiv(case, ctx):
    """The same run in three formats is the same trajectory."""
    from dynaphopy.interface.iofile import get_trajectory_parser
    res = {}
    for fmt in ('xdatcar', 'lammps', 'outcar'):
        k = dict(case, fmt=fmt, dt=0.0005, start=0, stride=1, scale=1.0, tilt=True, origin=False)
        c, S, pos, els, x = build(k)
        path, kind, want, dt, tol = write(k, ctx.tempdir(), c, S, els, x)
        s = gen.make_structure(c, primitive_matrix=np.eye(3))
        kw = {} if fmt == 'outcar' else {'time_step': 0.0005}
        d = get_trajectory_parser(path)(path, structure=s, **kw)
        res[fmt] = (np.array(d.get_relative_trajectory()).real, np.array(d.velocity).real if case['nframes'] > 2 else 0,
                    d.get_supercell())
    for fmt in ('lammps', 'outcar'):
        ctx.close(res[fmt][0], res['xdatcar'][0], fmt + ' displacements vs XDATCAR', rtol=0, atol=1e-5)
        ctx.close(res[fmt][2], res['xdatcar'][2], fmt + ' cell vs XDATCAR', rtol=0, atol=1e-5)
        if case['nframes'] > 2:
            ctx.close(res[fmt][1], res['xdatcar'][1], fmt + ' velocities vs XDATCAR', rtol=0, atol=3e-2)
    ctx.nontrivial(case['crystal']['cell']['kind'] not in ('cubic', 'tetra', 'ortho'))


def trunc_strategy():
    return st.fixed_dictionaries({
        'fmt': st.sampled_from(['xdatcar', 'lammps', 'lammps_v', 'outcar']),
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P',)), 'dim': gen.dims(1, 2, 4),
        'nframes': st.integers(1, 5), 'seed': gen.seeds(), 'drop': st.integers(0, 24), 'memmap': st.booleans(),
        'midline': st.booleans()})


def run_trunc(case, ctx):
    """A file cut anywhere (the run was killed, the disk was full) is rejected or gives the complete frames only."""
    from dynaphopy.interface.iofile import get_trajectory_parser
    k = dict(case, dt=0.001, start=0, stride=1, scale=1.0, tilt=True, origin=False)
    if case['fmt'] == 'outcar':
        k['memmap'] = False
    c, S, pos, els, x = build(k)
    d = ctx.tempdir()
    path, kind, want, dt, tol = write(k, d, c, S, els, x)
    lines = open(path).read().split('\n')[:-1]
    cut = max(1, len(lines) - case['drop'])
    text = '\n'.join(lines[:cut]) + '\n'
    if case['midline'] and lines[cut - 1].split():
        # cut in the middle of the last line kept, after a whole column
        parts = lines[cut - 1].split()
        text = '\n'.join(lines[:cut - 1]) + '\n' + ' '.join(parts[:max(1, len(parts) - 1)]) if cut > 1 else parts[0]
    open(path, 'w').write(text)
    tmp = os.path.join(d, 'tmp')
    os.mkdir(tmp)
    os.environ['DYNAPHOPY_TEMPDIR'] = tmp
    s = gen.make_structure(c, primitive_matrix=np.eye(3))
    try:
        parser = get_trajectory_parser(path)
        if parser is None:
            ctx.event('not recognized')
            return
        dyn = parser(path, structure=s, time_step=0.001, memmap=k['memmap'],
                     **({'end_cut': case['nframes']} if k['memmap'] else {}))
        got = np.array(dyn.velocity if kind == 'velocity' else dyn.trajectory).real
        t = np.array(dyn.get_time())
    except (Exception, SystemExit):
        ctx.event('rejected')
        ctx.nontrivial()
        return
    if len(got) == 0:
        ctx.check(len(t) == 0, 'times without frames')
        ctx.event('empty')
        return
    ctx.check(got.ndim == 3 and got.shape[1:] == want.shape[1:], lambda: 'shape %r' % (got.shape,))
    ctx.check(len(got) <= len(want), 'more frames than written')
    ctx.close(got, want[:len(got)], 'frames of a truncated file', rtol=0, atol=tol)
    ctx.check(len(t) == len(got), lambda: '%d times for %d frames' % (len(t), len(got)))
    ctx.event('complete frames')
    ctx.nontrivial(len(got) < len(want))


SUBS = [Sub('read', strategy, run, quick=1500, thorough=30000, shards=4, tshards=8),
        Sub('formats_agree', equiv_strategy, run_equiv, quick=150, thorough=3000, shards=2, tshards=4),
        Sub('truncated', trunc_strategy, run_trunc, quick=500, thorough=10000, shards=2, tshards=4)]
