"""Generators (hypothesis strategies of plain JSON values) and builders (JSON value -> real input)."""
import itertools

import numpy as np
from hypothesis import strategies as st

ELEMENTS = ['H', 'Li', 'C', 'N', 'O', 'Na', 'Mg', 'Al', 'Si', 'S', 'Ti', 'Cu', 'Ga', 'Ag', 'Au']


def rng(seed):
    return np.random.RandomState(seed % (2 ** 32))


def seeds():
    return st.integers(0, 2 ** 31 - 1)


# ------------------------------------------------------------------ cells
def cell_spec(kinds=('cubic', 'tetra', 'ortho', 'tric', 'hex', 'fcc', 'bcc', 'shear'), lo=250, hi=900, rotate=True):
    return st.fixed_dictionaries({
        'kind': st.sampled_from(list(kinds)),
        'a': st.integers(lo, hi), 'b': st.integers(lo, hi), 'c': st.integers(lo, hi),
        'al': st.integers(65, 115), 'be': st.integers(65, 115), 'ga': st.integers(65, 115),
        'rot': seeds() if rotate else st.just(0)})


def rotation(seed):
    """Proper rotation; identity for 0, and for half of the seeds axis-aligned cells stay aligned."""
    if seed == 0 or seed % 2 == 0:
        return np.eye(3)
    r = rng(seed)
    q, t = np.linalg.qr(r.normal(size=(3, 3)))
    q = q * np.sign(np.diag(t))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def tri(a, b, c, al, be, ga):
    al, be, ga = np.radians([al, be, ga])
    v = np.zeros((3, 3))
    v[0] = [a, 0, 0]
    v[1] = [b * np.cos(ga), b * np.sin(ga), 0]
    cy = (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga)
    v[2] = [c * np.cos(be), c * cy, c * np.sqrt(1 - np.cos(be) ** 2 - cy ** 2)]
    return v


def build_cell(s):
    a, b, c = s['a'] / 100., s['b'] / 100., s['c'] / 100.
    k = s['kind']
    if k == 'cubic':
        m = np.diag([a, a, a])
    elif k == 'tetra':
        m = np.diag([a, a, c])
    elif k == 'ortho':
        m = np.diag([a, b, c])
    elif k == 'hex':
        m = tri(a, a, c, 90, 90, 120)
    elif k == 'fcc':
        m = a / np.sqrt(2) * np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) / np.sqrt(2) * np.sqrt(2)
    elif k == 'bcc':
        m = a * np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]])
    elif k == 'tric':
        m = tri(a, b, c, s['al'], s['be'], s['ga'])
    elif k == 'shear':
        m = tri(a, b, c, s['al'], s['be'], s['ga'])
        r = rng(s['al'] * 7919 + s['be'] * 104729 + s['ga'])
        u = np.eye(3)
        for _ in range(2):
            i, j = r.permutation(3)[:2]
            e = np.eye(3)
            e[i, j] = r.choice([-1, 1])
            u = e.dot(u)
        m = u.dot(m)
    else:
        raise ValueError(k)
    m = m.dot(rotation(s['rot']).T)
    if np.linalg.det(m) < 0:
        m = m[[1, 0, 2]] if k in ('fcc', 'bcc') else -m
    return m


# ------------------------------------------------------------------ crystals
CENTERINGS = {
    'P': np.eye(3, dtype=int),
    'P211': np.diag([2, 1, 1]),
    'P112': np.diag([1, 1, 2]),
    'P121': np.diag([1, 2, 1]),
    'P212': np.diag([2, 1, 2]),
    'C': np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 1]]),
    'A': np.array([[1, 0, 0], [0, 1, 1], [0, -1, 1]]),
    'I': np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]),
    'F': np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]),
}


def crystal_spec(max_atoms=3, centerings=tuple(CENTERINGS), kinds=('cubic', 'tetra', 'ortho', 'tric', 'hex', 'shear'),
                 min_atoms=1, lo=300, hi=700, order=True, elements=None, rotate=True):
    """A primitive cell with 1..max_atoms atoms and a conventional cell made of it."""
    elements = elements or ELEMENTS
    return st.fixed_dictionaries({
        'cell': cell_spec(kinds, lo, hi, rotate),
        'cent': st.sampled_from(list(centerings)),
        'elements': st.lists(st.sampled_from(elements), min_size=min_atoms, max_size=max_atoms),
        'sites': seeds(),
        'order': st.integers(0, 5) if order else st.just(0)})


class Crystal:
    pass


def build_crystal(s):
    """Returns object with prim (3x3), cell, scaled, positions, elements, ptype (index of primitive atom, unit cell),
    primitive_matrix.  Atoms of the unit cell are grouped by primitive atom for order 0; other orders shuffle them."""
    c = Crystal()
    c.prim = build_cell(s['cell'])
    M = CENTERINGS[s['cent']]
    c.M = M
    if np.linalg.det(M) < 0:
        M = -M
    c.cell = M.dot(c.prim)
    if np.linalg.det(c.cell) < 0:
        c.prim = -c.prim
        c.cell = -c.cell
    n = len(s['elements'])
    r = rng(s['sites'])
    grid = np.array(list(itertools.product(range(3), repeat=3)), dtype=float) / 3.
    pick = r.permutation(len(grid))[:n]
    frac = (grid[pick] + r.uniform(-0.05, 0.05, size=(n, 3)) + r.uniform(0, 1, size=3)) % 1.0
    if s['sites'] % 3 == 0:
        frac = grid[pick]
    # lattice points of the primitive lattice inside the unit cell
    inv = np.linalg.inv(M.astype(float))
    pts = []
    for t in itertools.product(range(-4, 5), repeat=3):
        f = np.dot(np.array(t), inv)
        if np.all(f > -1e-9) and np.all(f < 1 - 1e-9):
            pts.append(f)
    assert len(pts) == int(round(abs(np.linalg.det(M))))
    scaled, elements, ptype = [], [], []
    for i in range(n):
        for p in pts:
            f = frac[i].dot(inv) + p
            f = f - np.floor(f + 1e-12)
            scaled.append(f)
            elements.append(s['elements'][i])
            ptype.append(i)
    order = list(range(len(scaled)))
    if s.get('order'):
        order = list(rng(s['order'] * 31 + s['sites'] % 1000).permutation(len(scaled)))
    c.scaled = np.array(scaled)[order]
    c.elements = [str(elements[i]) for i in order]
    ptype = [ptype[i] for i in order]
    # dynaphopy numbers primitive atoms by first appearance
    seen = {}
    c.ptype = np.array([seen.setdefault(t, len(seen)) for t in ptype])
    c.nprim = n
    c.positions = c.scaled.dot(c.cell)
    c.primitive_matrix = np.dot(np.linalg.inv(c.cell.T), c.prim.T)
    return c


def make_structure(c, mode='scaled', **kw):
    from dynaphopy.atoms import Structure
    a = dict(cell=c.cell, atomic_elements=list(c.elements), primitive_matrix=c.primitive_matrix)
    if mode == 'scaled':
        a['scaled_positions'] = c.scaled.copy()
    elif mode == 'cart':
        a['positions'] = c.positions.copy()
    else:
        a['scaled_positions'] = c.scaled.copy()
        a['positions'] = c.positions.copy()
    a.update(kw)
    return Structure(**a)


def dims(lo=1, hi=4, max_prod=24):
    return st.lists(st.integers(lo, hi), min_size=3, max_size=3).map(lambda d: _clip(d, lo, max_prod))


def _clip(d, lo, max_prod):
    d = list(d)
    while np.prod(d) > max_prod:
        i = int(np.argmax(d))
        if d[i] <= lo:
            break
        d[i] -= 1
    return d


def supercell_positions(c, dim):
    """Reference expansion: atom major, x fastest."""
    out, idx = [], []
    for i, p in enumerate(c.positions):
        for z in range(dim[2]):
            for y in range(dim[1]):
                for x in range(dim[0]):
                    out.append(p + np.dot([x, y, z], c.cell))
                    idx.append(i)
    return np.array(out), np.array(idx)


MASS = None


def mass_of(element):
    """Reference masses (own copy is not needed: relative checks use the repository table only through
    independent constants below)."""
    return MASSES[element]


MASSES = {'H': 1.00794, 'Li': 6.941, 'C': 12.0107, 'N': 14.0067, 'O': 15.9994, 'Na': 22.98976928, 'Mg': 24.3050,
          'Al': 26.9815386, 'Si': 28.0855, 'S': 32.065, 'Ti': 47.867, 'Cu': 63.546, 'Ga': 69.723, 'Ag': 107.8682,
          'Au': 196.966569}


# ------------------------------------------------------------------ force constants
def spring_force_constants(c, dim, seed=0, k0=6.0, transverse=0.25):
    """Full supercell force constants of a positive pair-spring model, atoms in phonopy's supercell order
    (atom major, x fastest): translationally invariant, symmetric, obeys the acoustic sum rule, no negative
    eigenvalue, has the symmetry of the crystal."""
    pos, idx = supercell_positions(c, dim)
    return springs(c, pos, [c.elements[i] for i in idx], np.diag(dim).dot(c.cell), seed, k0, transverse)


def springs(c, pos, elements, S, seed=0, k0=6.0, transverse=0.25):
    """The same for any supercell S of the crystal, with its atoms at pos."""
    n = len(pos)
    r0 = (abs(np.linalg.det(c.cell)) / len(c.positions)) ** (1. / 3)
    rc = 2.4 * r0
    r = rng(seed)
    kinds = sorted(set(c.elements))
    K = {}
    for a in kinds:
        for b in kinds:
            if a <= b:
                K[(a, b)] = K[(b, a)] = k0 * r.uniform(0.6, 1.4)
    inv = np.linalg.inv(S)
    # images needed
    heights = 1.0 / np.linalg.norm(inv, axis=0)
    fc = np.zeros((n, n, 3, 3))
    fr = pos.dot(inv)
    rng_img = [int(np.ceil(rc / h)) + 1 for h in heights]
    imgs = np.array(list(itertools.product(*[range(-m, m + 1) for m in rng_img])), dtype=float)
    for i in range(n):
        d = fr - fr[i]
        d = d - np.round(d)
        v = (d[:, None, :] + imgs[None, :, :]).dot(S)
        dist = np.linalg.norm(v, axis=2)
        js, ms = np.where((dist < rc) & (dist > 1e-6))
        for j, m in zip(js, ms):
            if j == i:
                # interaction with own image contributes nothing to the force constants
                continue
            x = dist[j, m]
            w = np.exp(-(x / r0) ** 2 * 0.9) * (1 - (x / rc) ** 2) ** 2
            k = K[(elements[i], elements[j])] * w * 2.2
            u = v[j, m] / x
            f = k * ((1 - transverse) * np.outer(u, u) + transverse * np.eye(3))
            fc[i, j] -= f
            fc[i, i] += f
    return fc


def structure_with_fc(c, dim, seed=0, **kw):
    from dynaphopy.interface.phonopy_link import ForceConstants
    s = make_structure(c, **kw)
    s.set_force_constants(ForceConstants(spring_force_constants(c, dim, seed), supercell=np.diag(dim)))
    return s


# ------------------------------------------------------------------ trajectories
def smooth_displacements(seed, nstep, natom, scale, dt, fmax=8.0, nmodes=6):
    """Sum of a few sinusoids per coordinate; returns displacement and its exact time derivative."""
    r = rng(seed)
    t = np.arange(nstep) * dt
    f = r.uniform(0.5, fmax, size=(nmodes, natom, 3))
    ph = r.uniform(0, 2 * np.pi, size=(nmodes, natom, 3))
    am = r.uniform(0.2, 1.0, size=(nmodes, natom, 3)) / nmodes * scale
    arg = 2 * np.pi * f[None] * t[:, None, None, None] + ph[None]
    u = (am[None] * np.sin(arg)).sum(1)
    v = (am[None] * 2 * np.pi * f[None] * np.cos(arg)).sum(1)
    return u, v


def make_dynamics(structure, c, dim, nstep=32, dt=0.01, seed=0, scale=0.1, velocity='given', trajectory=True,
                  wrap=False, noise=0.0, memmap=False, energy=False):
    """Random but reproducible MD-like data on the given crystal; returns (Dynamics, displacement, velocity)."""
    from dynaphopy.dynamics import Dynamics
    pos, idx = supercell_positions(c, dim)
    S = np.diag(dim).dot(c.cell)
    u, v = smooth_displacements(seed, nstep, len(pos), scale, dt)
    if noise:
        v = v + noise * rng(seed + 17).normal(size=v.shape)
    x = pos[None] + u
    if wrap:
        f = x.dot(np.linalg.inv(S))
        x = (f - np.floor(f)).dot(S)
    d = Dynamics(structure=structure,
                 trajectory=x.astype(complex) if trajectory else None,
                 velocity=v.astype(complex) if velocity == 'given' else None,
                 time=np.arange(nstep) * dt, supercell=S, memmap=memmap,
                 energy=np.arange(nstep) * 1.0 if energy else None)
    return d, u, v
