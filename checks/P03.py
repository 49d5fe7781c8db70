"""P03: exported crystal structure files describe the same crystal."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Sub
from checks.P02 import NUMBERS

PROPERTY = 'P03'
RULE = ('random crystals (oblique, rotated, centred, elements in any order including repeated non-contiguous runs), '
        'supercells with unequal factors, with and without charges; the written text is parsed by an independent '
        'reader; non-trivial when an element appears in non-contiguous positions, or the cell is oblique with unequal '
        'supercell factors')


def strategy():
    return st.fixed_dictionaries({'crystal': gen.crystal_spec(max_atoms=4, elements=['Ga', 'N', 'O', 'Si', 'Au', 'H']),
                                  'dim': gen.dims(1, 3, 18), 'scaled': st.booleans(), 'charges': st.booleans(),
                                  'mode': st.sampled_from(['scaled', 'cart']),
                                  'isotopes': st.sampled_from([0, 0, 0, 1, 2, 3])})


def setup(case):
    c = gen.build_crystal(case['crystal'])
    n = len(c.elements)
    charges = [round(-1.5 + 0.25 * i, 3) for i in range(n)] if case['charges'] else None
    s = gen.make_structure(c, case['mode'], charges=charges)
    pos, idx = gen.supercell_positions(c, case['dim'])
    S = np.diag(case['dim']).dot(c.cell)
    return c, s, charges, pos, idx, S


def interesting(ctx, c, dim, els):
    runs = 1 + sum(1 for a, b in zip(els, els[1:]) if a != b)
    orth = np.abs(c.cell.dot(c.cell.T) - np.diag(np.diag(c.cell.dot(c.cell.T)))).max() < 1e-8
    if runs > len(set(els)):
        ctx.event('non-contiguous elements')
    if not orth and len(set(dim)) > 1:
        ctx.event('oblique unequal')
    ctx.nontrivial(runs > len(set(els)) or (not orth and len(set(dim)) > 1))


def parse_poscar(text):
    L = text.split('\n')
    cell = float(L[1]) * np.array([[float(x) for x in l.split()] for l in L[2:5]])
    syms, counts = L[5].split(), [int(x) for x in L[6].split()]
    assert len(syms) == len(counts)
    els = [s for s, k in zip(syms, counts) for _ in range(k)]
    kind = L[7].strip()[0].lower()
    rows = np.array([[float(x) for x in l.split()[:3]] for l in L[8:8 + len(els)]])
    rest = [l for l in L[8 + len(els):] if l.strip()]
    return cell, els, (rows.dot(cell) if kind == 'd' else rows), rest


def same_atoms(ctx, S, pos, els, gpos, gels, what, tol):
    """Multiset equality of (element, position modulo nothing)."""
    ctx.check(len(gpos) == len(pos), lambda: '%s: %d atoms, expected %d' % (what, len(gpos), len(pos)))
    d = np.abs(gpos[:, None, :] - pos[None, :, :]).max(axis=2)
    j = d.argmin(axis=1)
    ctx.check(d[np.arange(len(j)), j].max() < tol, lambda: '%s: an atom is displaced by %g' % (
        what, d[np.arange(len(j)), j].max()))
    ctx.check(sorted(j) == list(range(len(pos))), what + ': an atom is missing or repeated')
    for a, b in enumerate(j):
        ctx.check(str(gels[a]) == str(els[b]), lambda: '%s: element %s at a %s site' % (what, gels[a], els[b]))
    return j


def run_poscar(case, ctx):
    from dynaphopy.generate_cell import generate_VASP_structure
    from dynaphopy.interface.iofile import read_from_file_structure_poscar
    c, s, charges, pos, idx, S = setup(case)
    els = [c.elements[i] for i in idx]
    text = generate_VASP_structure(s, scaled=case['scaled'], supercell=tuple(case['dim']))
    try:
        cell, gels, gpos, rest = parse_poscar(text)
    except Exception as e:
        ctx.fail('the POSCAR text cannot be parsed: %r' % (e,))
    ctx.close(cell, S, 'POSCAR cell', atol=1e-8, rtol=0)
    ctx.check(not rest, 'trailing lines')
    same_atoms(ctx, S, pos, els, gpos, gels, 'POSCAR', 1e-6)
    f = os.path.join(ctx.tempdir(), 'POSCAR')
    open(f, 'w').write(text)
    b = read_from_file_structure_poscar(f)
    ctx.close(b.get_cell(), S, 'cell read back', atol=1e-8, rtol=0)
    same_atoms(ctx, S, pos, els, b.get_positions(), b.get_atomic_elements(), 'read back', 1e-6)
    interesting(ctx, c, case['dim'], c.elements)


def parse_lammps(text):
    L = [l for l in text.split('\n')]
    out = {'tilt': [0., 0., 0.]}
    i = 1
    masses, atoms = {}, []
    section = None
    for l in L[1:]:
        t = l.split()
        if not t:
            continue
        if t[0] in ('Masses', 'Atoms'):
            section = t[0]
        elif section == 'Masses':
            masses[int(t[0])] = float(t[1])
        elif section == 'Atoms':
            atoms.append([float(x) for x in t])
        elif l.rstrip().endswith('atom types'):
            out['ntypes'] = int(t[0])
        elif l.rstrip().endswith('atoms'):
            out['natoms'] = int(t[0])
        elif t[-2:] == ['xlo', 'xhi']:
            out['x'] = [float(t[0]), float(t[1])]
        elif t[-2:] == ['ylo', 'yhi']:
            out['y'] = [float(t[0]), float(t[1])]
        elif t[-2:] == ['zlo', 'zhi']:
            out['z'] = [float(t[0]), float(t[1])]
        elif t[-3:] == ['xy', 'xz', 'yz']:
            out['tilt'] = [float(x) for x in t[:3]]
    out['masses'] = masses
    out['atoms'] = np.array(atoms)
    return out


def run_lammps(case, ctx):
    from dynaphopy.generate_cell import generate_LAMMPS_structure
    c, s, charges, pos, idx, S = setup(case)
    els = [c.elements[i] for i in idx]
    masses = [gen.MASSES[e] for e in c.elements]
    if case.get('isotopes'):
        # atoms of one element with masses of their own
        masses = [round(m * (1 + 0.25 * ((i * case['isotopes']) % 3)), 4) for i, m in enumerate(masses)]
        s = gen.make_structure(c, case['mode'], charges=charges, masses=masses)
        ctx.event('isotopes')
    species = [(c.elements[i], masses[i]) for i in idx]
    text = generate_LAMMPS_structure(s, supercell=tuple(case['dim']))
    d = parse_lammps(text)
    n = len(pos)
    ctx.check(d['natoms'] == n and len(d['atoms']) == n, 'number of atoms')
    xy, xz, yz = d['tilt']
    box = np.array([[d['x'][1] - d['x'][0], 0, 0], [xy, d['y'][1] - d['y'][0], 0], [xz, yz, d['z'][1] - d['z'][0]]])
    # same crystal up to a rotation: the metric tensors agree
    ctx.close(box.dot(box.T), S.dot(S.T), 'LAMMPS box (metric tensor)', rtol=1e-6, atol=1e-5)
    ctx.check(np.linalg.det(box) > 0, 'box orientation')
    a = d['atoms']
    ctx.check([int(x) for x in a[:, 0]] == list(range(1, n + 1)), 'atom ids')
    q = 1 if charges is not None else 0
    ctx.check(a.shape[1] == 5 + q, 'columns of the atom lines')
    frac = (a[:, 2 + q:] - [d['x'][0], d['y'][0], d['z'][0]]).dot(np.linalg.inv(box))
    want = pos.dot(np.linalg.inv(S))
    ctx.close(frac, want, 'fractional coordinates in the LAMMPS box (atom order kept)', rtol=0, atol=1e-6)
    ctx.check(d['ntypes'] == len(set(species)) == len(d['masses']), lambda: 'number of atom types: %d declared, %d '
              'masses, %d species' % (d['ntypes'], len(d['masses']), len(set(species))))
    for k in range(n):
        t = int(a[k, 1])
        ctx.check(t in d['masses'] and abs(d['masses'][t] - masses[idx[k]]) < 2e-3 * masses[idx[k]],
                  lambda: 'atom %d (%s) has type %d of mass %r' % (k, els[k], t, d['masses'].get(t)))
        if q:
            ctx.check(abs(a[k, 2] - charges[idx[k]]) < 1e-9, 'charge of atom %d' % k)
    interesting(ctx, c, case['dim'], c.elements)


def run_xsf(case, ctx):
    from dynaphopy.interface.iofile import write_xsf_file
    c, s, charges, pos, idx, S = setup(case)
    f = os.path.join(ctx.tempdir(), 'a.xsf')
    write_xsf_file(f, s)
    L = [l.strip() for l in open(f).read().strip().split('\n')]

    def block(key, n):
        i = L.index(key)
        return [[float(x) for x in l.split()] for l in L[i + 1:i + 1 + n]]
    ctx.check(L[0] == 'CRYSTAL', 'keyword')
    ctx.close(np.array(block('PRIMVEC', 3)), c.prim, 'PRIMVEC', rtol=0, atol=1e-4)
    ctx.close(np.array(block('CONVVEC', 3)), c.cell, 'CONVVEC', rtol=0, atol=1e-4)
    head = block('PRIMCOORD', 1)[0]
    ctx.check(head == [c.nprim, 1], 'PRIMCOORD header')
    rows = np.array(block('PRIMCOORD', 1 + c.nprim)[1:])
    ctx.check(len(L) == L.index('PRIMCOORD') + 2 + c.nprim, 'number of lines')
    seen = []
    for r in rows:
        d = np.abs(c.positions - r[1:]).max(axis=1)
        k = int(d.argmin())
        ctx.check(d[k] < 1e-4, 'atom not in the crystal')
        ctx.check(NUMBERS[c.elements[k]] == int(r[0]), 'atomic number')
        seen.append(int(c.ptype[k]))
    ctx.check(sorted(seen) == list(range(c.nprim)), 'one atom per primitive site')
    ctx.nontrivial(len(c.elements) > c.nprim or c.nprim > 1)


SUBS = [Sub('poscar', strategy, run_poscar, quick=600, thorough=12000, shards=3, tshards=6),
        Sub('lammps', strategy, run_lammps, quick=600, thorough=12000, shards=3, tshards=6),
        Sub('xsf', strategy, run_xsf, quick=300, thorough=6000, shards=2)]
