"""P02: unit cell -> supercell expansion and the derived crystal description."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Sub

PROPERTY = 'P02'
RULE = ('random crystals (7 lattice kinds, 9 centrings, 1..4 distinct sites, shuffled atom order), supercells up to '
        '4x4x4 with unequal factors; non-trivial when the supercell factors differ and the cell is not orthogonal, '
        'or when several unit-cell atoms share one primitive atom')

GETTERS = ['positions', 'masses', 'elements', 'numbers', 'types', 'charges', 'cell', 'params', 'scaled', 'ntypes',
           'nprim', 'unit_positions', 'unit_scaled', 'unit_types', 'unique_elements', 'prim_cell']


def strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=4), 'dim': gen.dims(1, 4, 36),
        'mode': st.sampled_from(['scaled', 'cart', 'both']),
        'order': st.permutations(list(range(len(GETTERS)))).map(list),
        'charges': st.booleans(), 'container': st.sampled_from(['list', 'tuple', 'array'])})


def angle(a, b):
    return np.arccos(np.clip(np.dot(a, b) / np.linalg.norm(a) / np.linalg.norm(b), -1, 1))


def run(case, ctx):
    c = gen.build_crystal(case['crystal'])
    dim = case['dim']
    arg = {'list': list(dim), 'tuple': tuple(dim), 'array': np.array(dim)}[case['container']]
    n = len(c.elements)
    prod = int(np.prod(dim))
    pos, idx = gen.supercell_positions(c, dim)
    S = np.diag(dim).dot(c.cell)
    charges = [round(0.1 * (i + 1), 3) for i in range(n)] if case['charges'] else None
    s = gen.make_structure(c, case['mode'], charges=charges)

    def ref(name):
        for g in (case['order']):
            pass

    scale = np.abs(pos).max() + 1

    def check(name):
        if name == 'positions':
            ctx.close(s.get_positions(supercell=arg), pos, 'supercell positions', rtol=0, atol=1e-8 * scale)
        elif name == 'masses':
            ctx.close(s.get_masses(supercell=arg), [gen.MASSES[c.elements[i]] for i in idx], 'supercell masses',
                      rtol=1e-3)
        elif name == 'elements':
            ctx.check(list(s.get_atomic_elements(supercell=arg)) == [c.elements[i] for i in idx],
                      'supercell elements')
        elif name == 'numbers':
            got = [int(x) for x in s.get_atomic_numbers(supercell=arg)]
            ctx.check(got == [NUMBERS[c.elements[i]] for i in idx], 'supercell atomic numbers')
        elif name == 'types':
            ctx.check([int(x) for x in s.get_atom_type_index(supercell=arg)] == [int(c.ptype[i]) for i in idx],
                      lambda: 'supercell atom types: got %r expected %r' % (
                          [int(x) for x in s.get_atom_type_index(supercell=arg)], [int(c.ptype[i]) for i in idx]))
        elif name == 'unit_types':
            ctx.check([int(x) for x in s.get_atom_type_index()] == [int(x) for x in c.ptype],
                      lambda: 'atom types: got %r expected %r' % (s.get_atom_type_index(), c.ptype.tolist()))
        elif name == 'charges':
            got = s.get_charges(supercell=arg)
            ctx.check((got is None) if charges is None else list(got) == [charges[i] for i in idx],
                      'supercell charges')
        elif name == 'cell':
            ctx.close(s.get_cell(supercell=arg), S, 'supercell lattice vectors', atol=1e-8 * scale)
            ctx.close(s.get_cell(), c.cell, 'lattice vectors')
        elif name == 'params':
            for sc, m in ((arg, S), (None, c.cell)):
                want = [np.linalg.norm(m[0]), np.linalg.norm(m[1]), np.linalg.norm(m[2]), angle(m[1], m[2]),
                        angle(m[0], m[2]), angle(m[0], m[1])]
                ctx.close(list(s.get_cell_parameters(supercell=sc)), want, 'cell lengths and angles', rtol=1e-7,
                          atol=1e-7)
        elif name == 'scaled':
            ctx.close(s.get_scaled_positions(supercell=arg), pos.dot(np.linalg.inv(S)), 'supercell fractional',
                      rtol=0, atol=1e-8)
        elif name == 'ntypes':
            ctx.check(s.get_number_of_atom_types() == c.nprim, 'number of atom types')
        elif name == 'nprim':
            ctx.check(s.get_number_of_primitive_atoms() == c.nprim, 'number of primitive atoms')
        elif name == 'unit_positions':
            ctx.close(s.get_positions(), c.positions, 'positions', rtol=0, atol=1e-8 * scale)
        elif name == 'unit_scaled':
            ctx.close(s.get_scaled_positions(), c.scaled, 'fractional positions', rtol=0, atol=1e-8)
        elif name == 'unique_elements':
            want = [None] * c.nprim
            for e, t in zip(c.elements, c.ptype):
                want[t] = e
            ctx.check([str(x) for x in s.get_atomic_elements(unique=True)] == want, 'element of each primitive atom')
            ctx.check([str(x) for x in s.get_atomic_elements(supercell=arg, unique=True)] == want,
                      'element of each primitive atom (supercell)')
        elif name == 'prim_cell':
            ctx.close(s.get_primitive_cell(), c.prim, 'primitive cell', atol=1e-8 * scale)
            ctx.check(s.get_number_of_cell_atoms() == n and s.get_number_of_atoms() == n, 'number of atoms')

    for g in case['order']:
        check(GETTERS[g])
    # asking again, in any order, gives the same answers
    for g in case['order'][::-1][:6]:
        check(GETTERS[g])
    orth = np.abs(c.cell.dot(c.cell.T) - np.diag(np.diag(c.cell.dot(c.cell.T)))).max() < 1e-8
    ctx.nontrivial((len(set(dim)) > 1 and not orth) or n > c.nprim)
    ctx.event('cent ' + case['crystal']['cent'])
    if len(set(dim)) > 1 and not orth:
        ctx.event('unequal dims, oblique')


def late_strategy():
    return st.fixed_dictionaries({'crystal': gen.crystal_spec(max_atoms=3, min_atoms=1), 'dim': gen.dims(1, 3, 12),
                                  'early': st.booleans(), 'asked': st.booleans()})


def run_late(case, ctx):
    """The primitive matrix set after construction (what reading an input file does) counts."""
    c = gen.build_crystal(case['crystal'])
    s = gen.make_structure(c, primitive_matrix=None)
    if case['asked']:
        s.get_number_of_primitive_atoms()
        s.get_atom_type_index(supercell=case['dim'])
        s.get_primitive_cell()
    s.set_primitive_matrix(c.primitive_matrix)
    idx = gen.supercell_positions(c, case['dim'])[1]
    if case['early']:
        ctx.check(s.get_number_of_primitive_atoms() == c.nprim, 'number of primitive atoms')
    ctx.close(s.get_primitive_cell(), c.prim, 'primitive cell', atol=1e-8)
    ctx.check([int(x) for x in s.get_atom_type_index(supercell=case['dim'])] == [int(c.ptype[i]) for i in idx],
              'atom types after setting the primitive matrix')
    ctx.check(s.get_number_of_primitive_atoms() == c.nprim, 'number of primitive atoms')
    ctx.check(s.get_number_of_atom_types() == c.nprim, 'number of atom types')
    # positions and masses set later
    if case['asked']:
        s.get_scaled_positions()
    moved = c.positions + c.cell[0] / 7 + c.cell[2] / 3
    s.set_positions(moved.copy())
    ctx.close(s.get_scaled_positions(), moved.dot(np.linalg.inv(c.cell)), 'fractional coordinates of positions set later', atol=1e-8)
    ctx.close(s.get_positions(), moved, 'positions set later', atol=1e-8)
    masses = np.arange(1, len(moved) + 1) * 1.5
    s.set_masses(masses.copy())
    ctx.close(s.get_masses(supercell=case['dim']), masses[idx], 'masses set later', atol=1e-9)
    ctx.nontrivial(len(c.elements) > c.nprim)


def mass_strategy():
    return st.fixed_dictionaries({'els': st.lists(st.sampled_from(sorted(WEIGHTS)), min_size=1, max_size=6),
                                  'digits': st.integers(2, 5), 'dim': gen.dims(1, 3, 9)})


def run_mass(case, ctx):
    """A structure given by masses only (what an OUTCAR provides) gets the right elements."""
    from dynaphopy.atoms import Structure
    els = case['els']
    masses = np.array([round(WEIGHTS[e], case['digits']) for e in els])
    r = gen.rng(len(els))
    s = Structure(cell=np.eye(3) * 6, positions=r.uniform(0, 6, size=(len(els), 3)), masses=masses)
    ctx.check(list(s.get_atomic_elements()) == els, lambda: 'elements from masses: %r' % (s.get_atomic_elements(),))
    ctx.check([int(x) for x in s.get_atomic_numbers()] == [NUMBERS[e] for e in els], 'atomic numbers from masses')
    sup = s.get_masses(supercell=case['dim'])
    ctx.close(sup, np.repeat(masses, int(np.prod(case['dim']))), 'given masses are kept')
    ctx.nontrivial(len(set(els)) > 1)


def decorated_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P211', 'P112', 'P121', 'P212', 'C', 'A', 'I', 'F')),
        'first': st.one_of(st.integers(0, 83), st.sampled_from(CLOSE)), 'step': st.sampled_from([1, 1, 1, 0, 2]), 'swap': gen.seeds(), 'dim': gen.dims(1, 3, 12)})


def run_decorated(case, ctx):
    """different species on sites related by a primitive vector are different atom types, however close their masses"""
    c = gen.build_crystal(case['crystal'])
    names = sorted(WEIGHTS, key=WEIGHTS.get)
    a = names[case['first'] % len(names)]
    b = names[(case['first'] + case['step']) % len(names)]
    r = gen.rng(case['swap'])
    els = [[a, b][k] for k in r.randint(2, size=len(c.elements))]
    s = gen.make_structure(c, atomic_elements=els)
    seen = {}
    want = [seen.setdefault((int(t), e), len(seen)) for t, e in zip(c.ptype, els)]
    ctx.nontrivial(len(seen) > c.nprim)
    ctx.check([int(x) for x in s.get_atom_type_index()] == want, lambda: 'atom types %s of %s, expected %s' % (
        s.get_atom_type_index(), els, want))
    idx = gen.supercell_positions(c, case['dim'])[1]
    ctx.check([int(x) for x in s.get_atom_type_index(supercell=case['dim'])] == [want[i] for i in idx],
              'atom types of the supercell')
    ctx.check(s.get_number_of_atom_types() == len(seen), 'number of atom types')
    first = {}
    for e, t in zip(els, want):
        first.setdefault(t, e)
    ctx.check([str(x) for x in s.get_atomic_elements(unique=True)] == [first[t] for t in sorted(first)], 'element of each type')
    ctx.close(s.get_masses(supercell=case['dim']), [WEIGHTS[els[i]] for i in idx], 'masses', rtol=2e-4)


def elem_strategy():
    return st.fixed_dictionaries({'els': st.lists(st.sampled_from(sorted(WEIGHTS)), min_size=1, max_size=8)})


def run_elem(case, ctx):
    from dynaphopy.atoms import Structure
    els = case['els']
    r = gen.rng(len(els))
    s = Structure(cell=np.eye(3) * 6, scaled_positions=r.uniform(0, 1, size=(len(els), 3)), atomic_elements=els)
    ctx.close(s.get_masses(), [WEIGHTS[e] for e in els], 'standard atomic weight', rtol=2e-4)
    ctx.check([int(x) for x in s.get_atomic_numbers()] == [NUMBERS[e] for e in els], 'atomic number')
    ctx.check(list(s.get_atomic_elements()) == els, 'elements')
    ctx.nontrivial(len(set(els)) > 1)


_SYM = ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y '
        'Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re '
        'Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U').split()
NUMBERS = {e: i + 1 for i, e in enumerate(_SYM)}
# standard atomic weights (IUPAC), elements with a stable isotope plus Th, Pa, U
WEIGHTS = dict(zip(
    [e for e in _SYM if e not in ('Tc', 'Pm', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac')],
    [1.00794, 4.002602, 6.941, 9.012182, 10.811, 12.0107, 14.0067, 15.9994, 18.9984032, 20.1797, 22.98976928, 24.3050,
     26.9815386, 28.0855, 30.973762, 32.065, 35.453, 39.948, 39.0983, 40.078, 44.955912, 47.867, 50.9415, 51.9961,
     54.938045, 55.845, 58.933195, 58.6934, 63.546, 65.38, 69.723, 72.64, 74.92160, 78.96, 79.904, 83.798, 85.4678,
     87.62, 88.90585, 91.224, 92.90638, 95.96, 101.07, 102.90550, 106.42, 107.8682, 112.411, 114.818, 118.710, 121.760,
     127.60, 126.90447, 131.293, 132.9054519, 137.327, 138.90547, 140.116, 140.90765, 144.242, 150.36, 151.964, 157.25,
     158.92535, 162.500, 164.93032, 167.259, 168.93421, 173.054, 174.9668, 178.49, 180.94788, 183.84, 186.207, 190.23,
     192.217, 195.084, 196.966569, 200.59, 204.3833, 207.2, 208.98040, 232.03806, 231.03588, 238.02891]))
assert len(WEIGHTS) == 84
_W = sorted(WEIGHTS.values())
# elements followed by another of nearly the same mass
CLOSE = [i for i in range(83) if _W[i + 1] - _W[i] < 0.7]


SUBS = [Sub('expand', strategy, run, quick=900, thorough=20000, shards=4, tshards=8),
        Sub('late_primitive', late_strategy, run_late, quick=500, thorough=10000, shards=2),
        Sub('decorated', decorated_strategy, run_decorated, quick=300, thorough=8000),
        Sub('masses', mass_strategy, run_mass, quick=250, thorough=5000),
        Sub('elements', elem_strategy, run_elem, quick=250, thorough=5000)]
