"""P04: crystal structures are read exactly as written in POSCAR and OUTCAR files."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, files
from vlib.core import Sub
from checks.P02 import NUMBERS

PROPERTY = 'P04'
RULE = ('random crystals written by an independent writer: POSCAR with / without a symbols line, Direct / Cartesian in '
        'several spellings, scale factor, trailing velocity blocks and extra columns; OUTCAR skeletons with one or '
        'several species; non-trivial when the scale factor is not 1, coordinates are Cartesian, the old layout is '
        'used or several element runs are present')


def pos_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=4), 'style': st.sampled_from(['new', 'old']),
        'direct': st.booleans(), 'scale': st.sampled_from([1.0, 1.0, 0.529177, 2.0, 5.45, 10.0]),
        'kind': st.integers(0, 2), 'extra': st.booleans(), 'trailer': st.booleans(),
        'outside': st.booleans()})


def check_structure(ctx, s, c, els, tol, frac=None):
    ctx.close(s.get_cell(), c.cell, 'cell', rtol=0, atol=tol)
    f = c.scaled if frac is None else frac
    ctx.close(s.get_positions(), f.dot(c.cell), 'Cartesian positions', rtol=0, atol=tol * 10)
    ctx.close(s.get_scaled_positions(), f, 'fractional positions', rtol=0, atol=tol * 10)
    ctx.check([str(e) for e in s.get_atomic_elements()] == els, lambda: 'elements: %r' % (s.get_atomic_elements(),))
    ctx.check([int(x) for x in s.get_atomic_numbers()] == [NUMBERS[e] for e in els], 'atomic numbers')
    ctx.check(s.get_number_of_cell_atoms() == len(els), 'number of atoms')


def run_poscar(case, ctx):
    from dynaphopy.interface.iofile import read_from_file_structure_poscar
    c = gen.build_crystal(case['crystal'])
    frac = c.scaled.copy()
    if case['outside']:
        frac = frac + gen.rng(case['crystal']['sites']).randint(-1, 2, size=frac.shape)
    kind = [['Direct', 'direct', 'D'], ['Cartesian', 'cart', 'K']][0 if case['direct'] else 1][case['kind']]
    text = files.poscar(c.cell, c.elements, frac if case['direct'] else frac.dot(c.cell), direct=case['direct'],
                        scale=case['scale'], style=case['style'], kind=kind, extra=case['extra'],
                        trailer=case['trailer'])
    f = os.path.join(ctx.tempdir(), 'POSCAR')
    open(f, 'w').write(text)
    s = read_from_file_structure_poscar(f)
    check_structure(ctx, s, c, c.elements, 1e-9, frac)
    ctx.close(s.get_masses(), [gen.MASSES[e] for e in c.elements], 'masses', rtol=2e-4)
    ctx.event('%s %s' % (case['style'], 'direct' if case['direct'] else 'cartesian'))
    if case['scale'] != 1 and not case['direct']:
        ctx.event('scaled cartesian')
    ctx.nontrivial(case['scale'] != 1 or not case['direct'] or case['style'] == 'old' or len(set(c.elements)) > 1)


def out_strategy():
    return st.fixed_dictionaries({'crystal': gen.crystal_spec(max_atoms=4, lo=300, hi=700),
                                  'steps': st.integers(0, 3)})


def run_outcar(case, ctx):
    from dynaphopy.interface.iofile import read_from_file_structure_outcar
    c = gen.build_crystal(case['crystal'])
    # VASP groups atoms by species
    o = sorted(range(len(c.elements)), key=lambda i: c.elements[i])
    els = [c.elements[i] for i in o]
    c.scaled = c.scaled[o]
    masses = [gen.MASSES[e] for e in els]
    frames = [c.scaled.dot(c.cell) + 0.1 * (i + 1) for i in range(case['steps'])]
    text = files.outcar(c.cell, els, masses, c.scaled, c.scaled.dot(c.cell), frames, [-10.0 - i for i in range(9)])
    f = os.path.join(ctx.tempdir(), 'OUTCAR')
    open(f, 'w').write(text)
    s = read_from_file_structure_outcar(f)
    check_structure(ctx, s, c, els, 1e-7)
    ctx.close(s.get_masses(), masses, 'masses', rtol=0, atol=0.0051)
    ctx.event('%d species' % len(set(els)))
    ctx.nontrivial(len(set(els)) > 1)


SUBS = [Sub('poscar', pos_strategy, run_poscar, quick=900, thorough=20000, shards=3, tshards=6),
        Sub('outcar', out_strategy, run_outcar, quick=400, thorough=8000, shards=2, tshards=4)]
