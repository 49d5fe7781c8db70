"""P24: the input file of the command line."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Sub

PROPERTY = 'P24'
RULE = ('random input files: any subset and order of the sections, blank and comment lines (also disabled sections) between '
        'them, several number formats, trailing blanks, Windows or missing last line ends, bands with or without labels and '
        'commas; the result is compared with the generated values; non-trivial when four or more sections are present')

SECTIONS = ['OUTCAR', 'POSCAR', 'FORCE SETS', 'FORCE CONSTANTS', 'PRIMITIVE', 'SUPERCELL', 'BANDS', 'MESH']
NAMES = ['POSCAR', 'POSCAR_unitcell', './data/FORCE_CONSTANTS', '/home/user/run 1/OUTCAR', 'file.dat', '../x/FORCE_SETS-2',
         '#tmp#']


def strategy():
    return st.fixed_dictionaries({
        'sections': st.lists(st.sampled_from(SECTIONS), unique=True, max_size=8), 'seed': gen.seeds(),
        'comments': st.booleans(), 'blank': st.integers(0, 2), 'eol': st.sampled_from(['\n', '\n', '\r\n']),
        'end': st.booleans(), 'labels': st.booleans(), 'commas': st.integers(0, 2), 'nbands': st.integers(1, 6),
        'disabled': st.booleans(), 'spaces': st.booleans(), 'remark': st.sampled_from([False, False, True])})


LABELS = ['GAMMA', 'X', 'L', 'K', 'U', 'W', '$\\Gamma$', 'M_1', 'A']


def number(r, x):
    return ['%.6f' % x, '%.10g' % x, '%.6e' % x, ' %8.5f' % x, '%.12f' % x, '%+.4f' % x][r.randint(6)]


def write(case):
    """Returns (text, expected dictionary)."""
    r = gen.rng(case['seed'])
    L, want = [], {'structure_file_name_poscar': 'POSCAR'}
    sp = lambda: ' ' * r.randint(0, 4) if case['spaces'] else ''

    def gap(first=False):
        for _ in range(case['blank'] if not first else 0):
            L.append('')
        if case['comments'] and r.randint(2):
            L.append(['# comment', '#note: bands from the paper, figure 1', '#', '# MESH PHONOPY', '#a, b: c, d'][r.randint(5)])
            if case['disabled'] and r.randint(2):
                L.append('#' + ['PRIMITIVE MATRIX', 'BANDS', 'FORCE SETS', 'STRUCTURE FILE POSCAR'][r.randint(4)])
                L.append('#9.0 9.0 9.0')
    def remark():
        return ['', ' # relaxed', '  #old values', ' # from the paper: 1, 2'][r.randint(4)] if case['remark'] else ''
    gap(True)
    for s in case['sections']:
        if s in ('OUTCAR', 'POSCAR'):
            name = NAMES[r.randint(len(NAMES))]
            L += ['STRUCTURE FILE %s' % s + sp() + remark(), sp() + name + sp()]
            want['structure_file_name_' + s.lower()] = name
        elif s in ('FORCE SETS', 'FORCE CONSTANTS'):
            name = NAMES[r.randint(len(NAMES))]
            L += [s + sp() + remark(), name + sp()]
            want[s.lower().replace(' ', '_') + '_file_name'] = name
        elif s in ('PRIMITIVE', 'SUPERCELL'):
            if s == 'PRIMITIVE':
                m = np.round(r.uniform(-1, 1, size=(3, 3)), 4)
                f = lambda x: number(r, x)
                want['_primitive_matrix'] = m
            else:
                m = r.randint(-3, 5, size=(3, 3))
                f = lambda x: '%d' % x
                want['supercell_phonon'] = m
            L.append(s + ' MATRIX' + sp() + remark())
            for row in m:
                L.append(sp() + ' '.join(f(x) for x in row) + sp())
        elif s == 'MESH':
            m = r.randint(1, 60, size=3)
            L += ['MESH PHONOPY' + remark(), sp() + ' '.join('%d' % x for x in m) + sp()]
            want['_mesh_phonopy'] = m
        else:
            L.append('BANDS' + remark())
            bands, labels = [], []
            for i in range(case['nbands']):
                b = np.round(r.uniform(-1, 1, size=(2, 3)), 3)
                v = [number(r, x) for x in b.ravel()]
                sep = [' ', ', ', ','][case['commas']]
                line = sep.join(v[:3]) + (', ' if case['commas'] == 2 else '   ') + sep.join(v[3:])
                bands.append(b)
                if case['labels']:
                    l = (LABELS[r.randint(len(LABELS))], LABELS[r.randint(len(LABELS))])
                    labels.append(l)
                    line += sp() + ':' + sp() + l[0] + sp() + ',' + sp() + l[1]
                L.append(line + sp())
            want['_band_ranges'] = {'ranges': bands}
            if case['labels']:
                want['_band_ranges']['labels'] = labels
        gap()
    text = case['eol'].join(L) + (case['eol'] if case['end'] else '')
    return text, want


def run(case, ctx):
    from dynaphopy.interface.iofile import read_parameters_from_input_file
    from dynaphopy.dynamics import Dynamics
    import dynaphopy
    text, want = write(case)
    path = os.path.join(ctx.tempdir(), 'input')
    with open(path, 'w', newline='') as f:
        f.write(text)
    got = read_parameters_from_input_file(path)
    ctx.check(sorted(got) == sorted(want), lambda: 'sections read %s, expected %s' % (sorted(got), sorted(want)))
    for k in want:
        if isinstance(want[k], str):
            ctx.check(got[k] == want[k], '%s: %r, expected %r' % (k, got[k], want[k]))
        elif k == '_band_ranges':
            ctx.close(np.array(got[k]['ranges'], dtype=float), np.array(want[k]['ranges']), 'band ranges', rtol=1e-12, atol=1e-14)
            ctx.check(('labels' in got[k]) == ('labels' in want[k]), 'band labels are lost or invented')
            if 'labels' in want[k]:
                ctx.check([tuple(x) for x in got[k]['labels']] == want[k]['labels'], lambda: 'band labels %s, expected %s' % (
                    got[k]['labels'], want[k]['labels']))
        else:
            ctx.close(np.array(got[k], dtype=float), np.array(want[k], dtype=float), k, rtol=1e-12, atol=1e-14)
    # the values reach the structure and the settings
    s = gen.make_structure(gen.build_crystal({'cell': {'kind': 'cubic', 'a': 400, 'b': 400, 'c': 400, 'al': 90, 'be': 90,
                                                       'ga': 90, 'rot': 0}, 'cent': 'P', 'elements': ['Si'], 'sites': 3,
                                              'order': 0}))
    before = np.array(s.get_primitive_matrix())
    s.get_data_from_dict(got)
    ctx.close(s.get_primitive_matrix(), want.get('_primitive_matrix', before), 'primitive matrix of the structure', rtol=1e-12,
              atol=1e-14)
    x = np.zeros((4, 1, 3), dtype=complex)
    qp = dynaphopy.Quasiparticle(Dynamics(structure=s, trajectory=x, velocity=x, time=np.arange(4) * .1, supercell=s.get_cell()))
    mesh = list(qp.parameters.mesh_phonopy)
    qp.parameters.get_data_from_dict(got)
    ctx.check(list(qp.parameters.mesh_phonopy) == list(want.get('_mesh_phonopy', mesh)), 'mesh of the settings')
    if '_band_ranges' in want:
        ctx.close(np.array(qp.get_band_ranges_and_labels()['ranges'], dtype=float), np.array(want['_band_ranges']['ranges']),
                  'band ranges of the settings', rtol=1e-12, atol=1e-14)
        ctx.event('bands with labels' if case['labels'] else 'bands')
    ctx.nontrivial(len(case['sections']) >= 4)


SUBS = [Sub('input', strategy, run, quick=1500, thorough=30000, shards=4, tshards=8)]
