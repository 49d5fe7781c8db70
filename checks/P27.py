"""P27: the companion scripts."""
import os

import numpy as np
import yaml
from hypothesis import strategies as st

from vlib import calc, files, gen
from vlib.core import Sub, quiet, reset_globals

PROPERTY = 'P27'
RULE = ('random crystals and force constants; frequencies of random functions of the harmonic ones are written in any order and rfc_calc '
        'is run: phonopy run on its force constants has to give the dynamical matrices made of these frequencies and the harmonic '
        'eigenvectors; random spectra files for fitdata; thermal data made of a known equation of state for qha_extract; '
        'non-trivial when the file is not in the order expected or has more columns than one')


def sort_elements(c):
    o = sorted(range(len(c.elements)), key=lambda i: c.elements[i])
    c.elements = [c.elements[i] for i in o]
    c.scaled, c.ptype = c.scaled[o], np.array(c.ptype)[o]
    c.positions = c.scaled.dot(c.cell)
    seen = []
    for t in c.ptype:
        if t not in seen:
            seen.append(t)
    c.ptype = np.array([seen.index(t) for t in c.ptype])


def phonopy(c, dim, fc, symprec=1e-5):
    from phonopy import Phonopy
    from phonopy.structure.atoms import PhonopyAtoms
    bulk = PhonopyAtoms(symbols=list(c.elements), scaled_positions=c.scaled, cell=c.cell)
    p = Phonopy(bulk, np.diag(dim), primitive_matrix=c.primitive_matrix, symprec=symprec)
    p.force_constants = fc
    return p


def dynamical_matrix(p, q):
    return p.get_dynamical_matrix_at_q(q)


def write_input(c, dim, fc, extra=''):
    from phonopy.file_IO import write_FORCE_CONSTANTS
    with open('POSCAR', 'w') as f:
        f.write(files.poscar(c.cell, c.elements, c.scaled, fmt='%22.15f'))
    write_FORCE_CONSTANTS(fc, filename='FC')
    with open('input', 'w') as f:
        f.write('STRUCTURE FILE POSCAR\nPOSCAR\n\nFORCE CONSTANTS\nFC\n\n')
        f.write('PRIMITIVE MATRIX\n' + '\n'.join(' '.join('%.15f' % x for x in r) for r in c.primitive_matrix) + '\n\n')
        f.write('SUPERCELL MATRIX\n' + '\n'.join(' '.join('%d' % x for x in r) for r in np.diag(dim)) + '\n\n' + extra)


def rfc_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I', 'F')), 'dim': st.one_of(gen.dims(1, 3, 6), st.sampled_from([[1, 1, 1], [2, 2, 2]])), 'seed': gen.seeds(),
        'other': st.one_of(st.none(), gen.dims(1, 3, 6)), 'fcsymm': st.booleans(), 'order': st.sampled_from(['same', 'reversed', 'mixed']),
        'more': st.integers(0, 3), 'dict': st.booleans(), 'up': st.integers(-30, 40), 'curve': st.integers(-20, 20)})


def rfc(case, ctx):
    from phonopy.file_IO import parse_FORCE_CONSTANTS
    c = gen.build_crystal(case['crystal'])
    sort_elements(c)
    dim = case['dim']
    fc = gen.spring_force_constants(c, dim, case['seed'] % 97)
    if np.abs(fc).max() < 1e-3:
        ctx.event('no force')
        return
    new = dim if case['other'] is None else case['other']
    # harmonic force constants of a supercell of lower symmetry are not those of the crystal
    fcsymm = case['fcsymm'] and len(set(dim)) == 1 and len(set(new)) == 1
    qs = calc.commensurate_reference(c, new)
    d = ctx.tempdir()
    os.chdir(d)
    write_input(c, dim, fc)
    harmonic = phonopy(c, dim, fc)
    fmax = max(harmonic.get_frequencies(q).max() for q in qs)
    argv = ['input', '-cp'] + (['--dim'] + new if case['other'] else [])
    code, text = calc.run_script('rfc_calc', argv, d)
    ctx.check(code == 0, lambda: 'rfc_calc %s ended with code %s: %s' % (argv, code, text[-500:]))
    listed = np.array([[float(x) for x in l.strip(' []').split()] for l in text.splitlines() if l.strip().startswith('[')])
    ctx.check(len(listed) == len(qs), '%d commensurate points listed, there are %d' % (len(listed), len(qs)))
    for q in qs:
        e = listed - q
        ctx.check((np.abs(e - np.round(e)).max(axis=1) < 1e-6).sum() == 1, lambda: '%s is not listed once: %s' % (q, listed))

    def changed(f):
        x = np.abs(f) / max(fmax, 1e-9)
        return np.abs(f) * (1 + case['up'] / 100. + case['curve'] / 100. * x)
    # reduced vectors as the program gives them, with the digits of its files
    entries, expected = [], []
    for q in listed:
        exact = qs[np.argmin([np.abs(q - x - np.round(q - x)).max() for x in qs])]
        shift = np.round(q - exact)
        exact = exact + shift
        f, v = harmonic.get_frequencies_with_eigenvectors(exact)
        if (f < -1e-2).any():
            ctx.event('unstable')
            return
        entries.append((exact, changed(f)))
        unit = 15.633302                                   # THz for sqrt(eV / A^2 / amu)
        expected.append((v * (changed(f) / unit) ** 2).dot(v.conj().T))
    every = list(range(len(entries)))
    if case['order'] == 'reversed':
        every = every[::-1]
    elif case['order'] == 'mixed':
        gen.rng(case['seed']).shuffle(every)
    data = [{'reduced_wave_vector': [float('%.8f' % x) for x in entries[i][0]], 'frequencies': [float('%.10f' % x) for x in entries[i][1]],
             'linewidths': [0.1] * len(entries[i][1])} for i in every]
    r = gen.rng(case['seed'] + 1)
    for k in range(case['more']):                           # other wave vectors are left aside
        data.insert(int(r.randint(0, len(data) + 1)), {'reduced_wave_vector': [float(x) for x in np.round(r.uniform(.01, .13, 3), 8)],
                                                        'frequencies': [float(x) for x in r.uniform(1, 9, 3 * c.nprim)]})
    if case['dict']:
        data = {'q%03d' % i: x for i, x in enumerate(data)}
    with open('frequencies.yaml', 'w') as f:
        yaml.safe_dump(data, f, sort_keys=False)
    argv = ['input', 'frequencies.yaml', '-s', 'FCOUT'] + (['--dim'] + new if case['other'] else []) + (['--fcsymm'] if fcsymm else [])
    code, text = calc.run_script('rfc_calc', argv, d)
    ctx.check(code == 0, lambda: 'rfc_calc %s ended with code %s: %s' % (argv, code, text[-500:]))
    got = phonopy(c, new, parse_FORCE_CONSTANTS('FCOUT'))
    ctx.nontrivial(case['order'] != 'same' or case['more'] > 0 or case['other'] is not None)
    ctx.event(case['order'])
    for (q, f), m in zip(entries, expected):
        ctx.close(dynamical_matrix(got, q), m, 'dynamical matrix at %s' % q, rtol=1e-5, atol=3e-6 * max(1, np.abs(m).max()))


def fit_strategy():
    return st.fixed_dictionaries({
        'columns': st.integers(1, 5), 'seed': gen.seeds(), 'groups': st.one_of(st.none(), st.lists(st.lists(st.integers(0, 9), min_size=1, max_size=3),
                                                                                                 min_size=1, max_size=4)),
        'smooth': st.sampled_from([None, None, 0.02, 0.1]), 'fit': st.sampled_from([0, 0, 1, 2]), 'points': st.integers(150, 400),
        'separate': st.booleans(), 'noise': st.sampled_from([0, 0.01, 0.05])})


def loess(x, y, f):
    """Local linear fit with tricube weights over the nearest part f of the points."""
    r = int(np.ceil(f * len(x)))
    out = []
    for i in range(len(x)):
        dist = np.abs(x - x[i])
        h = np.sort(dist)[r]
        w = (1 - np.clip(dist / h, 0, 1) ** 3) ** 3
        m = np.vander(x, 2, increasing=True)
        a = (m.T * w).dot(m)
        out.append(np.linalg.solve(a, (m.T * w).dot(y)).dot([1, x[i]]))
    return np.array(out)


def fit(case, ctx):
    from dynaphopy.analysis import fitting
    r = gen.rng(case['seed'])
    x = np.round(np.linspace(0, 20, case['points']), 4)
    y = []
    for i in range(case['columns']):
        a, b, area = r.uniform(4, 16), r.uniform(0.3, 0.8), r.uniform(0.01, 0.5)
        y.append(area / np.pi * b / (b * b + (x - a) ** 2) * (1 + case['noise'] * r.normal(size=len(x))))
    y = np.array([['%.10e' % v for v in row] for row in np.array(y)]).astype(float)
    d = ctx.tempdir()
    os.chdir(d)
    with open('spectra', 'w') as f:
        for k in range(len(x)):
            f.write('%10.4f\t' % x[k] + ''.join('%.10e\t' % v for v in y[:, k]) + '\n')
    argv = ['spectra', '--silent', '--fitting_function', case['fit']] + (['-s', 'out'] if case['seed'] % 4 else [])
    groups = [[i] for i in range(case['columns'])]
    if case['groups'] is not None:
        groups = [[j % case['columns'] for j in g] for g in case['groups']]
        text = ', '.join(' '.join(str(j + 1) for j in g) for g in groups)
        argv += ['-bi'] + (text.split() if case['separate'] else [text])
    data = np.array([y[g].mean(axis=0) for g in groups])
    if case['smooth']:
        argv += ['-sm', '-f', case['smooth']]
        data = np.array([loess(x, row, case['smooth']) for row in data])
    reset_globals()
    with quiet() as out:
        want = fitting.phonon_fitting_analysis(data.T, x, show_plots=False, fitting_function_type=case['fit'], use_degeneracy=None)
    code, text = calc.run_script('fitdata', argv, d)
    ctx.check(code == 0, lambda: 'fitdata %s ended with code %s: %s' % (argv, code, text[-500:]))
    ctx.check(sorted(os.listdir('.')) == (['out', 'spectra'] if case['seed'] % 4 else ['spectra']), lambda: 'files: %s' % os.listdir('.'))
    if case['seed'] % 4:
        got = np.loadtxt('out', ndmin=2)
        ctx.close(got[:, 0], x, 'frequencies', atol=1e-4)
        ctx.close(got[:, 1:], data.T, 'saved spectra', rtol=1e-6, atol=1e-9 * np.abs(data).max() + (1e-6 * np.abs(data).max() if case['smooth'] else 0))
    lines = {k: [float(l.split()[1]) for l in text.splitlines() if l.startswith(k)] for k in ('Width', 'Position')}
    ctx.close(lines['Width'], np.round([w for w in want['widths'] if w], 6), 'widths', rtol=1e-3, atol=2e-5)
    ctx.close(lines['Position'], np.round([p for p in want['positions']], 6), 'positions', rtol=1e-4, atol=2e-5) \
        if len(lines['Position']) == len(want['positions']) else None
    ctx.nontrivial(case['columns'] > 1 and case['groups'] is not None)


def qha_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=1), 'seed': gen.seeds(), 'points': st.integers(5, 9), 'permute': st.booleans(), 'sort': st.booleans(),
        'T': st.integers(0, 700), 'grow': st.integers(5, 40), 'glob': st.booleans(), 'name': st.booleans(), 'bend': st.sampled_from([0, 30, -20]),
        'tstep': st.sampled_from([50, 200])})


def vinet(v, e0, b0, b1, v0):
    x = (v / v0) ** (1. / 3)
    xi = 3. / 2 * (b1 - 1)
    return e0 + 9 * b0 * v0 / xi ** 2 * (1 + (xi * (1 - x) - 1) * np.exp(xi * (1 - x)))


def qha(case, ctx):
    from phonopy.file_IO import parse_FORCE_CONSTANTS, write_FORCE_CONSTANTS
    c = gen.build_crystal(case['crystal'])
    sort_elements(c)
    dim = [1, 1, 1]
    r = gen.rng(case['seed'])
    n = case['points']
    V0 = 40.
    vols = np.linspace(36, 46, n) + r.uniform(-.3, .3, n)
    vols = np.round(vols, 6)
    order = np.arange(n)
    if case['permute']:
        r.shuffle(order)
    temps = np.arange(0, 801, case['tstep'])
    grow, bend = case['grow'] / 1000. / 800, case['bend'] / 1000. / 800 ** 2

    def v_of_t(t):
        return V0 * (1 + grow * t + bend * t * t)
    e = vinet(vols, -10., 0.5, 4.5, V0)
    base = r.normal(size=(3, len(c.elements), len(c.elements), 3, 3))

    def fc(v):
        return base[0] + base[1] * (v - V0) + 0.05 * base[2] * (v - V0) ** 2
    d = ctx.tempdir()
    os.chdir(d)
    write_input(c, dim, fc(V0))
    free = {}
    names = []
    for k, i in enumerate(order):
        names.append('%02d' % k)
        with open('thermal-%02d.yaml' % k, 'w') as f:
            rows = []
            for t in temps:
                F = (vinet(vols[i], -10. - 1e-4 * t, 0.5, 4.5, v_of_t(t)) - e[i]) * 96.4853910
                rows.append({'temperature': float(t), 'free_energy': float(F), 'entropy': float(t) / 10, 'heat_capacity': 20. + float(t) / 100,
                             'energy': 0.})
            yaml.safe_dump({'thermal_properties': rows}, f)
        write_FORCE_CONSTANTS(fc(vols[i]), filename='FC-%02d' % k)
    np.savetxt('ev', np.array([vols[order], e[order]]).T, fmt='%.10f')
    t = case['T'] % (801 - case['tstep'])
    argv = ['input', '-ev', 'ev', '-t', t]
    argv += ['-fc'] + (['FC-*'] if case['glob'] else ['FC-' + k for k in names])
    argv += ['-tp'] + (['thermal-*.yaml'] if case['glob'] else ['thermal-%s.yaml' % k for k in names])
    out = 'FORCE_CONSTANTS_QHA'
    if case['name']:
        argv, out = argv + ['-sfc', 'target'], 'target'
    code, text = calc.run_script('qha_extract', argv, d)
    ctx.check(code == 0, lambda: 'qha_extract %s ended with code %s: %s' % (argv, code, text[-500:]))
    got = parse_FORCE_CONSTANTS(out)
    ctx.nontrivial(case['permute'])
    # the volume of the minimum is fitted by phonopy within about 1e-5
    ctx.close(got, fc(v_of_t(t)), 'force constants at %s K' % t, rtol=1e-3, atol=2.5e-3)


SUBS = [Sub('rfc_calc', rfc_strategy, rfc, quick=100, thorough=2000, shards=4, tshards=4),
        Sub('fitdata', fit_strategy, fit, quick=60, thorough=1000, shards=2, tshards=2),
        Sub('qha_extract', qha_strategy, qha, quick=60, thorough=1000, shards=2, tshards=2)]
