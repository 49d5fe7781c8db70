"""P31: scan of the number of maximum entropy coefficients."""
import re
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub, quiet

PROPERTY = 'P31'
RULE = ('random crystals and runs (also without motion of the centre of mass, and shorter than some of the numbers of coefficients), '
        'wave vectors, lists of numbers of coefficients and fitting functions; the report and the figures are compared with spectra and '
        'fits calculated for one number of coefficients at a time; non-trivial when several numbers of coefficients can be fitted '
        'for a mode')


def strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I'), lo=350, hi=600), 'dim': gen.dims(1, 3, 4),
        'n': st.sampled_from([40, 200, 400]), 'seed': gen.seeds(), 'q': st.integers(0, 20), 'gamma': st.booleans(),
        'still': st.booleans(), 'function': st.sampled_from([0, 0, 1, 2]), 'dt': st.sampled_from([0.01, 0.02]),
        'coeff': st.lists(st.integers(1, 60), min_size=2, max_size=5, unique=True), 'silent': st.booleans(),
        'before': st.booleans(), 'damp': st.integers(5, 60)})


def reference(vq, scan, n, d, p, x, function):
    """Peak: fits, one for each number of coefficients"""
    from dynaphopy.analysis.fitting.fitting_functions import fitting_functions
    from dynaphopy.power_spectrum import get_mem_power_spectra
    before = p.number_of_coefficients_mem
    want = {}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for i in range(vq.shape[1]):
            rows = []
            for k in scan:
                if k >= n:
                    continue
                p.number_of_coefficients_mem = int(k)
                y = get_mem_power_spectra(vq[:, i:i + 1], d, p)[:, 0]
                f = fitting_functions[function](x, y, guess_height=y.max(), guess_position=x[np.argmax(y)])
                fit = f.get_fitting()
                if fit['all_good'] and np.isfinite(fit['global_error']):
                    rows.append((k, fit['width'], fit['global_error'], fit['area'], f.get_fitting_parameters()[0][0], y, f.get_curve(x)))
            if rows:
                want[i + 1] = rows
    p.number_of_coefficients_mem = before
    return want


def run(case, ctx):
    import matplotlib.pyplot as plt
    c = gen.build_crystal(case['crystal'])
    n, dt = case['n'], case['dt']
    qp, u, v = calc.quasiparticle(c, case['dim'], nstep=n, dt=dt, seed=case['seed'], noise=0.1, silent=case['silent'])
    d = qp.dynamic
    r = gen.rng(case['seed'] + 5)
    # damped oscillators give peaks that can be fitted
    vel = np.zeros(d.velocity.shape)
    freq = r.uniform(2, 0.35 / dt, size=vel.shape[1:])
    a = np.exp(-case['damp'] / 100. * 2 * np.pi * dt + 2j * np.pi * freq * dt)
    z = np.zeros(vel.shape[1:], dtype=complex)
    for t in range(n):
        z = a * z + r.normal(size=z.shape) + 1j * r.normal(size=z.shape)
        vel[t] = z.real
    if case['still']:
        masses = np.array([gen.MASSES[e] for e in c.elements])[gen.supercell_positions(c, case['dim'])[1]]
        vel = vel - (vel * masses[:, None]).sum(1)[:, None] / masses.sum()
    d.velocity[:] = vel
    qs = calc.commensurate_reference(c, case['dim'])
    qp.set_reduced_q_vector([0, 0, 0] if case['gamma'] else qs[case['q'] % len(qs)])
    qp.set_frequency_limits([0, 0.45 / dt])
    qp.set_spectra_resolution(0.45 / dt / 90)
    qp.select_fitting_function(case['function'])
    scan = np.array([k for k in sorted(case['coeff']) if k != n - 1] or [1])
    p = qp.parameters
    p.mem_scan_range = scan
    p.number_of_coefficients_mem = 7
    if case['before']:
        qp.select_power_spectra_algorithm(1)
        qp.get_power_spectrum_phonon()
    plt.close('all')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with quiet() as out:
            qp.phonon_width_scan_analysis()
    ctx.check(p.number_of_coefficients_mem == 7, 'the scan changed the number of coefficients')
    text = out.getvalue()
    vq = np.array(qp.get_vq())
    x = np.array(p.frequency_range)
    # A maximum entropy spectrum of few steps can amplify rounding errors without limit: the reference is calculated again
    # from velocities changed in their last digits, and peaks that change with them are not compared.
    noise = gen.rng(case['seed'] + 1)
    want = reference(vq, scan, n, d, p, x, case['function'])
    loose = set()
    for _ in range(2):
        other = reference(vq * (1 + 2e-13 * noise.uniform(-1, 1, vq.shape)), scan, n, d, p, x, case['function'])
        for i in range(1, vq.shape[1] + 1):
            rows, again = want.get(i, []), other.get(i, [])
            if [z[0] for z in rows] != [z[0] for z in again] or any(
                    np.abs(np.array(y[j]) - np.array(z[j])).max() > 1e-5 * np.abs(np.array(y[j])).max()
                    for y, z in zip(rows, again) for j in range(1, 7)):
                loose.add(i)
    ctx.event('%d peaks depend on the last digits' % len(loose))
    report = {}
    for m in re.finditer(r'Peak # (\d+)\s*\n-+\s*\nEstimated width *: *(\S+) THz\s*\nPosition \(best fit\) *: *(\S+) THz\s*\n'
                         r'Area \(best fit\) *: *(\S+) eV\s*\nCoefficients num \(best fit\) *: *(\S+)\s*\n'
                         r'Fitting global error \(best fit\) *: *(\S+)', text):
        report[int(m.group(1))] = [float(z) for z in m.groups()[1:]]
    ctx.event('%d of %d peaks' % (len(want), vq.shape[1]) if len(want) < vq.shape[1] else 'all peaks')
    ctx.check(sorted(plt.get_fignums()) == sorted(report), lambda: 'figures %s, peaks %s' % (plt.get_fignums(), sorted(report)))
    ctx.check(set(report) - loose == set(want) - loose, lambda: 'peaks reported %s, expected %s' % (sorted(report), sorted(want)))
    for i, rows in want.items():
        if i in loose:
            continue
        ctx.nontrivial(len(rows) > 1)
        k, w, e, A, pos = [np.array([z[j] for z in rows], dtype=float) for j in range(5)]
        weight = 1 / np.sqrt(e)
        best = int(np.argmin(e))
        got = report[i]
        spread = 1e-4 * np.abs(w).max() + 1e-12
        ctx.close(got[0], (w * weight).sum() / weight.sum(), 'estimated width of peak %d' % i, rtol=5e-4, atol=spread)
        order = np.sort(e)
        if len(e) > 1 and order[1] - order[0] < 1e-3 * order[0]:
            continue
        ctx.close(got[1:], [pos[best], A[best], k[best], e[best]], 'best fit of peak %d' % i, rtol=5e-4, atol=1e-9)
        axes = {ax.get_title(): ax.get_lines() for ax in plt.figure(i).axes}
        for title, y in (('Peak width', w), ('Fitting error', weight)):
            l = axes[title][0]
            ctx.close(np.array(l.get_xdata(), dtype=float), k, '%s of peak %d: numbers of coefficients' % (title, i), rtol=0)
            ctx.close(np.array(l.get_ydata(), dtype=float), y, '%s of peak %d' % (title, i), rtol=5e-4, atol=1e-5 * np.abs(y).max())
        ctx.close(np.array(axes['Peak width'][1].get_ydata(), dtype=float), [got[0]] * 2, 'line of the width of peak %d' % i, rtol=1e-6)
        y, fit = rows[best][5:]
        lines = axes['Best curve fitting']
        ctx.close(lines[0].get_ydata(), y, 'spectrum drawn for peak %d' % i, rtol=1e-4, atol=1e-6 * y.max())
        ctx.close(lines[1].get_ydata(), fit, 'fit drawn for peak %d' % i, rtol=5e-4, atol=1e-5 * np.abs(fit).max())


SUBS = [Sub('scan', strategy, run, quick=70, thorough=2500)]
